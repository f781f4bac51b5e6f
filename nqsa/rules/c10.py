"""C10: no clue is silently dropped, and each clue acts at its own position."""
import ast
import json
import os
import re

from ..clues import DICTS, PUZZLE, number, place, point, run, seen, seen_f, seen_nodes
from ..arith import add, to_lin
from ..domain import Const, Sym, f_and, f_lits, f_map, f_not, f_or, lit, subst, walk
from ..framework import per_solver
from ..linear import infeasible
from ..prog import program
from ..state import PathDead
from ..types_ import typ

EXPLANATION = (
    "Every solver is interpreted on a board of unknown size that holds exactly two clues at unknown places (of unknown non-negative value, or of each "
    "letter, word or symbol the solver compares clues with), for every kind of position. The rule templates that mention a clue's value or place, with "
    "the path conditions they are emitted under, are the clue's effect; the disjunction of these conditions is compared with the condition under which "
    "the solver accepts the puzzle, per region of the board (inside, and each of the four margins): within a region every value acts or none does. "
    "nqsa/tables/clue_forms.json records which kinds of clue act, by puzzle type."
)
RULES = ["clue-dropped", "clue-without-effect", "dropped-beside-blank", "dropped-in-shared-cell", "wrong-clue", "place-ignored"]

LOCAL = {"key", "val", "elem", "idx", "lv", "lout", "celem", "cnt"}
ROW, COL = Sym("attr", PUZZLE, "row"), Sym("attr", PUZZLE, "col")
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "clue_forms.json")
APART = f_not(f_and([lit(Sym("eq", add(place(1, x), place(2, x), -1), Const(0)), True) for x in "rc"]))
WANT = {x for i in (1, 2) for x in (number(i), place(i, "r"), place(i, "c"))}

NUMBERS = {number(1), number(2)}


def local(x):
    return any(isinstance(y, Sym) and (y.op in LOCAL or y.op == "nonempty") for y in walk(x))


def opaque(f):
    """Does the condition ask a dictionary built from the clues (whose answer the analysis cannot split by clue)?"""
    return any(has_dict(x[1]) for x in f_lits(f))


def has_dict(v):
    if isinstance(v, Sym):
        return v.op in DICTS or v.op != "rooms" and any(has_dict(a) for a in (dict(v.args[0]) if v.op == "lin" else v.args) if not isinstance(a, tuple))
    return False


def about_number(v):
    o = set()
    seen(v, NUMBERS, o)
    return bool(o)


def strip(f):
    """Weaken a condition to what it says about the clues and the board."""
    if f is True or f is False:
        return f
    if f[0] == "lit":
        return True if local(f[1]) and not (f[1].op in ("lt", "eq") and about_number(f[1])) else f
    sub = [strip(g) for g in f[1]]
    return f_and(sub) if f[0] == "and" else f_or(sub)


def located(extra, at):
    """The conditions with local values that are compared with the clue's place put equal to it."""
    put = {}
    mine = {place(at, "r"), place(at, "c")}
    for f in extra:
        for x in f_lits(f):
            s = x[1]
            if s.op != "eq" or len(s.args) != 2:
                continue
            d = add(s.args[0], s.args[1], -1)
            t = to_lin(d)
            if t and t[1] == 0 and sorted(t[0].values()) == [-1, 1]:
                for y in t[0]:
                    if y not in mine and local(y):
                        for z in t[0]:
                            if z in mine:
                                put.setdefault(y, z)
    if not put:
        return extra
    return [f_map(f, lambda s, p: fold(subst(s, put.get), p)) for f in extra]


def fold(s, p):
    if s.op in ("eq", "lt") and all(isinstance(a, Const) for a in s.args):
        a, b = s.args[0].v, s.args[1].v
        if isinstance(a, int) and isinstance(b, int):
            return ((a == b) if s.op == "eq" else a < b) == p
    return ("lit", s, p)


def lt(a, b):
    return lit(Sym("lt", a, b), True)


def ge(a, b):
    return lit(Sym("lt", a, b), False)


def eq(a, b):
    return lit(Sym("eq", a, b), True)


def regions(i, d):
    """Parts of the board (and of the margins) a clue can lie in; a rule of the puzzle treats each of them uniformly."""
    r, c = place(i, "r"), place(i, "c")
    board = (ge(ROW, Const(1)), ge(COL, Const(1)))
    ir = (ge(r, Const(1 if d in ("TOP", "TOP_LEFT") else 0)), lt(r, ROW))
    ic = (ge(c, Const(1 if d in ("LEFT", "TOP_LEFT") else 0)), lt(c, COL))
    yield "inside", board + ir + ic
    if d == "CENTER":
        yield "above", board + (eq(r, Const(-1)),) + ic
        yield "below", board + (eq(r, ROW),) + ic
        yield "left", board + ir + (eq(c, Const(-1)),)
        yield "right", board + ir + (eq(c, COL),)


def forms(cls):
    """Kinds of clue worth trying: (collection, direction, position, value); value None stands for an unknown number."""
    src = ast.unparse(cls)
    consts = {n.value for n in ast.walk(cls) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    cmp_ = {k.value for n in ast.walk(cls) if isinstance(n, (ast.Compare, ast.Dict)) for k in ast.walk(n) if isinstance(k, ast.Constant) and isinstance(k.value, str)}
    dirs = ["CENTER"] + [d for d in ("TOP", "LEFT", "TOP_LEFT") if "Direction." + d in src]
    if "puzzle.text" in src:
        pos = sorted({x for x in consts if re.fullmatch(r"normal|sudoku_\d", x)} | {"normal"}) + (["tapa_0"] if "tapa" in src else [])
        vals = [None, "A", "?"] + sorted(x for x in cmp_ if len(x) == 1 and x not in "?_A")
        if "OMINOES" in src and not any(re.fullmatch("[A-Z]", x) and x != "A" for x in vals if x):
            vals += ["I", "L", "T"]
        if "_" in consts:
            vals += [f"{k}_{d}" for k in "03" for d in "0123"]
        for d in dirs:
            for p in pos:
                for v in vals:
                    yield "text", d, p, v
    if "puzzle.symbol" in src:
        for d in dirs:
            for v in sorted(x for x in consts if re.fullmatch(r"\w+__\w+", x)):
                yield "symbol", d, "normal", v
            for v in sorted(shapes(cls, consts)):
                for k in styles(v):
                    yield "symbol", d, "normal", f"{v}__{k}"


def shapes(cls, consts):
    """First halves of the symbol names a solver takes apart itself."""
    names = {n.targets[0].elts[0].id for n in ast.walk(cls)
             if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "attr", "") == "split"
             and n.value.args and getattr(n.value.args[0], "value", None) == "__"
             and isinstance(n.targets[0], ast.Tuple) and isinstance(n.targets[0].elts[0], ast.Name)}
    out, stems = set(), set()

    def strings(node):
        return {k.value for k in ast.walk(node) if isinstance(k, ast.Constant) and isinstance(k.value, str)}
    for n in ast.walk(cls):
        if isinstance(n, ast.Compare) and getattr(n.left, "id", None) in names:
            out |= {v for x in n.comparators for v in strings(x)}
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "validate_type" and getattr(n.args[0], "id", None) in names:
            out |= strings(n.args[1])
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "startswith" and n.args and getattr(n.func.value, "id", None) in names:
            stems |= strings(n.args[0])
    return out | {c for c in consts if any(re.fullmatch(re.escape(x) + r"_?[A-Z]", c) for x in stems)}


def styles(shape):
    """Second halves: the pieces of one shape are numbered, a cross of arrows is a mask."""
    if shape == "arrow_cross":
        return (0, 16, 32, 64, 128, 48, 80, 144, 96, 160, 192, 240)
    return range(0, 9)


def effect(repo, res, forms_, values, same=False, blank=frozenset()):
    """For either clue: ({region: refused|none|all|some|unknown}, rules with the value); blank holds the rules that a blank clue leaves too."""
    from ..prog import program
    from ..types_ import typ
    rules, _ = program(res)
    fin = tuple(res.state.pc)
    out = []
    marks = []
    for x in rules:
        o = set()
        seen_nodes(x.nodes, WANT, o)
        extra = [f for f in x.pc if f not in fin]
        if (x.text(), tuple(extra)) in blank:
            continue
        for f in extra:
            seen_f(f, WANT, o)
        marks.append((x, o, extra))
    for i in (1, 2):
        at = 1 if same else i
        n, r, c = number(i), place(at, "r"), place(at, "c")
        num = values[i - 1] is None
        cov, hazy, rs = [], False, []
        for x, o, extra in marks:
            if n in o if num else r in o or c in o:
                cov.append(f_and([strip(f) for f in located(extra, at)]))
                hazy = hazy or any(opaque(f) for f in extra) or n in o and n not in direct(x) or num and listed(x, rules, n)
                rs.append((x, o))
            elif (r in o or c in o) and any(opaque(f) for f in extra):
                hazy = True
        regs = {}
        for name, pc in regions(at, forms_[i - 1][1]):
            base = fin + pc + (ge(n, Const(0)),)
            if infeasible(base, typ) is True:
                regs[name] = "refused"
                continue
            act = [infeasible(base + (g,), typ) for g in cov]
            if all(a is True for a in act):
                regs[name] = "unknown" if hazy else "none"
                continue
            u = infeasible(base + tuple(f_not(g) for g in cov), typ)
            regs[name] = "all" if u is True else "unknown" if hazy or u is None or None in act else "some"
        out.append((regs, rs))
    return out


def listed(rule, rules, n):
    """Is the rule a fact chosen by the clue's value, of a predicate that some rule asks to be absent (leaving it out acts, too)?"""
    o = set()
    seen_nodes(rule.nodes, {n}, o)
    text = rule.text()
    if o or ":-" in text or "(" not in text:
        return False
    return any(f"not {text.split('(')[0].strip()}(" in x.text() for x in rules)


def direct(rule):
    """Values a rule mentions outside sequences whose elements are conditional."""
    o = set()
    shallow(rule.nodes, o)
    for f in rule.pc:
        for x in f_lits(f):
            shallow_v(x[1], o)
    return o


def shallow(nodes, out):
    for n in nodes:
        if n[0] == "H":
            shallow_v(n[1], out)
        elif n[0] == "R":
            for sub in (n[2] if n[2] and not isinstance(n[2][0][0] if n[2][0] else (), str) else (n[2],)):
                shallow(sub, out)
        elif n[0] == "S":
            shallow(n[2], out)
        elif n[0] == "A":
            for _, x in n[1]:
                shallow(x, out)
        elif n[0] == "G":
            shallow(n[2], out)


def shallow_v(v, out):
    from ..domain import BoolF, Phi, Str, Tup, V
    out.add(v)
    if isinstance(v, Sym):
        if v.op in ("seq", "dictv", "rooms", "set"):
            return
        for a in (dict(v.args[0]) if v.op == "lin" else v.args):
            if isinstance(a, V):
                shallow_v(a, out)
    elif isinstance(v, Tup):
        for x in v.items:
            shallow_v(x, out)
    elif isinstance(v, BoolF):
        for l in f_lits(v.f):
            shallow_v(l[1], out)
    elif isinstance(v, Phi):
        for f, x in v.alts:
            shallow_v(x, out)
    elif isinstance(v, Str):
        shallow(v.nodes, out)


def attempt(repo, mod, cls, forms_, values, same=False):
    """The program for two clues (in different cells, or in the same one); None when they are refused."""
    from ..state import PathDead
    items = {}
    for i in (1, 2):
        coll, d, p, _ = forms_[i - 1]
        at = 1 if same else i
        items.setdefault(coll, []).append((point(place(at, "r"), place(at, "c"), d, p), number(i) if values[i - 1] is None else Const(values[i - 1])))
    try:
        return run(repo, mod, cls, items, () if same else (APART,))
    except PathDead:
        return None


def label(form):
    coll, d, p, v = form
    kind = "number" if v is None else repr(v)
    return f"{kind} in puzzle.{coll} at {d}" + ("" if coll == "symbol" else f"/{p}")


def key(form):
    return " ".join([form[0], form[1], form[2], "n" if form[3] is None else "=" + form[3]])


def unkey(s):
    a, b, c, v = s.split(" ", 3)
    return (a, b, c, None if v == "n" else v[1:])


def table():
    try:
        with open(TABLE, encoding="utf-8") as f:
            return json.load(f)
    except FileNotFoundError:
        return {}


def leftovers(repo, mod, cls, form):
    """The rules of the program for two blank clues: what a clue leaves whatever it says."""
    try:
        res = attempt(repo, mod, cls, (form, form), ("?", "?"))
    except RecursionError:
        raise
    except Exception:
        return frozenset()
    if res is None:
        return frozenset()
    fin = tuple(res.state.pc)
    return frozenset((x.text(), tuple(f for f in x.pc if f not in fin)) for x in program(res)[0])


def survey(repo, mod, cls, rep=None):
    """{form: (effect of clue 1, effect of clue 2) or None when refused}."""
    out = {}
    fs = list(forms(cls))
    fs += [f for f in map(unkey, table().get(mod.split(".")[-1], {})) if f not in fs]
    blanks = {}
    for form in fs:
        v = form[3]
        try:
            res = attempt(repo, mod, cls, (form, form), (v, v))
            blank = frozenset()
            if form[0] == "text" and v not in (None, "?", "A") and res is not None:
                if form[:3] not in blanks:
                    blanks[form[:3]] = leftovers(repo, mod, cls, form[:3] + ("?",))
                blank = blanks[form[:3]]
            out[form] = None if res is None else effect(repo, res, (form, form), (v, v), False, blank)
        except RecursionError:
            raise
        except Exception as e:
            if rep is not None:
                rep.unknown.append(f"{mod}: {label(form)}: {type(e).__name__}: {str(e)[:120]}")
    return out


def solver(repo, res0, rep):
    mod, cls, name = res0.mod, res0.cls, res0.name
    where = f"solver {name}"
    loc = (repo.modules[mod].rel, cls.lineno)
    want = table().get(name, {})
    got = survey(repo, mod, cls, rep)
    for form, eff in got.items():
        rep.count("kinds of clue tried")
        if eff is None:
            rep.count("kinds of clue refused")
            continue
        num = form[3] is None
        for i, (regs, rs) in enumerate(eff, 1):
            for reg, e in regs.items():
                rep.count("obligations")
                if e == "unknown":
                    rep.count("undecided obligations")
                at = rs[0][0].loc if rs else loc
                which = "first" if i == 1 else "second"
                if e == "some" and form[3] not in ("?", "A"):
                    rep.add("clue-dropped", where, f"{label(form)}, {reg}", f"of clues of this kind ({label(form)}, {reg} the board) some act on the program and others (other values, other places, or the {which} of two) neither act nor are refused", at)
                elif e == "none" and reg in want.get(key(form), ()):
                    rep.add("clue-without-effect", where, f"{label(form)}, {reg}", f"a clue that is a {label(form)} ({reg} the board; the {which} of two) adds no rule and is not refused", at)
            for x, o in rs:
                j = 3 - i
                mine = {place(i, "r"), place(i, "c")} & o
                other = {place(j, "r"), place(j, "c")} & o
                if num and other and not mine:
                    rep.add("wrong-clue", where, label(form), f"a rule with one clue's value stands at another clue's place: {x.text().strip()[:120]}", x.loc)
        if form[3] not in ("?", "A") or form in map(unkey, want):
            beside_blank(repo, mod, cls, where, form, eff, rep, loc)
    same_cell(repo, mod, cls, where, got, rep, loc)
    elsewhere(repo, mod, cls, where, got, rep, loc)


def elsewhere(repo, mod, cls, where, got, rep, loc):
    """A clue on a border, on a corner or in small type is not taken for a clue of the cell."""
    tried = set()
    for form, eff in got.items():
        if eff is None:
            continue
        coll, d, p, v = form
        mine = acts(eff)
        if not mine:
            continue
        probes = [(coll, x, p, v) for x in ("TOP", "TOP_LEFT") if x != d and (x == "TOP" or (coll, d, p) not in tried)]
        if coll == "text" and (coll, d, p) not in tried:
            probes += [(coll, d, x, v) for x in ("tapa_0", "sudoku_0", "normal") if x != p][:2]
        tried.add((coll, d, p))
        for probe in probes:
            e = got[probe] if probe in got else second(repo, mod, cls, probe, (v, v), (probe, probe), rep)
            rep.count("clues at another place")
            if e is None:
                continue
            there = acts(e)
            for x, at in mine.items():
                if x not in there:
                    continue
                rep.add("place-ignored", where, f"{label(form)} and {label(probe)}", f"a {label(probe)} is taken for a {label(form)}: both lead to {x.strip()[:120]}", at or loc)
                break


def acts(eff):
    """What either clue adds to the program at its own place: {rule: where it is added}"""
    out = {}
    for i, (_, rs) in enumerate(eff, 1):
        for x, o in rs:
            if {place(i, "r"), place(i, "c")} & o:
                out.setdefault(x.text(), x.loc)
    return out


def beside_blank(repo, mod, cls, where, form, eff, rep, loc):
    """A blank clue elsewhere takes nothing away from a clue."""
    if not any("all" in regs.values() for regs, _ in eff):
        return
    v = form[3]
    for blank in ("?",) if form[2] == "tapa_0" else ("?", "", " ") if form[0] == "text" else ():
        for values, i in (((v, blank), 1), ((blank, v), 2)):
            if all({place(3 - i, "r"), place(3 - i, "c"), number(3 - i)} & o for _, o in eff[i - 1][1]):  # clues act in pairs
                continue
            got = second(repo, mod, cls, form, values, (form, form), rep)
            if got is None:
                continue
            regs, rs = got[i - 1]
            rep.count("clues beside a blank clue")
            for reg, e in regs.items():
                if eff[i - 1][0].get(reg) == "all" and e in ("none", "some"):
                    rep.add("dropped-beside-blank", where, f"{label(form)}, {reg}", f"a {label(form)} has no effect when the clue {'after' if i == 1 else 'before'} it is blank ({blank!r})", loc)


def second(repo, mod, cls, form, values, forms_, rep, same=False):
    try:
        res = attempt(repo, mod, cls, forms_, values, same)
        return None if res is None else effect(repo, res, forms_, values, same)
    except RecursionError:
        raise
    except Exception as e:
        rep.unknown.append(f"{mod}: {label(form)} with {values}: {type(e).__name__}")


def same_cell(repo, mod, cls, where, got, rep, loc):
    """Clues of different kinds in one cell all act."""
    ok = [f for f, e in got.items() if e is not None and f[3] is None and f[0] == "text" and any("all" in regs.values() for regs, _ in e)]
    for f in ok:
        for g in [x for x in ok if x[1:3] != f[1:3]] + ([("text", "CENTER", "tapa_1", None)] if f[2] == "tapa_0" else []):
            e = second(repo, mod, cls, f, (None, None), (f, g), rep, True)
            if e is None:
                continue
            rep.count("clues sharing a cell")
            for i, h in ((1, f), (2, g)):
                regs = e[i - 1][0]
                alone = got[h if h in got else f][0][0]
                for reg in regs:
                    if alone.get(reg) == "all" and regs[reg] in ("none", "some"):
                        rep.add("dropped-in-shared-cell", where, f"{label(h)}, {reg}", f"a {label(h)} has no effect in a cell that also holds a {label(g if i == 1 else f)}", loc)


def check(repo, rep, tier):
    per_solver(repo, solver, rep)
