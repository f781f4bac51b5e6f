"""C09: what the user has drawn in the notation of the answer is required, what is crossed out is forbidden, at its own place."""
import ast
import re

from ..asp import T
from ..domain import Const, EnumV, Sym, Tup, f_and, f_lits, f_map, f_not, lit, subst, walk
from ..facts import infeasible
from ..framework import per_solver
from ..prog import flat, iter_lits, program
from ..state import facts
from ..types_ import coll_name, typ
from .c07 import stable

EXPLANATION = (
    "For every puzzle type that answers with shading, borders, lines or symbols, the loops over the drawn marks of that kind are taken from the abstract "
    "interpretation of the program generation. For each mark value (shaded / ruled out, drawn / crossed out) and each direction the emitted templates are "
    "classified as requiring or forbidding the shown atom at the mark's own place; a case split over the path conditions shows that every mark on the board "
    "is required, forbidden or refused, and that none gets the opposite polarity. Tests that take the mere presence of a border or line entry for a drawn one are reported."
)
RULES = ["mark-ignored", "wrong-polarity", "wrong-place", "crossed-out-counts-as-drawn"]

SHADES = ("gray", "black")
EDGES = {"edge_top": "TOP", "edge_left": "LEFT", "edge_diag_up": "DIAG_UP", "edge_diag_down": "DIAG_DOWN"}
LINES = ("grid_direction", "grid_in", "grid_out")
DIRVALUE = {"TOP": "top", "LEFT": "left", "DIAG_UP": "diag_up", "DIAG_DOWN": "diag_down", "CENTER": "center", "TOP_LEFT": "top_left"}
SYMBOL = re.compile(r"[A-Za-z]\w*?__\d+")
PUZZLE = Sym("puzzle")


def coll(name):
    return Sym("attr", PUZZLE, name)


def key(name):
    return Sym("key", 0, coll(name))


def val(name):
    return Sym("val", 0, coll(name))


def fold(s, pol):
    """A literal after substitution, with constants evaluated."""
    v = value(s)
    if v is None:
        return ("lit", s, pol)
    return v == pol


def value(s):
    if s.op == "eq":
        a, b = s.args
        if isinstance(a, (Const, EnumV)) and isinstance(b, (Const, EnumV)):
            return a == b or (isinstance(a, Const) and isinstance(b, Const) and a.v == b.v)
        if b == Const(True) and isinstance(a, Sym) and a.op == "mcall" and all(isinstance(x, Const) for x in a.args[1:]):
            try:
                return bool(getattr(a.args[1].v, a.args[0])(*[x.v for x in a.args[2:]]))
            except Exception:
                return None
    return None


def fold_value(v):
    def fn(x):
        if isinstance(x, Sym) and x.op == "attr" and x.args[1] == "value" and isinstance(x.args[0], EnumV):
            return Const(DIRVALUE.get(x.args[0].name, x.args[0].name.lower()))
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[1], Const) and isinstance(x.args[1].v, int):
            m = x.args[0]
            if isinstance(m, Sym) and m.op == "mcall" and m.args[0] in ("split", "rsplit", "partition") and all(isinstance(a, Const) for a in m.args[1:]):
                parts = getattr(m.args[1].v, m.args[0])(*[a.v for a in m.args[2:]])
                return Const(parts[x.args[1].v]) if -len(parts) <= x.args[1].v < len(parts) else None
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[0], Const) and isinstance(x.args[0].v, str) and isinstance(x.args[1], Const):
            try:
                return Const(x.args[0].v[x.args[1].v])
            except IndexError:
                return None
        return None
    return subst(v, fn)


class Case:
    """One kind of mark: its collection, value, direction and place."""

    def __init__(self, name, label, assume, replace):
        self.name, self.label, self.assume, self.replace = name, label, tuple(assume), replace

    def rw(self, v):
        def fn(x):
            if isinstance(x, Sym) and x.op in ("key", "val") and len(x.args) > 1 and x.args[1] == coll(self.name):
                x = Sym(x.op, 0, x.args[1])
                return self.replace.get(x, x)
            if isinstance(x, Sym) and x.op == "item":
                b = x.args[0]
                if isinstance(b, Sym) and b.op == "key" and len(b.args) > 1 and b.args[1] == coll(self.name):
                    y = Sym("item", Sym("key", 0, b.args[1]), x.args[1])
                    return self.replace.get(y, y)
            return None
        return fold_value(subst(v, fn))

    def places(self):
        k = key(self.name)
        parts = [Sym("item", k, Const(i)) for i in range(4)]
        r, c, d, pos = [self.replace.get(x, x) for x in parts]
        return (k, Tup((r, c, d, pos)), Tup((r, c, EnumV("Direction", "CENTER"), pos)) if self.name == "line" else k, Tup((r, c, d, Const("normal"))) if self.name == "edge" else k)

    def formula(self, f):
        def one(s, p):
            s2 = self.rw(s)
            if s2.op == "in" and s2.args[1] == coll(self.name) and s2.args[0] in self.places():  # the mark itself is in its collection
                return p
            if self.assume and s2.op == "eq" and isinstance(s2.args[1], Const) and isinstance(s2.args[1].v, int) and s2.args[1].v < 0 and s2.args[0] in self.coordinates():  # a place of the board
                return not p
            return fold(s2, p)
        return f_map(f, one)

    def coordinates(self):
        k = key(self.name)
        return (Sym("item", k, Const(0)), Sym("item", k, Const(1)))


def cases(name, shown, hashi=False):
    """The marks of one collection: (case, positive?, wanted atoms)."""
    k, v = key(name), val(name)
    r, c = Sym("item", k, Const(0)), Sym("item", k, Const(1))

    def board(rmax, cmax):
        return (lit(Sym("lt", r, Const(0)), False), lit(Sym("lt", Sym("lin", order(r, "row"), 0), Const(rmax)), True),
                lit(Sym("lt", c, Const(0)), False), lit(Sym("lt", Sym("lin", order(c, "col"), 0), Const(cmax)), True))

    def order(x, dim):
        d = Sym("attr", PUZZLE, dim)
        return tuple(sorted(((x, 1), (d, -1)), key=lambda p: repr(p[0])))
    if name == "surface":
        for col in ("GRAY", "BLACK", "GREEN"):
            yield Case(name, f"{col.lower()} cell", board(0, 0), {v: EnumV("Color", col)}), col != "GREEN", shown
    elif name == "symbol":
        for s in sorted(shown):
            yield Case(name, f"drawn {s}", board(0, 0), {Sym("item", k, Const(2)): EnumV("Direction", "CENTER"), v: Const(s)}), True, {s}
    elif name == "edge":
        for s in shown:
            d = EDGES[s]
            place = board(1 if d == "TOP" else 0, 1 if d == "LEFT" else 0)
            for pol in (True, False):
                yield Case(name, f"{'drawn' if pol else 'crossed-out'} {d.lower()} border", place, {Sym("item", k, Const(2)): EnumV("Direction", d), v: Const(pol)}), pol, {s}
    elif name == "line":
        for pol in (True, False):
            for d in "lurd":
                for suf in (("_1", "_2") if hashi and pol else ("",)):
                    yield Case(name, f"{'drawn' if pol else 'crossed-out'} line to the {d}{suf}", board(0, 0), {Sym("item", k, Const(3)): Const(d + suf), v: Const(pol)}), pol, shown


def text_of(parts, case):
    """The text of a name or string template for this mark, or None."""
    out = ""
    for p in parts:
        if isinstance(p, str):
            out += p
            continue
        v = case.rw(p[1])
        if isinstance(v, Const) and isinstance(v.v, (str, int)):
            out += str(v.v)
        else:
            return None
    return out


def place(lit_, case, name):
    """Is the literal about the mark's own place?"""
    if not cell(lit_, case, name):
        return False
    k, args = key(name), lit_.a[2]
    if name == "line":
        if len(args) < 3 or args[2].op != "str":
            return False
        want = case.replace[Sym("item", k, Const(3))].v[0]
        if text_of(args[2].a[0], case) != want:
            return False
    return True


def cell(lit_, case, name):
    k, args = key(name), lit_.a[2]
    return len(args) >= 2 and all(args[i].op == "hole" and case.rw(args[i].a[0]) == Sym("item", k, Const(i)) for i in (0, 1))


def about(lit_, case, name):
    """The literal's row or column comes from the mark at hand."""
    k = key(name)
    for a in lit_.a[2][:2]:
        if a.op == "hole" and any(x == k for x in walk(case.rw(a.a[0]))):
            return True
    return False


def about_args(lit_, case, name):
    k = key(name)
    return [a.op == "hole" and any(x == k for x in walk(case.rw(a.a[0]))) for a in lit_.a[2]]


def single(tree):
    """('fact'|'constraint', literals, others) of a statement with no variables bound elsewhere."""
    if tree.op != "rule":
        return None
    head, body = tree.a
    body = list(flat(body))
    if head.op == "lit" and not body:
        return "fact", [head]
    if head.op in ("none", "false") or head.op == "disj" and not list(flat(head.a)) or head.op == "lit" and not head.a[1]:
        if body and all(x.op == "lit" for x in body):
            return "constraint", body
    return None


def polarity(tree, case, name, wanted, hashi):
    """(requires, forbids: set of atoms, misplaced, unclear) of a template for a mark."""
    sg = single(tree)
    names = [(x, text_of(x.a[1], case)) for x, _ in iter_lits(tree)]
    rel = [(x, n) for x, n in names if n in wanted or n is None]
    if not rel:
        return None
    if sg is None:
        return "unclear"
    kind, lits = sg
    if any(n is None for _, n in rel):
        return "unclear"
    if name == "line" and all(cell(x, case, name) and not place(x, case, name) for x, _ in rel):
        return None  # another direction of the same cell
    if not all(place(x, case, name) for x, _ in rel):
        return "misplaced" if len(lits) == 1 and about(rel[0][0], case, name) else "unclear"
    if kind == "fact":
        x, n = rel[0]
        return ("requires", {n}) if x.a[0] % 2 == 0 else ("forbids", {n})
    if all(x.a[0] % 2 == 1 for x in lits) and len(rel) == len(lits):
        return ("requires", {n for _, n in rel})
    if len(lits) == 1 and lits[0].a[0] % 2 == 0:
        return ("forbids", {rel[0][1]})
    return "unclear"


def exclusive(rules):
    """Predicates that stand in a choice of exactly one with another: name -> set of the others."""
    out = {}
    for r in rules:
        if r.tree is None or r.tree.op != "rule" or r.tree.a[0].op != "agg":
            continue
        h = r.tree.a[0]
        names = set()
        for x, role in iter_lits(r.tree):
            if role == "choice" and all(isinstance(p, str) for p in x.a[1]) and x.a[0] == 0:
                names.add("".join(x.a[1]))
        bound = [b for b in (h.a[0], h.a[-1]) if b is not None]
        if len(names) > 1 and "= 1" in " ".join(r.text().split()):
            for n in names:
                out.setdefault(n, set()).update(names - {n})
    return out


def complements(rules, excl):
    """X :- ..., not Y: of the two, one holds."""
    for r in rules:
        if r.tree is None or r.tree.op != "rule" or r.tree.a[0].op != "lit":
            continue
        h = r.tree.a[0]
        body = list(flat(r.tree.a[1]))
        neg = [x for x in body if x.op == "lit" and x.a[0] % 2 == 1]
        if len(neg) == 1 and all(isinstance(p, str) for p in (*h.a[1], *neg[0].a[1])):
            a, b = "".join(h.a[1]), "".join(neg[0].a[1])
            if SYMBOL.fullmatch(a) and SYMBOL.fullmatch(b):
                excl.setdefault(a, set()).add(b)
                excl.setdefault(b, set()).add(a)


def generalise(fs, name, case):
    return tuple(case.formula(f) for f in fs)


def solver(repo, res, rep):
    rules, notes = program(res)
    rep.unknown += [f"{res.name}: {n}" for n in notes]
    where = f"solver/{res.name}.py"
    shown = set()
    for r in rules:
        if r.tree is not None and r.tree.op == "#show" and len(r.tree.a) > 1 and all(isinstance(p, str) for p in r.tree.a[0]):
            shown.add("".join(r.tree.a[0]))
    excl = exclusive(rules)
    symbols = {n for n in shown if SYMBOL.fullmatch(n)}
    if symbols:
        complements(rules, excl)
    kinds = (("symbol", symbols), ("surface", shown & set(SHADES)), ("edge", shown & set(EDGES)), ("line", shown & set(LINES)))
    final = res.state.pc if res.state is not None else ()
    for name, T_ in kinds:
        if not T_:
            continue
        rep.count("layers that the answer uses")
        mine = [r for r in rules if r.tree is not None and any(coll_name(res.loops[l].source) == name and res.loops[l].kind in ("items", "keys", "elems", "values") for l in r.loops)]
        refusals = [e for e in res.events if e.kind == "raise" and any(coll_name(res.loops[l].source) == name for l in e.loops)]
        if not mine and not refusals:
            if reads_otherwise(res, rules, name):
                rep.unknown.append(f"{res.name}: {name} marks are read outside a loop over them")
                continue
            rep.add("mark-ignored", where, f"{name} marks, shown as {', '.join(sorted(T_))}", f"the answer is drawn as {name} marks, but the marks already drawn by the user are not read", None)
            continue
        hashi = res.name == "hashi"
        for case, positive, wanted in cases(name, T_, hashi):
            rep.count("mark cases")
            accept, bad = [], []
            forb = {}
            for r in mine:
                pol = polarity(r.tree, case, name, wanted, hashi)
                pc = generalise(r.pc, name, case)
                if False in pc or infeasible(pc + case.assume, typ):
                    continue
                g = f_and(list(pc))
                rep.count("templates judged")
                if pol == "unclear":
                    accept.append(g)
                    rep.count("templates of another form (trusted)")
                elif pol == "misplaced":
                    bad.append((r, "wrong-place", "the rule for a mark constrains another place than the one it was drawn at"))
                elif pol is None:
                    # shading with a second tone: the other shading atom, or one excluded by the choice
                    alt = second(r.tree, case, name, wanted, positive, excl)
                    if alt == "misplaced":
                        bad.append((r, "wrong-place", "the rule for a mark constrains another place than the one it was drawn at"))
                    elif alt:
                        accept.append(g)
                elif positive:
                    if pol[0] == "requires":
                        accept.append(g)
                    else:
                        bad.append((r, "wrong-polarity", f"a {case.label} is forbidden in the answer instead of required"))
                else:
                    if pol[0] == "forbids":
                        for n in pol[1]:
                            forb.setdefault(n, []).append(g)
                    else:
                        bad.append((r, "wrong-polarity", f"a {case.label} is required in the answer instead of forbidden"))
            for r, rule, msg in bad:
                rep.add(rule, where, f"{case.label}: {stable(r)}", msg, r.loc)
            refused = [f_and([case.formula(f) for f in e.pc]) for e in refusals]
            todo = [accept]
            if not positive and name != "surface" or not positive and wanted:
                todo = [accept + forb.get(n, []) for n in sorted(wanted)]
            for guards in todo:
                fs = tuple(case.formula(f) for f in final) + case.assume + tuple(f_not(g) for g in guards + refused)
                if False in fs:
                    continue
                if infeasible(fs, typ) is False:
                    rep.add("mark-ignored", where, case.label,
                            f"on some path no rule {'requires' if positive else 'forbids'} {'/'.join(sorted(wanted))} at the place of a {case.label}, and the puzzle is not refused",
                            mine[0].loc if mine else None)
                    break
    existence(res, rules, rep, where)


def second(tree, case, name, wanted, positive, excl):
    if name == "symbol":
        sg = single(tree)
        names = [(x, text_of(x.a[1], case)) for x, _ in iter_lits(tree)]
        if not any(any(about_args(x, case, name)) for x, _ in names):
            return False
        if any(n is None or SYMBOL.fullmatch(n) for _, n in names):  # the other of two symbols
            if sg is None or len(sg[1]) != 1 or names[0][0].a[0] % 2 != (sg[0] == "fact") or not any(w in excl.get(names[0][1], ()) for w in wanted):
                return False
            return True if place(names[0][0], case, name) else "misplaced" if about(names[0][0], case, name) else False
        return True  # said in other terms
    sg = single(tree)
    if sg is None or sg[0] != "fact" or not place(sg[1][0], case, name):
        return False
    x = sg[1][0]
    n = text_of(x.a[1], case)
    if n is None or x.a[0] % 2:
        return False
    if positive:
        return name == "surface" and n in SHADES
    return any(w in excl.get(n, ()) for w in wanted) and all(w in excl.get(n, ()) for w in wanted)


def reads_otherwise(res, rules, name):
    for r in rules:
        for f in r.pc:
            for _, s, _ in f_lits(f):
                if any(coll_name(x) == name for x in walk(s)):
                    return True
    return False


def existence(res, rules, rep, where):
    """in / get-is-None tests on borders and lines that never look at the value."""
    refused = set()
    for e in res.events:
        if e.kind == "raise":
            for l in e.loops:
                n = coll_name(res.loops[l].source)
                if n in ("edge", "line"):
                    own = [f for f in e.pc if any(x.op in ("key", "val") and x.args[0] == l for _, s, _ in f_lits(f) for x in walk(s) if isinstance(x, Sym))]
                    if len(own) == 1 and own[0] == ("lit", Sym("eq", Sym("val", l, coll(n)), Const(True)), False):
                        refused.add(n)
    for r in rules:
        lits = [(s, p) for f in r.pc for _, s, p in f_lits(f)]
        for s, p in lits:
            n = k = None
            if s.op == "in" and coll_name(s.args[1]) in ("edge", "line"):
                n, k = coll_name(s.args[1]), s.args[0]
            elif s.op == "eq" and s.args[1] == Const(None) and isinstance(s.args[0], Sym) and s.args[0].op == "get" and coll_name(s.args[0].args[0]) in ("edge", "line"):
                n, k = coll_name(s.args[0].args[0]), s.args[0].args[1]
            if n is None:
                continue
            rep.count("presence tests on borders and lines")
            if n in refused:
                continue
            if any(isinstance(x, Sym) and x.op in ("lookup", "get") and x.args[1] == k and s2 is not s for s2, _ in lits for x in walk(s2)):
                continue
            rep.add("crossed-out-counts-as-drawn", where, f"{n} presence test guarding {stable(r)}",
                    f"the test only asks whether the {n} has an entry; a crossed-out {n} has one too (with the value False)", r.loc)


def functions(repo, report):
    """Parameters that receive puzzle.edge / puzzle.line: presence tests inside the shared helpers."""
    params = {}
    for mod in repo.modules.values():
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Attribute) and a.attr in ("edge", "line") and fn:
                    params.setdefault(fn, set()).add(i)
            for kw in n.keywords:
                if isinstance(kw.value, ast.Attribute) and kw.value.attr in ("edge", "line") and fn and kw.arg:
                    params.setdefault(fn, set()).add(kw.arg)
    for mod in repo.modules.values():
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.FunctionDef) or n.name not in params:
                continue
            names = [a.arg for a in n.args.args]
            mine = {names[x] if isinstance(x, int) and x < len(names) else x for x in params[n.name]} & set(names)
            if not mine:
                continue
            report.count("helpers that read borders")
            for x in ast.walk(n):
                if isinstance(x, ast.Compare):
                    k = ast.unparse(x.left.args[0] if isinstance(x.left, ast.Call) and getattr(x.left.func, "attr", "") == "get" and x.left.args else x.left)
                    if any(isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id in mine and ast.unparse(y.slice) == k
                           or isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "get" and isinstance(y.func.value, ast.Name) and y.func.value.id in mine
                           and y is not x.left and y.args and ast.unparse(y.args[0]) == k for y in ast.walk(n)):
                        continue  # the value is looked at as well
                    for op, c in zip(x.ops, x.comparators):
                        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(c, ast.Name) and c.id in mine:
                            report.add("crossed-out-counts-as-drawn", f"{mod.rel} {n.name}", ast.unparse(x), "a crossed-out border also has an entry (with the value False)", (mod.rel, x.lineno))
                        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(c, ast.Constant) and c.value is None and isinstance(x.left, ast.Call) \
                                and isinstance(x.left.func, ast.Attribute) and x.left.func.attr == "get" and isinstance(x.left.func.value, ast.Name) and x.left.func.value.id in mine:
                            report.add("crossed-out-counts-as-drawn", f"{mod.rel} {n.name}", ast.unparse(x), "a crossed-out border also has an entry (with the value False)", (mod.rel, x.lineno))


def check(repo, report, tier):
    functions(repo, report)
    per_solver(repo, solver, report)
