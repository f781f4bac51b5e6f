"""C08: everything a solver decides is shown, and every shown atom is drawn correctly."""
import ast
import re

from ..codec import KINDS, Run, anchor, canon, compare, plus, ref, show, special_names, template
from ..domain import ClassV, Const, EnumV, Str, Sym, f_and, f_not
from ..facts import infeasible
from ..framework import per_solver
from ..js import Js
from ..loader import AnalysisBroken
from ..prog import iter_lits, program
from ..solve import Result
from ..state import Content, PathDead, Unsupported
from ..types_ import coll_name, typ
from .c14 import C, CENTER, NUM, R, pt, writings
from .c15 import check_cleared

EXPLANATION = (
    "For every puzzle type, the rule templates it can emit are turned into a graph of predicates: what is shown, what is chosen, what is derived from what. "
    "A choice with a drawable form must be shown or determine a shown predicate through plain rules; an auxiliary choice must be tied from both sides by "
    "constraints or the engine must be told to project on shown atoms; related halves (edges, line ends) must be shown together. The answer decoder is then "
    "interpreted abstractly, with the refinement of the puzzle type, on one atom of each shown form at an unknown cell of a board of unknown size, and the "
    "element it produces and the entry the encoder writes for it are compared with the element the atom names."
)
RULES = ["nothing-shown", "decided-not-shown", "half-shown", "shown-sometimes", "choice-idle", "answers-repeated", "not-decodable", "decoded-wrong", "not-drawn", "refined-wrong", "not-cleared"]

DRAWABLE = re.compile(r"(edge_(top|left|diag_up|diag_down)|gray|black|[A-Za-z]\w*?__\d+)$")
DRAWABLE3 = re.compile(r"(grid_(direction|in|out)|number\w*|content|triangle)$")


def drawable(name, arity):
    return bool((arity in (2, None) and DRAWABLE.match(name)) or (arity in (3, 4, None) and DRAWABLE3.match(name)))


def nm(parts):
    return "".join(p if isinstance(p, str) else "{}" for p in parts)


def ar(l):
    return len(l.a[2])


class Graph:
    def __init__(self, res):
        self.shows, self.choices, self.heads = [], {}, {}
        self.plain, self.dep, self.pol, self.sib = {}, {}, {}, {}
        self.show_all = False
        self.errors = 0
        rules, self.notes = program(res)
        for r in rules:
            t = r.tree
            if t is None:
                self.errors += 1
                continue
            if t.op == "#show":
                if len(t.a) < 2:
                    self.show_all = True
                else:
                    self.shows.append((nm(t.a[0]), int(t.a[1].a[0]) if t.a[1].op == "num" else None, r))
                continue
            if t.op != "rule":
                continue
            H, B, choice, neg_heads = [], [], [], []
            for l, role in iter_lits(t):
                if l.op != "lit":
                    continue
                n = nm(l.a[1])
                if role == "head":
                    (neg_heads if l.a[0] % 2 else H).append((n, ar(l)))
                elif role == "choice":
                    choice.append((n, ar(l)))
                else:
                    B.append((n, l.a[0] % 2))
            if len(H) > 1:
                choice, H = H, []
            for n, k in choice:
                self.choices.setdefault(n, []).append((k, r))
            for n, k in H:
                self.heads.setdefault(n, []).append((k, r))
            bodies = {n for n, _ in B}
            for n, _ in H:
                for b in bodies:
                    self.plain.setdefault(b, set()).add(n)
            for n, _ in choice + H:
                for b in bodies:
                    self.dep.setdefault(b, set()).add(n)
            if len({n for n, _ in choice}) > 1:
                for n, _ in choice:
                    self.sib.setdefault(n, set()).update(m for m, _ in choice if m != n)
            if not H:
                for n, k in B:
                    self.pol.setdefault(n, set()).add(k)
                for n, _ in neg_heads:
                    self.pol.setdefault(n, set()).add(0)

    def reach(self, c, edges):
        seen, todo = {c}, [c]
        while todo:
            x = todo.pop()
            for y in edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen


def guard(res, r, fin):
    """What must hold, beyond what holds for every answered puzzle, for a show directive to be there; None in it: some element must exist."""
    out = [f for f in r.pc if f not in fin]
    for i in r.loops:
        loop = res.loops[i]
        if getattr(loop, "kind", None) in ("items", "keys", "values", "elems") and coll_name(loop.source):
            out.append(None)
    return tuple(out)


def family(n):
    """Predicates drawn alike: the symbols of one sort, the numbers."""
    m = re.match(r"([A-Za-z]\w*?__)\d+$|(number)(x?)$", n)
    return m and (m.group(1) or m.group(2))


PAIRS = (("edge_top", "edge_left"), ("edge_diag_up", "edge_diag_down"), ("grid_in", "grid_out"))


def solver_rules(projects):
    def judge(repo, res, rep):
        g = Graph(res)
        where = res.name
        if g.notes or g.errors:
            rep.unknown.append(f"{where}: part of the program is not understood")
            return
        sh = {n for n, _, _ in g.shows}
        rep.count("shown predicates", len(g.shows))
        rep.count("chosen predicates", len(g.choices))
        loc = (repo.modules[res.mod].rel, res.cls.lineno)
        if not g.shows:
            rep.add("nothing-shown", where, "#show", "the program has no show directive, so every auxiliary atom is taken for a part of the answer", loc)
            return
        vague = any("{}" in n for n in sh)
        for c, uses in sorted(g.choices.items()):
            l = uses[0][1].loc
            if c in sh or vague:
                continue
            if any(drawable(c, k) for k, _ in uses) and not g.reach(c, g.plain) & sh:
                rep.add("decided-not-shown", where, c, f"the program decides {c}, which is a part of the drawing, but neither shows it nor derives anything shown from it", l)
                continue
            if g.reach(c, g.dep) & sh or any(g.reach(x, g.dep) & sh for x in g.sib.get(c, ())):
                continue
            pol = g.pol.get(c, set())
            if c not in g.dep and not pol:
                rep.add("choice-idle", where, c, f"the choice of {c} influences nothing in the program", l)
            elif len(pol) < 2 and not projects:
                rep.add("answers-repeated", where, c, f"what is shown does not determine the choice of {c}, and the engine is not told to project on shown atoms, so one drawing is listed as several answers", l)
        for pair in PAIRS:
            for a, b in (pair, pair[::-1]):
                if a in sh and b not in sh and (b in g.choices or b in g.heads):
                    rep.add("half-shown", where, b, f"{a} is shown but {b}, which the program also determines, is not", g.shows[0][2].loc)
        for n, uses in [*g.choices.items(), *g.heads.items()]:
            fam = [m for m, _, _ in g.shows if m != n and family(m) == family(n)]
            if n not in sh and not vague and family(n) and any(drawable(n, k) for k, _ in uses) and fam:
                rep.add("half-shown", where, n, f"{fam[0]} is shown but {n}, which the program also determines, is not", g.shows[0][2].loc)
        fin = set(res.state.pc)
        for n in sorted(sh):
            guards = [guard(res, r, fin) for m, _, r in g.shows if m == n]
            rep.count("show conditions")
            if () in guards:
                continue
            never = tuple(f_not(f_and([f for f in x if f is not None])) if None not in x else True for x in guards)
            for k, r in g.choices.get(n, []) + g.heads.get(n, []):
                own = tuple(f for f in r.pc if f not in fin)
                if set(r.loops) & {i for m, _, x in g.shows if m == n for i in x.loops}:
                    continue
                if infeasible(tuple(f for f in never if f is not True) + own, typ) is False:
                    when = " or ".join(r.loc and f"line {r.loc[1]}" or "?" for m, _, r in g.shows if m == n)
                    rep.add("shown-sometimes", where, n, f"{n} is shown only under a condition ({when}) that need not hold when the program determines it", g.shows[0][2].loc)
                    break
        for n, k, r in g.shows:
            rep.data.append((where, n, k))
    return judge


def project_everywhere(repo):
    """Do both back ends ask for one model per drawing? None when that is not recognised."""
    out = []
    for m in repo.modules.values():
        if m.name != "noqx.clingo":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "project" for t in n.targets):
                out.append(isinstance(n.value, ast.Constant) and n.value.value in ("show", "auto"))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "project" in n.value and "=" not in n.value[:1]:
                out.append(None)
    server = False if not out else True if True in out else None if None in out else False
    js = Js(repo.root, "penpa-edit/app.js")
    browser = bool(re.search(r"--project(=(show|auto))?[\s\"'`]", js.src))
    if not browser and "project" in js.src:
        browser = None
    if server is False or browser is False:
        return False
    return True if server and browser else None


# ------------------------------------------------------------------ the decoder
def expected(name, pred, arity):
    """[(arguments after the position, kind, element, value)] of a shown predicate, None when the form is not known to the editor."""
    m = re.match(r"edge_(top|left|diag_up|diag_down)$", pred)
    if m and arity == 2:
        return [((), "edge", pt(R, C, EnumV("Direction", m.group(1).upper())), Const(True))]
    if re.match(r"grid_(direction|in|out)$", pred):
        if name == "hashi" and arity == 4:
            return [((f'"{d}"', str(n)), "line", pt(R, C, CENTER, f"{d}_{n}"), Const(True)) for d in "lrud" for n in (1, 2)]
        if name != "hashi" and arity == 3:
            return [((f'"{d}"',), "line", pt(R, C, CENTER, d), Const(True)) for d in "lrud"]
        return None
    if re.match(r"number\w*$", pred) and arity == 3:
        return [((NUM,), "text", pt(R, C), NUM), (("0",), "text", pt(R, C), Const(0)), (("12",), "text", pt(R, C), Const(12))]
    if pred == "content" and arity == 3:
        return [((f'"{x}"',), "text", pt(R, C), Const(x)) for x in ("-", "|", "A")]
    if pred == "triangle" and arity == 3:
        return [((f'"{d}"',), "symbol", pt(R, C), Const(f"tri__{n}")) for d, n in (("ul", 1), ("ur", 4), ("dl", 2), ("dr", 3))]
    if pred in ("gray", "black") and arity == 2:
        return [((), "surface", pt(R, C), EnumV("Color", pred.upper()))]
    if arity == 2 and re.match(r"[A-Za-z]\w*?__\d+$", pred):
        return [((), "symbol", pt(R, C), Const(pred))]
    return None


SECTION = {"surface": "surface", "text": "number", "symbol": "symbol", "edge": "edge", "line": "line"}
COLLS = ("surface", "text", "symbol", "edge", "line")


def atom(pred, args, r=R, c=C):
    parts = [pred + "(", r, ",", c]
    for a in args:
        parts += [",", a]
    return template(*parts, ")")


def stored(run, p, model):
    s = run.store(p, model)
    out = {}
    for n in COLLS:
        c = run.coll(s, n)
        if c is None:
            return s, None
        out[n] = {k: canon(v) if isinstance(v, (Str, Sym)) else v for k, v in c}
    return s, out


def store_anchor(repo):
    m = repo.modules.get("noqx.manager")
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, ast.FunctionDef) and n.name == "store_solution":
            return (m.rel, n.lineno), n.name
    raise AnalysisBroken("noqx.manager.store_solution not found")


def check_decoder(repo, rep, shown):
    loc, fn = store_anchor(repo)
    todo = {}
    special = set(special_names(repo))
    for solver, pred, arity in shown:
        name = solver if solver in special else "generic"
        todo.setdefault((name, pred, arity), solver)
    for pred in ("edge_top", "edge_left", "edge_diag_up", "edge_diag_down", "gray", "black", "circle_M__1", "ox_E__2"):
        todo.setdefault(("generic", pred, 2), "")
    for pred in ("grid_direction", "number", "content", "triangle"):
        todo.setdefault(("generic", pred, 3), "")
    todo.setdefault(("hashi", "grid_direction", 4), "")
    for (name, pred, arity), solver in sorted(todo.items(), key=repr):
        want = expected(name, pred, arity)
        label = f"{pred}/{arity}" + (f" of {name}" if name != "generic" else "")
        if want is None:
            if "{}" in pred or arity is None:
                rep.unknown.append(f"{label} shown by {solver}: the name depends on the puzzle")
                continue
            rep.add("not-decodable", solver or name, f"{pred}/{arity}", f"{pred}/{arity} is shown, but it is none of the forms that an answer can be drawn from (shading, edge, line, symbol, number, letter)", loc)
            continue
        for args, kind, elem, value in want:
            one(repo, rep, name, label, pred, args, kind, elem, value, loc, fn)
    # several atoms: each is drawn, whatever the others are
    run = Run(repo)
    p = run.prepare()
    m = template(*join(atom("gray", ()), atom("number", (NUM,), R, plus(C, 1)), atom("edge_top", (), plus(R, 1), C), atom("grid_direction", ('"r"',)), atom("circle_M__1", ())))
    try:
        _, got = stored(run, p, m)
    except PathDead:
        got = {}
    want = {"surface": {pt(R, C): EnumV("Color", "GRAY")}, "text": {pt(R, plus(C, 1)): NUM}, "symbol": {pt(R, C): Const("circle_M__1")}, "edge": {pt(plus(R, 1), C, EnumV("Direction", "TOP")): Const(True)},
            "line": {pt(R, C, CENTER, "r"): Const(True)}}
    if got is None:
        rep.unknown.append("decoding five atoms: not fully known")
    else:
        rep.count("atoms decoded", 5)
        for n in COLLS:
            if compare(got.get(n, {}), want[n]) is False:
                rep.add("decoded-wrong", fn, f"{n} of several atoms", f"five atoms of different kinds are decoded to {n} {show(got.get(n))} instead of {show(want[n])}", loc)


def join(*atoms):
    out = []
    for a in atoms:
        out += [a, " "]
    return out[:-1]


def one(repo, rep, name, label, pred, args, kind, elem, value, loc, fn):
    run = Run(repo, name)
    try:
        p = run.prepare()
        s, got = stored(run, p, atom(pred, args))
    except PathDead:
        rep.add("not-decodable", fn, label, f"the atom {pred}({', '.join(['r', 'c', *map(show, args)])}) makes the answer decoder fail", loc)
        return
    except Unsupported as e:
        rep.unknown.append(f"decoding {label}: {e}")
        return
    if got is None:
        rep.unknown.append(f"decoding {label}: not fully known")
        return
    rep.count("atoms decoded")
    want = {n: ({elem: value} if n == kind else {}) for n in COLLS}
    for n in COLLS:
        v = compare(got[n], want[n])
        if v is False:
            rep.add("decoded-wrong", fn, f"{label} {' '.join(map(show, args))}".strip(), f"the atom {pred}({', '.join(['r', 'c', *map(show, args)])}) is decoded to {n} {show(got[n])} instead of {show(want[n])}", loc)
            return
        if v is None:
            rep.unknown.append(f"decoding {label}: {show(got[n])}")
    try:
        run.encode(s)
    except PathDead:
        rep.add("not-drawn", fn, label, f"an answer with the atom {pred} cannot be written", loc)
        return
    except Unsupported as e:
        rep.unknown.append(f"writing {label}: {e}")
        return
    out = run.written()
    if out is None:
        rep.unknown.append(f"writing {label}: not fully known")
        return
    sec = KINDS[SECTION[kind]]
    others = [x for x, c in out.items() if x not in ("zR", "zU", "z8") and isinstance(c, (dict, list)) and c and x != sec]
    if not isinstance(out.get(sec), dict):
        rep.unknown.append(f"writing {label}: {show(out.get(sec))}")
    elif len(out[sec]) != 1 or others:
        rep.add("not-drawn", fn, f"{label} {' '.join(map(show, args))}".strip(), f"an answer with the atom {pred} is written as {show({k: v for k, v in out.items() if v and k not in ('zR', 'zU', 'z8')})}", loc)


# ------------------------------------------------------------------ refinements
def check_beside(repo, rep):
    """An answer element is drawn wherever the puzzle has nothing of its own kind, whatever else is given there or next to it."""
    cell = template(ref(R, C))
    beside = {"surface": (cell, 4), "number": (cell, ["5", 1, "1"]), "symbol": (cell, [2, "circle_L", 1]), "edge": (template(ref(plus(R, -1), plus(C, -1), 1), ",", ref(plus(R, -1), C, 1)), 2),
              "line": (template(ref(R, C), ",", ref(R, plus(C, 1))), 3)}
    next_ = {"surface": (template(ref(R, plus(C, 1))), 4), "number": (template(ref(R, plus(C, 1))), ["5", 1, "1"]), "symbol": (template(ref(R, plus(C, 1))), [2, "circle_L", 1]),
             "edge": (template(ref(R, plus(C, 1), 1), ",", ref(R, plus(C, 2), 1)), 2), "line": (template(ref(R, plus(C, 2), 3)), 98)}
    names = ["generic", *special_names(repo)]
    for kind, label, name, key, value, section, want_key, _ in writings():
        given = [(s, *beside[s]) for s in beside if s != section] + [(section, *next_[section])]
        for s, k, v in given:
            drawn(repo, rep, kind, f"{label} where the puzzle has a {'neighboring ' if s == section else ''}{s}", name, key, value, section, want_key, {s: {k: v}})
    for name in names:  # given marks that are kept apart from the answer's symbols on the same cell
        for code in sorted({n.value for m in repo.modules.values() if m.name.startswith("noqx.puzzle") or m.name.endswith("." + name) for n in ast.walk(m.tree)
                            if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Za-z]\w*?__\d+", n.value)}):
            shape, style = code.split("__")
            put = {"symbol": {cell: [int(style), shape, 1]}}
            r = Run(repo, name, put)
            try:
                marks = r.coll(r.prepare(), "symbol") or ()
            except PathDead:
                continue
            if marks and all(k != pt(R, C) for k, _ in marks):
                drawn(repo, rep, "symbol", f"circle on a mark {code} of {name}", name, pt(R, C), Const("circle_M__2"), "symbol", cell, put)


def drawn(repo, rep, kind, label, name, key, value, section, want_key, given):
    loc, fn = anchor(repo, kind, False)
    r = Run(repo, name, given)
    try:
        p = r.prepare()
        r.clear(p)
        r.inject(p, kind, ((key, value),))
        r.encode(p)
    except PathDead:
        rep.add("not-drawn", fn, label, f"an answer with a {label} cannot be written", loc)
        return
    except Unsupported as e:
        rep.unknown.append(f"{label}: {e}")
        return
    out = r.written()
    if out is None or not isinstance(out.get(KINDS[section]), dict):
        rep.unknown.append(f"{label}: the written layer is not fully known")
        return
    rep.count("elements drawn beside given ones")
    verdicts = [compare(x, want_key) for x in out[KINDS[section]]]
    if True not in verdicts:
        if None in verdicts:
            rep.unknown.append(f"{label}: {show(out[KINDS[section]])}")
            return
        rep.add("not-drawn", fn, label, f"a {label} is left out of the answer", loc)


def refiners(repo):
    base = repo.base_solver()
    for mod, cls in repo.solver_classes():
        own = any(isinstance(n, ast.FunctionDef) and n.name == "refine" for _, c in repo.mro(mod, cls) if isinstance(c, ast.ClassDef) and c is not base for n in c.body)
        if own:
            yield mod, cls


def declared(repo, mod, cls):
    """Declared parameters with their defaults."""
    for n in cls.body:
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and t.id == "parameters" and n.value is not None:
            try:
                return {k: v.get("default") for k, v in ast.literal_eval(n.value).items()}
            except (ValueError, AttributeError):
                return {}
    return {}


def check_refine(repo, rep, shown):
    preds = {}
    for solver, pred, arity in shown:
        preds.setdefault(solver, []).append((pred, arity))
    for mod, cls in refiners(repo):
        name = mod.split(".")[-1]
        loc, fn = (repo.modules[mod].rel, cls.lineno), f"{name}.refine"
        cv = ClassV(cls.name, mod, cls)
        param = declared(repo, mod, cls)
        rep.count("refinements")
        for pred, arity in preds.get(name, ()):
            try:
                if "{}" in pred or re.match(r"battleship", pred):
                    check_ships(repo, rep, name, cv, loc, fn)
                elif pred == "number":
                    check_letters(repo, rep, name, cv, param, loc, fn)
                else:
                    rep.unknown.append(f"{fn}: {pred}")
            except Unsupported as e:
                rep.unknown.append(f"{fn}: {e}")


SHIPS = {"": "1", "r": "3", "d": "4", "l": "5", "u": "6", "lr": "2", "du": "2"}
STEP = {"l": (0, -1), "r": (0, 1), "u": (-1, 0), "d": (1, 0)}


def check_ships(repo, rep, name, cv, loc, fn):
    """The part of a ship drawn in a cell follows from which of its neighbors belong to the ship."""
    for around, code in SHIPS.items():
        run = Run(repo, name, refine=cv)
        ship = "battleship_B"
        atoms = [atom(ship, ())] + [atom(ship, (), plus(R, STEP[d][0]), plus(C, STEP[d][1])) for d in around]
        for order in (atoms, atoms[::-1]):
            run = Run(repo, name, refine=cv)
            p = run.prepare()
            label = f"ship part with {'no neighbor' if not around else 'neighbors ' + around}"
            try:
                _, got = stored(run, p, template(*join(*order)))
            except PathDead:
                rep.add("refined-wrong", fn, label, "the refinement fails", loc)
                break
            if got is None:
                rep.unknown.append(f"{fn}: {label}")
                break
            rep.count("refined elements")
            have = got["symbol"].get(pt(R, C))
            n = sum(len(v) for v in got.values())
            if n != len(atoms) or compare(have, Const(f"{ship}__{code}")) is False:
                rep.add("refined-wrong", fn, label, f"a {label} is drawn as {show(have)} instead of {ship}__{code}" if n == len(atoms) else f"{len(atoms)} ship cells become {n} elements", loc)
                break


def numbers_given(repo, name, cv, param, clue):
    try:
        return number_facts(repo, name, cv, param, clue, False)
    except PathDead:  # boards that are not square are refused
        return number_facts(repo, name, cv, param, clue, True)


def number_facts(repo, name, cv, param, clue, square):
    """The numbers that solve() gives to a cell holding the clue: set, None when the cell's fact was not found."""
    run = Run(repo, name, {"number": {template(ref(R, C)): [clue, 1, "1"]}}, refine=cv, param=param)
    p = run.prepare()
    it, st = run.it, run.st
    if square:
        it.square = (run.attr(p, "row"), run.attr(p, "col"))
    inst = it.alloc(st, Content("inst", (), {"program": Const("")}, cv, None))
    v = it.call(it.attr(inst, "solve", st, run.node), [p], {}, st, run.node)
    if not isinstance(v, Str):
        return None
    res = Result()
    res.name, res.program, res.events, res.loops, res.notes, res.interp, res.state = name, v, it.events, it.loops, it.notes, it, st
    out = set()
    for r in program(res)[0]:
        t = r.tree
        if t is None or t.op != "rule" or t.a[1] or t.a[0].op != "lit" or t.a[0].a[0]:
            continue
        args = t.a[0].a[2]
        if nm(t.a[0].a[1]) == "number" and len(args) == 3 and [x.a[0] if x.op == "hole" else None for x in args[:2]] == [R, C] and args[2].op == "num":
            out.add(int(args[2].a[0]))
    return out


def check_letters(repo, rep, name, cv, param, loc, fn):
    """A clue's letter and the letter drawn for the number that stands for it are the same."""
    text = [v for v in param.values() if isinstance(v, str)]
    letters = text[0] if text else "NEWS"
    cases = [(x, param) for x in letters]
    if text:
        k = next(k for k, v in param.items() if isinstance(v, str))
        cases += [(x, {**param, k: "QRSTU"}) for x in "QSU"]
    for letter, prm in cases:
        try:
            ks = numbers_given(repo, name, cv, prm, letter)
        except PathDead:
            ks = None
        if not ks:
            rep.unknown.append(f"{fn}: the number that stands for {letter} was not found")
            continue
        for k in sorted(ks):
            run = Run(repo, name, refine=cv, param=prm)
            p = run.prepare()
            try:
                _, got = stored(run, p, atom("number", (str(k),)))
            except PathDead:
                rep.add("refined-wrong", fn, letter, f"the refinement fails on the number {k}, which stands for {letter}", loc)
                continue
            if got is None:
                rep.unknown.append(f"{fn}: {letter}")
                continue
            rep.count("refined elements")
            have = got["text"].get(pt(R, C))
            if sum(len(v) for v in got.values()) != 1 or have is None or compare(have, Const(letter)) is False:
                rep.add("refined-wrong", fn, letter, f"a cell given as {letter} gets the number {k}, which is drawn as {show(got['text'])}", loc)


def check(repo, rep, tier):
    per_solver(repo, solver_rules(project_everywhere(repo) is not False), rep)
    shown = rep.data
    for a, b, c in shown:
        rep.sample(f"{a}: {b}/{c}")
    if not shown:
        raise AnalysisBroken("no show directive was found in any program")
    for part in (check_decoder, check_refine, lambda *a: check_beside(*a[:2]), lambda *a: check_cleared(repo, rep)):
        try:
            part(repo, rep, shown)
        except (Unsupported, PathDead) as e:
            rep.unknown.append(f"{getattr(part, '__name__', '')}: {type(e).__name__} {e}")
