"""C06: user text never becomes program code."""
import ast

from ..domain import BoolF, Const, EnumV, Obj, Phi, Str, Sym, Tup, f_lits, walk
from ..facts import is_const
from ..framework import per_solver
from ..loader import AnalysisBroken
from ..prog import holes, program
from ..server import call_name
from ..state import facts
from ..types_ import coll_name

EXPLANATION = (
    "Taint analysis. In every rule template of every solver, each interpolated value is traced back to its sources; clue text, symbol names and "
    "text parameters are tainted unless, on that path, their type has been narrowed to a number, their value to one of finitely many constants, or "
    "to a digit string. The decoder's position labels (which solvers may interpolate) are shown to be built from constants and integers only, and "
    "the text handed to the engine is the generated program itself."
)
RULES = ["tainted-text", "tainted-label", "tainted-engine-text"]
NUM = frozenset(["int", "bool", "none", "Direction", "Color"])
SOURCES = {"text", "symbol", "puzzle_name", "content", "param", "params", "parts", "problem", "solution"}
DIGITS = {"isdigit", "isdecimal", "isnumeric"}


class Taint:
    def __init__(self, res):
        self.it = res.interp
        self.busy = set()

    def enrich(self, pc, vals):
        """Add what loop variables that never change are known to be."""
        extra, seen = [], set()
        todo = [s for f in pc if f not in (True, False) for _, s, _ in f_lits(f)] + list(vals)
        for s in todo:
            for x in walk(s):
                if isinstance(x, Sym) and x.op in ("elem", "key", "val", "idx") and x not in seen:
                    seen.add(x)
                    extra += [f for f in self.it.checked.get(x.args[0], ()) if f not in extra and f not in pc]
                if isinstance(x, Sym) and x.op in ("lv", "lout") and x not in seen:
                    seen.add(x)
                    rec = getattr(self.it, "lvs", {}).get(x.args[:2])
                    if rec is not None and self.invariant(x.args, *rec):
                        extra.append(("lit", Sym("eq", x, rec[0]), True))
        return tuple(pc) + tuple(extra)

    def finite(self, v, F):
        """Narrowed to constants?"""
        if v in F.eq:
            return True
        for o in F.ors:
            if all(g is not True and g is not False and self.pins(v, g) for g in o[1]):
                return True
        return False

    def pins(self, v, g):
        if g[0] == "lit":
            return g[2] and g[1].op == "eq" and g[1].args[0] == v and is_const(g[1].args[1])
        if g[0] == "and":
            return any(self.pins(v, h) for h in g[1])
        return all(self.pins(v, h) for h in g[1])

    def digits(self, v, F):
        for s, pol in F.lits.items():
            if pol and s.op == "truthy" and isinstance(s.args[0], Sym) and s.args[0].op == "mcall" and s.args[0].args[0] in DIGITS and s.args[0].args[1] == v:
                return True
            if pol and s.op == "mcall" and s.args[0] in DIGITS and s.args[1] == v:
                return True
            if pol and s.op == "eq" and s.args[1] == Const(True) and isinstance(s.args[0], Sym) and s.args[0].op == "mcall" and s.args[0].args[0] in DIGITS and s.args[0].args[1] == v:
                return True
        return False

    def tainted(self, v, F):
        """The tainted source an interpolated value carries, or None."""
        if isinstance(v, (Const, EnumV, BoolF)) or not hasattr(v, "_key"):
            return None
        if isinstance(v, Phi):
            for f, x in v.alts:
                if F.refutes(f):
                    continue
                t = self.tainted(x, facts(tuple(F.as_formulas()) + (f,)))
                if t is not None:
                    return t
            return None
        if isinstance(v, Tup):
            return self.first(v.items, F)
        if isinstance(v, Str):
            return self.nodes(v.nodes, F)
        if not isinstance(v, Sym):
            return None
        ts = F.typeset(v)
        if ts is not None and ts <= NUM:
            return None
        if self.finite(v, F) or self.digits(v, F):
            return None
        op, a = v.op, v.args
        if op in ("eq", "lt", "in", "truthy", "isinst", "len", "idx", "int", "num", "key", "leftover", "undef", "global", "lin", "bin_int", "fn_int", "cnt", "nonempty"):
            return None
        if op == "param":
            return v
        if op == "attr":
            return v if a[1] in SOURCES else self.tainted(a[0], F) if a[1] not in ("row", "col", "margin", "surface", "edge", "line", "value") else None
        if op in ("val", "lookup", "get"):
            src = a[1] if op == "val" else a[0]
            c = coll_name(src)
            if c:
                return v if c in ("text", "symbol") else None
            return self.first([x for x in a if not isinstance(x, int)][:2] if op != "val" else [src], F)
        if op in ("lv", "lout"):
            key = (a[0], a[1])
            if key in self.busy:
                return None
            rec = getattr(self.it, "lvs", {}).get(key)
            if rec is None:
                return None
            init, end, pc = rec
            t = self.tainted(init, F)
            if t is not None:
                return t
            if self.invariant(a, init, end, pc):
                return None
            self.busy.add(key)
            try:
                return self.tainted(end, facts(pc)) if end is not None and not hasattr(end, "parts") else None
            finally:
                self.busy.discard(key)
        if op == "elem":
            return self.first(a[1:], F)
        if op in ("seq", "nth", "celem"):
            for x in a:
                t = self.any(x, F)
                if t is not None:
                    return t
            return None
        for x in a:
            t = self.any(x, F)
            if t is not None:
                return t
        return None

    def invariant(self, a, init, end, pc):
        """The variable keeps its initial constant."""
        if not isinstance(init, Const) or end is None or not hasattr(end, "_key"):
            return False
        lv = [x for f in pc if f not in (True, False) for _, s, _ in f_lits(f) for x in walk(s) if isinstance(x, Sym) and x.op == "lv" and x.args[:2] == a[:2]]
        lv += [x for x in walk(end) if isinstance(x, Sym) and x.op == "lv" and x.args[:2] == a[:2]]
        for x in lv:
            F = facts(tuple(pc) + (("lit", Sym("eq", x, init), True),))
            return self.equals(end, x, init, F)
        return False

    def equals(self, end, lv, c, F):
        if end == lv or end == c:
            return True
        if isinstance(end, Phi):
            for f, x in end.alts:
                if F.refutes(f):
                    continue
                if not self.equals(x, lv, c, facts(tuple(F.as_formulas()) + (f,))):
                    return False
            return True
        return F.eq.get(end) == c

    def first(self, vs, F):
        for x in vs:
            t = self.tainted(x, F)
            if t is not None:
                return t
        return None

    def any(self, x, F):
        if hasattr(x, "_key"):
            return self.tainted(x, F)
        if isinstance(x, tuple):
            if x and x[0] == "I":
                return self.tainted(x[1], F)
            if x and x[0] == "R" and len(x) >= 3:
                return self.any(tuple(x[2]), F)
            if x and x[0] == "A" and len(x) == 2:
                for f, ps in x[1]:
                    if F.refutes(f):
                        continue
                    t = self.any(tuple(ps), facts(tuple(F.as_formulas()) + (f,)))
                    if t is not None:
                        return t
                return None
            for y in x:
                if isinstance(y, tuple) or hasattr(y, "_key"):
                    t = self.any(y, F)
                    if t is not None:
                        return t
        return None

    def nodes(self, nodes, F):
        for n in nodes:
            if n[0] == "H":
                t = self.tainted(n[1], F)
            elif n[0] == "R":
                subs = n[2] if n[2] and n[2][0] and not isinstance(n[2][0][0], str) else (n[2],)
                t = next((x for x in (self.nodes(s, F) for s in subs) if x is not None), None) or self.nodes(n[3], F)
            elif n[0] == "S":
                t = self.nodes(n[1], F) or self.nodes(n[2], F)
            elif n[0] == "A":
                t = None
                for f, x in n[1]:
                    if F.refutes(f):
                        continue
                    t = self.nodes(x, facts(tuple(F.as_formulas()) + (f,)))
                    if t is not None:
                        break
            elif n[0] == "G":
                t = self.nodes(n[2], facts(tuple(F.as_formulas()) + tuple(n[1])))
            else:
                t = None
            if t is not None:
                return t
        return None


def describe(v):
    if isinstance(v, Sym):
        if v.op == "param":
            return f"parameter {v.args[0]!r}"
        for x in walk(v):
            if coll_name(x):
                return f"{x.args[1]} clue"
        if v.op == "attr":
            return v.args[1]
    return "user text"


def solver(repo, res, rep):
    rules, _ = program(res)
    T = Taint(res)
    where = f"solver {res.name}"
    for r in rules:
        rep.count("rule templates")
        vals = [h for h, _, _ in holes(r.tree)] if r.tree is not None else None
        F = facts(T.enrich(r.pc, vals or ()))
        if vals is None:
            t = T.nodes(r.nodes, F)
            if t is not None:
                rep.add("tainted-text", where, f"{describe(t)} in {shape(r)}", f"the text of a {describe(t)} is pasted into the program", r.loc)
            continue
        for h in vals:
            rep.count("interpolations")
            t = T.tainted(h, F)
            if t is not None:
                rep.add("tainted-text", where, f"{describe(t)} in {shape(r)}", f"the text of a {describe(t)} is pasted into the program without being narrowed to a number or a fixed set of values", r.loc)
    for n, _ in [(n, 0) for n in res.program.nodes if n[0] == "H"]:
        t = T.tainted(n[1], facts(()))
        if t is not None:
            rep.add("tainted-text", where, f"{describe(t)} as program text", "user text is itself a piece of the program", n[2])


def shape(r):
    import re
    return re.sub(r"\s+", " ", "".join(n[1] if n[0] == "L" else "_" for n in r.nodes).strip())[:120]


# ---------------------------------------------------------------- decoder labels
def decoder(repo, rep):
    mod = "noqx.puzzle.penpa"
    m = repo.modules.get(mod)
    if m is None:
        raise AnalysisBroken("the decoder module is missing")
    n = 0
    for fn in ast.walk(m.tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        tainted = set()
        for _ in range(4):
            for x in ast.walk(fn):
                gens = [(x.target, x.iter)] if isinstance(x, (ast.For, ast.comprehension)) else []
                for t, it in gens:
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "values"):
                        names = [y.id for y in ast.walk(t) if isinstance(y, ast.Name)]
                        keys = {t.elts[0].id} if isinstance(t, ast.Tuple) and it.func.attr == "items" and isinstance(t.elts[0], ast.Name) else set()
                        tainted |= set(names) - keys
                        tainted |= {k for k in keys}
                    elif isinstance(it, ast.Call) and call_name(it) == "enumerate" and uses(it, tainted) and isinstance(t, ast.Tuple):
                        tainted |= {y.id for y in ast.walk(t.elts[1]) if isinstance(y, ast.Name)}
                    elif uses(it, tainted):
                        tainted |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and label_taint(x.value, tainted):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        tainted |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and call_name(c) == "Point":
                labels = [k.value for k in c.keywords if k.arg == "pos"]
                pos = list(c.args)
                star = [i for i, a in enumerate(pos) if isinstance(a, ast.Starred)]
                if star:
                    labels += pos[star[0] + 1:]
                else:
                    labels += pos[3:]
                for lb in labels:
                    n += 1
                    if label_taint(lb, tainted):
                        rep.add("tainted-label", f"{mod}.{fn.name}", ast.unparse(lb), "a board position label carries text of the request; solvers paste labels into the program", (m.rel, c.lineno))
    rep.count("position labels", n)
    if n < 5:
        raise AnalysisBroken("the decoder's position labels were not found")


NUMERIC = {"int", "len", "ord", "index_to_coord", "category_to_direction", "style_convert", "bool", "abs", "min", "max", "sum", "range", "isinstance", "divmod", "round"}


def uses(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def label_taint(e, tainted):
    """Can the expression evaluate to a string taken from the request?"""
    if isinstance(e, ast.Name):
        return e.id in tainted
    if isinstance(e, (ast.Constant, ast.Compare)):
        return False
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return False
    if isinstance(e, ast.IfExp):
        return label_taint(e.body, tainted) or label_taint(e.orelse, tainted)
    if isinstance(e, ast.Call):
        nm = call_name(e)
        if nm in NUMERIC:
            return False
        if nm == "map" and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in ("int", "len"):
            return False
        return any(label_taint(a, tainted) for a in e.args) or (isinstance(e.func, ast.Attribute) and label_taint(e.func.value, tainted))
    if isinstance(e, ast.JoinedStr):
        return any(label_taint(v.value, tainted) for v in e.values if isinstance(v, ast.FormattedValue))
    if isinstance(e, ast.BinOp):
        return label_taint(e.left, tainted) or label_taint(e.right, tainted)
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, ast.Constant) or not uses(e.slice, tainted):
            return label_taint(e.value, tainted)
        return label_taint(e.value, tainted)
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(label_taint(x, tainted) for x in e.elts)
    if isinstance(e, ast.Starred):
        return label_taint(e.value, tainted)
    if isinstance(e, ast.Attribute):
        return label_taint(e.value, tainted)
    return uses(e, tainted)


# ---------------------------------------------------------------- engine text
def engine(repo, rep):
    """What is handed to the engine comes out of the solver object."""
    for mod in ("noqx.manager", "noqx.clingo"):
        m = repo.modules.get(mod)
        if m is None:
            raise AnalysisBroken(f"{mod} is missing")
        for fn in ast.walk(m.tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} - {"self", "program"}
            taint = set()
            for _ in range(3):
                for x in ast.walk(fn):
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                        if textual(x.value, params | taint):
                            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                                if isinstance(t, ast.Name):
                                    taint.add(t.id)
            outs = []
            if fn.name == "generate_program":
                outs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Return) and x.value is not None]
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and mod == "noqx.clingo":
                    if x.func.attr == "add" and (any(k.arg == "program" for k in x.keywords) or len(x.args) >= 1) and "clingo" in ast.unparse(x.func.value).lower() or x.func.attr == "solve" and x.args:
                        outs += [k.value for k in x.keywords if k.arg == "program"] + list(x.args)
            for o in outs:
                rep.count("texts handed to the engine")
                if textual(o, params | taint):
                    rep.add("tainted-engine-text", f"{mod}.{fn.name}", ast.unparse(o)[:80], "text of the request is mixed into the program handed to the engine", (m.rel, o.lineno))
    if rep.counts.get("texts handed to the engine", 0) < 2:
        raise AnalysisBroken("the hand-over of the program to the engine was not found")


def textual(e, names):
    """Concatenation or formatting that mixes a parameter into text."""
    if isinstance(e, ast.JoinedStr):
        return any(isinstance(v, ast.FormattedValue) and uses(v.value, names) for v in e.values)
    if isinstance(e, ast.BinOp):
        return textual(e.left, names) or textual(e.right, names) or (isinstance(e.op, (ast.Add, ast.Mod)) and (plain(e.left, names) or plain(e.right, names)))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("format", "join", "replace"):
        return any(uses(a, names) for a in e.args) and call_name(e) != "solve"
    if isinstance(e, ast.Name):
        return e.id in names and e.id not in ("puzzle",) and False
    return False


def plain(e, names):
    """The bare parameter, an attribute or an item of it."""
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return isinstance(e, ast.Name) and e.id in names


def check(repo, report, tier):
    decoder(repo, report)
    engine(repo, report)
    per_solver(repo, solver, report)
