"""C05: no board content or setting makes the generator fail with an internal error."""
from ..domain import BoolF, Const, EnumV, Obj, Phi, Str, Sym, Tup, f_lits, walk
from ..facts import infeasible, is_const
from ..framework import per_solver
from ..state import facts
from ..types_ import coll_name, typ
from .c06 import Taint

EXPLANATION = (
    "Every solver is interpreted abstractly on all paths, with clue values of every type the decoder can deliver. At each operation that can fail "
    "with an internal error (missing key, index, division, operation or method unknown to a type, comparison between types, unbound name, wrong "
    "number of arguments, raise of another class than a refusal) the analysis checks that the path's conditions exclude the failing values. "
    "Reported are failures reachable with values that come from the request."
)
RULES = ["type-error", "missing-key", "index", "zero-division", "none", "unbound", "wrong-arguments", "wrong-exception", "not-iterable", "unexplained-refusal"]
REFUSAL = {"ValueError", "TimeoutError"}
BUILTIN_ITER = {"int", "none", "bool", "Direction", "Color", "float"}
NUM = {"int", "bool", "float"}


def user(v):
    """The value comes from the request (clue, position of a clue, parameter, board size)."""
    for x in walk(v):
        if isinstance(x, Sym) and (x.op == "param" or coll_name(x) or x.op == "attr" and x.args[1] in ("row", "col", "margin")):
            return True
    return False


def clue_coordinate(v):
    """A row or column of a clue position (which may lie on the board's frame)."""
    for x in walk(v):
        if isinstance(x, Sym) and x.op == "item" and isinstance(x.args[0], Sym) and x.args[0].op == "key" and x.args[1] in (Const(0), Const(1)):
            return x
    return None


def mentions(F, syms):
    for s in F.lits:
        for x in walk(s):
            if x in syms:
                return True
    for o in F.ors:
        for _, s, _ in f_lits(o):
            for x in walk(s):
                if x in syms:
                    return True
    return False


class Keys:
    def __init__(self, T):
        self.T = T

    def values(self, v, F, depth=0):
        """The finitely many constants a value can be, or None."""
        if depth > 6:
            return None
        if isinstance(v, Const):
            return {v.v}
        if isinstance(v, EnumV):
            return {v}
        if isinstance(v, Tup):
            outs = [()]
            for x in v.items:
                vs = self.values(x, F, depth + 1)
                if vs is None or len(vs) * len(outs) > 200:
                    return None
                outs = [o + (y,) for o in outs for y in vs]
            return set(outs)
        if isinstance(v, Phi):
            out = set()
            for f, x in v.alts:
                if F.refutes(f):
                    continue
                r = self.values(x, self.under(F, f), depth + 1)
                if r is None:
                    return None
                out |= r
            return out
        if isinstance(v, Str):
            return self.text(v.nodes, F, depth + 1)
        if not isinstance(v, Sym):
            return None
        if v in F.eq:
            c = F.eq[v]
            return {c.v} if isinstance(c, Const) else {c}
        for o in F.ors:
            r = self.pinned(v, o, F)
            if r is not None:
                return r
        if v.op == "strv" and v.args and isinstance(v.args[0], Str):
            return self.text(v.args[0].nodes, F, depth + 1)
        if v.op == "str" and v.args:
            r = self.values(v.args[0], F, depth + 1)
            return None if r is None else {str(x) for x in r}
        if v.op == "elem" and len(v.args) > 1:
            return self.members(v.args[1], F, depth + 1)
        dom = F.domain(v)
        if dom is not None:
            return {c.v if isinstance(c, Const) else c for c in dom if c not in F.ne.get(v, ())}
        return None

    def under(self, F, f):
        return facts(tuple(F.as_formulas()) + (f,))

    def pinned(self, v, f, F):
        if f is True or f is False:
            return None
        if f[0] == "lit":
            s = f[1]
            if f[2] and s.op == "eq" and s.args[0] == v and is_const(s.args[1]):
                c = s.args[1]
                return {c.v} if isinstance(c, Const) else {c}
            return None
        if f[0] == "and":
            for g in f[1]:
                r = self.pinned(v, g, F)
                if r is not None:
                    return r
            return None
        out = set()
        for g in f[1]:
            if F.refutes(g):
                continue
            r = self.pinned(v, g, F)
            if r is None:
                return None
            out |= r
        return out

    def text(self, nodes, F, depth):
        outs = {""}
        for n in nodes:
            if n[0] == "L":
                add = {n[1]}
            elif n[0] == "H":
                vs = self.values(n[1], F, depth + 1)
                if vs is None:
                    return None
                add = {str(x) for x in vs}
            elif n[0] == "A":
                add = set()
                for f, x in n[1]:
                    if F.refutes(f):
                        continue
                    vs = self.text(x, self.under(F, f), depth + 1)
                    if vs is None:
                        return None
                    add |= vs
            elif n[0] == "G":
                vs = self.text(n[2], F, depth + 1)
                if vs is None:
                    return None
                add = vs
            else:
                return None
            outs = {o + a for o in outs for a in add}
            if len(outs) > 200:
                return None
        return outs

    def members(self, src, F, depth):
        """Constants an element of a sequence of known members can be."""
        if isinstance(src, Tup):
            outs = set()
            for x in src.items:
                r = self.values(x, F, depth)
                if r is None:
                    return None
                outs |= r
            return outs
        if isinstance(src, Sym) and src.op in ("seqparts", "seq", "dictkeys"):
            outs = set()
            parts = src.args[-1]
            if isinstance(parts, Tup):
                return self.members(parts, F, depth)

            def go(ps):
                for p in ps:
                    if p[0] == "I":
                        r = self.values(p[1], F, depth)
                        if r is None:
                            return False
                        outs.update(r)
                    elif p[0] == "A":
                        for f, q in p[1]:
                            if not go(q):
                                return False
                    else:
                        return False
                return True
            return outs if isinstance(parts, tuple) and go(parts) else None
        return None


def show(v):
    import re
    t = repr(v)
    t = re.sub(r"\d+", "", t) if len(t) > 160 else re.sub(r"(?<=[a-z])\d+", "", t)
    return t[:110]


def solver(repo, res, rep):
    T = Taint(res)
    K = Keys(T)
    where = f"solver {res.name}"
    done = {}

    def sink(kind, e, construct, msg):
        k = (kind, construct)
        if k not in done:
            done[k] = 1
            rep.add(kind, where, f"{e.fn}: {construct}", msg, e.loc)

    for e in res.events:
        if e.kind not in CHECKS:
            continue
        rep.count("operations that can fail")
        vals = [x for x in e.data if hasattr(x, "_key")] if isinstance(e.data, tuple) else []
        F0 = facts(e.pc)
        if F0.bottom:
            continue
        CHECKS[e.kind](e, F0, lambda: facts(T.enrich(e.pc, vals)), K, sink)


# ------------------------------------------------------------------ one check per kind of operation
def may_raise(e, F0, F, K, sink):
    what = e.data[0]
    if F().bottom or infeasible(e.pc, typ) is not False:
        return
    v = e.data[1] if len(e.data) > 1 else None
    if what in ("ValueError", "ValueError-unpack"):
        if v is not None and hasattr(v, "_key"):
            sink("unexplained-refusal", e, show(v), "the operation fails: the refusal does not say what is wrong with the puzzle")
        return
    if what == "TypeError-args":
        sink("wrong-arguments", e, f"argument {v}", "a call with missing or surplus arguments")
    elif what == "NameError":
        sink("unbound", e, f"name {v}", "the name is not defined")
    elif what in ("TypeError", "TypeError-len", "AttributeError"):
        sink("type-error", e, show(v), f"the value may be {'/'.join(e.data[2]) if len(e.data) > 2 else 'of another type'}, for which the operation fails")
    elif what == "ZeroDivisionError":
        sink("zero-division", e, "division by 0", "division by zero")
    elif what == "KeyError":
        sink("missing-key", e, show(v), "the key is not in the table")
    elif what == "IndexError":
        sink("index", e, show(v), "the index is outside the sequence")


def dict_key(e, F0, F, K, sink):
    table, k = e.data
    FF = F()
    if FF.bottom:
        return
    for s, pol in FF.lits.items():
        if pol and s.op == "in" and s.args[0] == k and s.args[1] == table:
            return
    if isinstance(table, Sym) and table.op == "dictkeys":
        vals = K.values(k, FF)
        known = {x.v if isinstance(x, Const) else x for x in table.args[0].items}
        if vals is not None:
            bad = {v for v in vals if v not in known}
            if bad:
                sink("missing-key", e, f"{show(k)} = {sorted(map(str, bad))[:3]}", "the table has no entry for this value")
            return
        for s, pol in FF.lits.items():
            if pol and s.op == "in" and s.args[0] == k:
                return
        if user(k) and infeasible(e.pc, typ) is False:
            sink("missing-key", e, show(k), "the key comes from the request and is not shown to be one of the table's")
        return
    if isinstance(k, Sym) and k.op in ("elem", "key", "celem"):
        return
    for s, pol in FF.lits.items():
        if s.op == "in" and s.args[0] == k:
            return
    # a table built on the way: the same key expression must have been entered, or the key be guarded
    built = [x for x in walk(table)]
    if k in built:
        return
    if isinstance(k, Tup) and all(x in built for x in k.items):
        return
    if clue_value(k) and user(k) and not guarded_key(FF, k) and infeasible(e.pc, typ) is False:
        sink("missing-key", e, show(k), "the key comes from the request and is not shown to be in the table")


def guarded_key(F, k):
    """Some condition compares the key, or what it is made of, with other values."""
    parts = {x for x in walk(k) if isinstance(x, Sym) and x.op in ("val", "lookup", "get", "param", "mcall", "strv", "str")} | {k}
    for f in F.as_formulas():
        for _, s, _ in f_lits(f):
            if s.op in ("in", "eq") and s.args[0] in parts and not s.args[1:] == (Const(None),) and not (s.op == "eq" and s.args[0] != k and isinstance(s.args[0], Sym) and s.args[0].op == "len"):
                return True
    return False


def clue_value(k):
    for x in walk(k):
        if isinstance(x, Sym) and (x.op in ("val", "lookup", "get", "param")):
            return True
    return False


def coll_key(e, F0, F, K, sink):
    c, k = e.data
    FF = F()
    if FF.bottom or FF.value(Sym("in", k, c)) is True:
        return
    if infeasible(e.pc + (("lit", Sym("in", k, c), False),), typ) is False:
        sink("missing-key", e, f"{coll_name(c) or 'table'}[{show(k)}]", "nothing shows that the board has an entry at this place")


def index(e, F0, F, K, sink):
    b, i = e.data
    if isinstance(b, Sym) and b.op == "mcall" and b.args[0] in ("split", "rsplit"):
        if i in (Const(0), Const(-1)):
            return
        src = b.args[1]
        if symbol_text(src) and i == Const(1):
            return
        FF = F()
        if FF.bottom or mentions(FF, {b, src} | {x for x in walk(src) if isinstance(x, Sym) and x.op in ("val",)}):
            return
        if user(src) and infeasible(e.pc, typ) is False:
            sink("index", e, f"{show(b)}[{show(i)}]", "the text may have fewer parts")
        return
    if isinstance(b, Sym) and b.op == "range" and isinstance(i, Const) and any(clue_coordinate(x) is not None for x in b.args):
        FF = F()
        if not FF.bottom and not mentions(FF, {b, Sym("len", b)}) and infeasible(e.pc, typ) is False:
            sink("index", e, f"{show(b)}[{show(i)}]", "the range is empty for a clue at the edge of the board")
        return
    # a sequence of known length indexed by a clue's row or column
    if not isinstance(i, Const):
        x = clue_coordinate(i)
        if x is not None and fresh_index(i, x):
            FF = F()
            if FF.bottom:
                return
            if isinstance(b, Tup) or isinstance(b, Sym) and b.op in ("seq", "seqparts", "range"):
                if not bounded(FF, x):
                    sink("index", e, f"{show(b)[:60]}[{show(i)}]", "a clue on the frame of the board has a row or column outside this sequence")
            return
        v = next((y for y in walk(i) if isinstance(y, Sym) and y.op in ("val", "lookup", "get") and coll_name(y.args[1] if y.op == "val" else y.args[0]) == "text"), None)
        if v is not None and isinstance(b, (Tup, Sym)) and (isinstance(b, Tup) or b.op in ("seq", "seqparts", "range")):
            FF = F()
            if not FF.bottom and K.values(i, FF) is None and not mentions_order(FF, v) and infeasible(e.pc, typ) is False:
                sink("index", e, f"{show(b)[:60]}[{show(i)}]", "the clue's number is used as an index without being bounded")


def fresh_index(i, x):
    """The index is the coordinate itself plus a constant."""
    return i == x or isinstance(i, Sym) and i.op == "lin"


def bounded(F, x):
    """Comparisons bound the coordinate from above and from below."""
    have = set()
    for s, pol in list(F.lits.items()):
        have |= bounds(s, pol, x)
    for o in F.ors:
        for _, s, pol in f_lits(o):
            have |= bounds(s, pol, x)
    return have == {"above", "below"}


BOTH = {"above", "below"}


def bounds(s, pol, x):
    if not any(y == x for y in walk(s)):
        return set()
    if s.op == "in" or s.op == "eq":
        return BOTH if pol else set()
    if s.op != "lt":
        return set()
    t, other = s.args[0], s.args[1]
    if t == x:
        k = 1
    elif isinstance(t, Sym) and t.op == "lin":
        k = next((c for y, c in t.args[0] if y == x), None)
        if k is None:
            return BOTH
    elif other == x:
        k = -1
    else:
        return BOTH
    return {"above"} if (k > 0) == bool(pol) else {"below"}


def mentions_order(F, v):
    for s in F.lits:
        if s.op in ("lt", "eq", "in", "len") and any(y == v for y in walk(s)):
            return True
    for o in F.ors:
        for _, s, _ in f_lits(o):
            if s.op in ("lt", "eq", "in") and any(y == v for y in walk(s)):
                return True
    return False


def symbol_text(v):
    for x in walk(v):
        if isinstance(x, Sym) and x.op in ("val", "lookup", "get") and coll_name(x.args[1] if x.op == "val" else x.args[0]) == "symbol":
            return True
    return False


def div(e, F0, F, K, sink):
    (b,) = e.data
    FF = F()
    if FF.bottom or not user(b):
        return
    if infeasible(e.pc + (("lit", Sym("eq", b, Const(0)), True),), typ) is False and not bounded_below(FF, b):
        sink("zero-division", e, show(b), "the divisor comes from the request and may be zero")


def bounded_below(F, b):
    """Some comparison keeps the divisor away from zero."""
    for s, pol in F.lits.items():
        if s.op == "lt":
            x, y = s.args[0], s.args[1] if len(s.args) > 1 else None
            if any(z == b for z in walk(s)):
                return True
        if s.op == "truthy" and pol and s.args[0] == b:
            return True
    if isinstance(b, Sym) and b.op == "idx":
        return True
    return not direct(b)


def direct(b):
    """The divisor is itself a value of the request (not computed from several)."""
    if isinstance(b, Sym) and b.op == "int":
        return direct(b.args[0])
    return isinstance(b, Sym) and b.op in ("val", "lookup", "get", "param")


def order(e, F0, F, K, sink):
    a, b = e.data
    ta, tb = F0.typeset(a), F0.typeset(b)
    if ta is None or tb is None:
        return
    if (ta <= NUM and tb <= NUM) or (ta <= {"str"} and tb <= {"str"}):
        return
    prim = NUM | {"str", "none"}
    if not (ta <= prim and tb <= prim):
        return
    FF = F()
    ta, tb = FF.typeset(a), FF.typeset(b)
    if ta is None or tb is None or FF.bottom:
        return
    for x in ta:
        for y in tb:
            if (x in NUM) != (y in NUM) or "none" in (x, y):
                if x == y == "str":
                    continue
                if infeasible(e.pc, typ) is False:
                    sink("type-error", e, f"{show(a)} <> {show(b)}", f"comparison between {x} and {y} fails")
                return


def unpack_none(e, F0, F, K, sink):
    FF = F()
    if FF.bottom:
        return
    ts = FF.typeset(e.data[0])
    if ts is None or "none" in ts:
        if infeasible(e.pc, typ) is False:
            sink("none", e, show(e.data[0]), "the value may be None, which cannot be unpacked")


def unpack_split(e, F0, F, K, sink):
    """`a, b = text.split(sep)`: the text must be known to have that many parts."""
    v, n = e.data
    src = v.args[1]
    sep = v.args[2] if len(v.args) > 2 else None
    if not user(src) or symbol_text(src):
        return
    FF = F()
    if FF.bottom or infeasible(e.pc, typ) is not False:
        return
    if any(s.op in ("eq", "len", "lt") and any(x == v or x.op == "mcall" and x.args[:2] == ("count", src) for x in walk(s) if isinstance(x, Sym)) for s in FF.lits):
        return
    if K.values(src, FF) is not None:
        return
    limit = v.args[3] if len(v.args) > 3 else None
    enough = n == 1 or n == 2 and any(pol and s.op == "in" and s.args[0] == sep and s.args[1] == src for s, pol in FF.lits.items())
    capped = isinstance(limit, Const) and limit.v == n - 1
    if not (enough and capped):
        sink("unexplained-refusal", e, show(v), f"the text may have {'more' if enough else 'fewer'} parts: the refusal does not say what is wrong with the puzzle")


def unpack_any(e, F0, F, K, sink):
    v, n = e.data
    FF = F()
    ts = FF.typeset(v)
    if FF.bottom or ts is None:
        return
    bad = ts & BUILTIN_ITER
    if bad and user(v) and infeasible(e.pc, typ) is False:
        sink("not-iterable", e, show(v), f"the value may be {'/'.join(sorted(bad))}, which cannot be unpacked")


def for_(e, F0, F, K, sink):
    (v,) = e.data
    if not isinstance(v, Sym):
        return
    FF = F()
    ts = FF.typeset(v)
    if FF.bottom or ts is None:
        return
    bad = ts & BUILTIN_ITER
    if bad and infeasible(e.pc, typ) is False:
        sink("not-iterable", e, show(v), f"the value may be {'/'.join(sorted(bad))}, which cannot be iterated")


def int_(e, F0, F, K, sink):
    (v,) = e.data
    FF = F()
    ts = FF.typeset(v)
    if FF.bottom or ts is None:
        return
    if "none" in ts and infeasible(e.pc, typ) is False:
        sink("none", e, show(v), "int() of a value that may be None")
        return
    if "str" in ts and user(v) and not symbol_text(v) and K.T.tainted(v, FF) is not None and infeasible(e.pc, typ) is False:
        sink("unexplained-refusal", e, show(v), "int() of text that may not be a number: the refusal does not say what is wrong with the puzzle")


def raise_(e, F0, F, K, sink):
    exc = e.data[0]
    if exc is None:
        return
    if exc.rsplit(".", 1)[-1] in REFUSAL:
        msg = e.data[1] if len(e.data) > 1 else None
        if isinstance(msg, Const) and not str(msg.v).strip() and infeasible(e.pc, typ) is False:
            sink("unexplained-refusal", e, exc, "the puzzle is refused without saying what is wrong with it")
        return
    if infeasible(e.pc, typ) is False:
        sink("wrong-exception", e, exc, "the failure is not reported as a refusal")


def unbound(e, F0, F, K, sink):
    name, f = e.data
    if f is False:
        return
    fs = e.pc if f is True else e.pc + (f,)
    # a loop that did not run or did not hit is not decided here
    for g in ([] if f is True else [f]):
        for _, s, _ in f_lits(g):
            for x in walk(s):
                if isinstance(x, Sym) and x.op in ("nonempty", "loop-returned", "lv", "lout", "undef"):
                    return
    if infeasible(fs, typ) is False:
        sink("unbound", e, f"variable {name}", "the variable is not assigned on this path")


def str_any(e, F0, F, K, sink):
    return


def method_none(e, F0, F, K, sink):
    return


CHECKS = {
    "may-raise": may_raise, "dict-key": dict_key, "coll-key": coll_key, "index": index, "div": div, "order": order,
    "unpack-none": unpack_none, "unpack": unpack_split, "unpack-any": unpack_any, "for": for_, "int": int_, "raise": raise_, "unbound": unbound,
}


def check(repo, report, tier):
    per_solver(repo, solver, report)
