"""Expressions."""
import ast
import builtins
import operator

from .arith import add, lin_build, mul_const, to_lin
from .domain import *  # noqa
from .domain import EMPTY, FALSE, NONE, TRUE, UNDEF
from .facts import is_const
from .state import Content, PathDead, State, Unsupported, as_nodes, facts, make_phi, merge_parts, merge_states
from .types_ import coll_name, is_cell, is_cells, typ


def method(f):
    f._method = True
    return f


INTLIKE = frozenset(["int", "bool"])


def intish(v):
    t = typ(v)
    return t is not None and t <= INTLIKE


def strish(v):
    return isinstance(v, Str) or (isinstance(v, Const) and isinstance(v.v, str))


def unalts(v, cap=48):
    """[(formula, value)] alternatives of a value."""
    if isinstance(v, Phi):
        return list(v.alts)[:cap] if len(v.alts) <= cap else None
    return [(True, v)]


@method
def fact_types(self, v, st):
    return facts(st.pc).typeset(v)


@method
def prune(self, v, st):
    """Drop phi alternatives the path refutes."""
    if not isinstance(v, Phi):
        return v
    F = facts(st.pc)
    keep = []
    for f, x in v.alts:
        g = F.simplify(f)
        if g is False:
            continue
        if g is True:
            return x
        if F.refutes(g):
            continue
        keep.append((g, x))
    if not keep:
        raise PathDead()
    if len(keep) == 1:
        return keep[0][1]
    return Phi(keep)


@method
def lift(self, st, fn, *vals):
    """Apply fn over phi alternatives of the arguments."""
    vals = [self.prune(v, st) for v in vals]
    for i, v in enumerate(vals):
        if isinstance(v, Phi):
            out = []
            for f, x in v.alts:
                s2 = list(vals)
                s2[i] = x
                saved = st.pc
                st.assume(f)
                try:
                    out.append((f, self.lift(st, fn, *s2)))
                except PathDead:
                    pass
                finally:
                    st.pc = saved
            return make_phi(out)
    return fn(*vals)


# ------------------------------------------------------------------ truth
@method
def truth(self, v, st):
    """value -> formula"""
    v = self.prune(v, st)
    if isinstance(v, BoolF):
        return v.f
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, (EnumV, Func, ClassV, ModV, Builtin, Bound)):
        return True
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Phi):
        return f_or([f_and([f, self.truth(x, st)]) for f, x in v.alts])
    if isinstance(v, Str):
        return self.str_nonempty(v.nodes)
    if isinstance(v, Obj):
        c = self.content(st, v)
        if c.kind == "inst":
            return True
        return self.seq_nonempty(c, v)
    if isinstance(v, Sym):
        ts = self.fact_types(v, st)
        if ts is not None and ts <= INTLIKE and ts:
            if ts == frozenset(["bool"]) and v.op in ("eq", "lt", "in", "isinst", "truthy"):
                return lit(v)
            if ts == frozenset(["bool"]):
                return lit(Sym("eq", v, TRUE))
            return f_not(lit(Sym("eq", v, Const(0))))
        if ts is not None and ts == frozenset(["none"]):
            return False
        if ts is not None and ts and ts <= {"tuple+", "Direction", "Color", "Point"}:
            return True
        if ts is not None and ts <= {"tuple+", "Direction", "Color", "Point", "none"}:
            return f_not(lit(Sym("eq", v, NONE)))
        if ts is not None and ts == frozenset(["bool", "none"]):
            return lit(Sym("eq", v, TRUE))
        if ts is not None and ts == frozenset(["str"]):
            return f_not(lit(Sym("eq", Sym("len", v), Const(0))))
        return lit(Sym("truthy", v))
    raise Unsupported(f"truth of {v!r}")


@method
def str_nonempty(self, nodes):
    out = []
    for n in nodes:
        if n[0] == "L" and n[1]:
            return True
        if n[0] == "H":
            t = typ(n[1])
            if t is not None and t <= INTLIKE:
                return True
            out.append(f_not(lit(Sym("eq", Sym("len", n[1]), Const(0)))))
        elif n[0] == "A":
            g = f_or([f_and([f, self.str_nonempty(x)]) for f, x in n[1]])
            if g is True:
                return True
            out.append(g)
        elif n[0] == "R":
            out.append(lit(Sym("nonempty", Const(n[1]))))
        elif n[0] == "G":
            g = self.str_nonempty(n[2])
            if g is True:
                return True
            out.append(g)
        elif n[0] == "ACC":
            out.append(lit(Sym("nonempty", Const(repr(n[1])))))
    return f_or(out)


@method
def seq_nonempty(self, c, v):
    if c.known:
        return True
    out = []
    for p in c.parts:
        g = self.part_nonempty(p)
        if g is True:
            return True
        out.append(g)
    return f_or(out)


@method
def part_nonempty(self, p):
    if p[0] == "I":
        return True
    if p[0] == "A":
        return f_or([f_and([f, f_or([self.part_nonempty(q) for q in ps])]) for f, ps in p[1]])
    if p[0] == "R":
        return lit(Sym("nonempty", Const(("R",) + (p[1],))))
    return lit(Sym("nonempty", Const(repr(p[1]))))


# ------------------------------------------------------------------ comparisons
@method
def cmp_eq(self, a, b, st):
    """formula for a == b"""
    if a == b:
        return True
    if isinstance(b, Sym) and b.op == "typeof":
        a, b = b, a
    if isinstance(a, Sym) and a.op == "typeof" and isinstance(b, (Builtin, ClassV)):
        f = self.truth(self.bi_isinstance([a.args[0], b], {}, st, None), st)
        if b.name.rsplit(".", 1)[-1] == "int":  # exactly int
            f = f_and([f, f_not(self.truth(self.bi_isinstance([a.args[0], Builtin("bool")], {}, st, None), st))])
        return f
    if isinstance(a, Phi):
        return f_or([f_and([f, self.cmp_eq(x, b, st)]) for f, x in a.alts])
    if isinstance(b, Phi):
        return f_or([f_and([f, self.cmp_eq(a, x, st)]) for f, x in b.alts])
    if is_const(a) and is_const(b):
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        return f_and([self.cmp_eq(x, y, st) for x, y in zip(a.items, b.items)])
    if is_const(a):
        a, b = b, a
    if isinstance(b, Const):
        if isinstance(a, BoolF):
            if b.v is True or b.v == 1:
                return a.f
            if b.v is False or (b.v == 0 and isinstance(b.v, int)):
                return f_not(a.f)
            return False
        if isinstance(a, (EnumV, Func, ClassV, Bound)):
            return False
        if isinstance(a, Obj):
            if b.v is None:
                return False
            return lit(Sym("eq", self.freeze(a, st), b))
        if isinstance(a, Str):
            if isinstance(b.v, str):
                if b.v == "":
                    return f_not(self.str_nonempty(a.nodes))
                if len(a.nodes) == 1 and a.nodes[0][0] == "H":
                    return lit(Sym("eq", Sym("str", a.nodes[0][1]), b))
                return lit(Sym("eq", Sym("strv", a), b))
            return False
        if isinstance(a, Tup):
            return False
    if isinstance(a, Sym):
        if isinstance(b, Const) and isinstance(b.v, (bool, int)) and b.v in (0, 1) and typ(a) == frozenset(["bool"]):
            f = self.truth(a, st)
            return f if b.v else f_not(f)
        if intish(a) and (intish(b)):
            d = lin_build([(a, 1), (b, -1)], 0)
            if isinstance(d, Const):
                return d.v == 0
            # canonical: isolate a leading term
            return self.lin_eq0(d)
        if isinstance(b, Const) and isinstance(b.v, bool) and typ(a) is not None and "bool" in typ(a):
            # for a bool-or-None value, == True / is True
            if typ(a) == frozenset(["bool"]) and b.v is False:
                return f_not(lit(Sym("eq", a, TRUE)))
        if is_const(b):
            s = Sym("eq", a, b)
            v = facts(st.pc).value(s)
            return lit(s) if v is None else v
    if isinstance(a, (Sym, Tup, Str, Obj)) or isinstance(b, (Sym, Tup, Str, Obj)):
        a2, b2 = self.freeze(a, st), self.freeze(b, st)
        x, y = sorted((a2, b2), key=repr)
        return lit(Sym("eq", x, y))
    raise Unsupported(f"== on {a!r}, {b!r}")


@method
def lin_eq0(self, d):
    """formula d == 0 with d symbolic linear: canonical sign, single term against constant when possible"""
    if not (isinstance(d, Sym) and d.op == "lin"):
        return lit(Sym("eq", d, Const(0)))
    terms, c = d.args
    if len(terms) == 1:
        t, k = terms[0]
        if c % k:
            return False
        return lit(Sym("eq", t, Const(-c // k)))
    if terms[0][1] < 0:
        terms = tuple((t, -k) for t, k in terms)
        c = -c
    return lit(Sym("eq", lin_build(terms, c), Const(0)))


@method
def cmp_lt(self, a, b, st):
    """formula a < b"""
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return a.v < b.v
        except TypeError:
            raise Unsupported("< on constants")
    if isinstance(a, Tup) and isinstance(b, Tup) and a.items and b.items:
        f = self.cmp_lt(a.items[0], b.items[0], st)
        if len(a.items) > 1 and len(b.items) > 1:
            return f_or([f, f_and([self.cmp_eq(a.items[0], b.items[0], st),
                                   self.cmp_lt(Tup(a.items[1:]), Tup(b.items[1:]), st)])])
        return f
    la, lb = to_lin(a), to_lin(b)
    if la is not None and lb is not None:
        d = lin_build([(a, 1), (b, -1)], 0)  # d < 0
        if isinstance(d, Const):
            return d.v < 0
        # canonical: first term positive; d<0  or  not(d'<=0) ...
        if isinstance(d, Sym) and d.op == "lin":
            terms, c = d.args
        else:
            terms, c = ((d, 1),), 0
        if terms[0][1] > 0:
            return self.lt_atom(terms, c)
        # -x + c < 0  <=>  x - c > 0  <=> not (x - c <= 0) <=> not (x - c - 1 < 0)
        t2 = tuple((t, -k) for t, k in terms)
        return f_not(self.lt_atom(t2, -c - 1))
    return lit(Sym("lt", self.freeze(a, st), self.freeze(b, st)))


@method
def lt_atom(self, terms, c):
    if len(terms) == 1 and terms[0][1] == 1:
        t = terms[0][0]
        if isinstance(t, Sym) and t.op == "len" and -c <= 0:
            return False
        if isinstance(t, Sym) and t.op == "len" and -c == 1:
            return lit(Sym("eq", t, Const(0)))
        return lit(Sym("lt", t, Const(-c)))
    return lit(Sym("lt", lin_build(terms, 0), Const(-c)))


@method
def cmp_in(self, a, b, st, node):
    """formula a in b"""
    if isinstance(b, Const) and isinstance(b.v, str):
        if isinstance(a, Const) and isinstance(a.v, str):
            return a.v in b.v
        if isinstance(a, Const):
            return False
        return lit(Sym("in", self.freeze(a, st), b))
    if isinstance(b, Sym) and b.op == "flags":
        return f_or([self.cmp_eq(a, m, st) for m in b.args[1]])
    if isinstance(b, EnumV):
        return self.cmp_eq(a, b, st)
    if isinstance(b, Tup):
        return f_or([self.cmp_eq(a, x, st) for x in b.items])
    if isinstance(b, ClassV) and self.is_enum(b):
        return True
    if isinstance(b, Obj):
        c = self.content(st, b)
        if c.kind == "dict":
            if not c.parts:
                return f_or([self.cmp_eq(a, k, st) for k, _ in c.known or ()])
            if len(c.parts) < 8 and all(p[0] == "I" and isinstance(p[1], Tup) and len(p[1].items) == 2 for p in c.parts):
                return f_or([self.cmp_eq(a, k, st) for k, _ in c.known or ()] + [self.cmp_eq(a, p[1].items[0], st) for p in c.parts])
        elif all(p[0] == "I" for p in c.parts) and c.kind != "inst":
            return f_or([self.cmp_eq(a, p[1], st) for p in c.parts])
        return lit(Sym("in", self.freeze(a, st), self.freeze(b, st)))
    if isinstance(b, Sym):
        if b.op == "range":
            lo, hi, step = b.args
            if step == Const(1):
                return f_and([f_not(self.cmp_lt(a, lo, st)), self.cmp_lt(a, hi, st)])
        if b.op in ("keys", "coll", "keys_of") and b.args and coll_name(b.args[0]):
            b = b.args[0]
        return lit(Sym("in", self.freeze(a, st), b))
    if isinstance(b, Str):
        return lit(Sym("in", self.freeze(a, st), Sym("strv", b)))
    raise Unsupported(f"'in' on {b!r}")


@method
def freeze(self, v, st):
    """A hashable snapshot of a value (heap objects become their contents)."""
    if isinstance(v, Obj):
        c = self.content(st, v)
        if c.kind == "inst":
            return Sym("objref", Const(v.oid))
        if c.kind == "dict":
            return Sym("dictv", Tup(Tup((k, self.freeze(x, st))) for k, x in (c.known or ())), Sym("parts", c.parts))
        if all(p[0] == "I" for p in c.parts):
            return Sym("seq", c.kind, Tup(self.freeze(p[1], st) for p in c.parts))
        return Sym("seq", c.kind, c.parts)
    if isinstance(v, Tup):
        return Tup(self.freeze(x, st) for x in v.items)
    if isinstance(v, Str) and len(v.nodes) == 1 and v.nodes[0][0] == "H":
        return Sym("str", v.nodes[0][1])
    return v


def fval(f):
    return Const(f) if isinstance(f, bool) else BoolF(f)


@method
def compare(self, op, a, b, st, node):
    def one(a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return fval(self.cmp_is(a, b, st) if isinstance(op, ast.Is) else self.cmp_eq(a, b, st))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return fval(f_not(self.cmp_is(a, b, st) if isinstance(op, ast.IsNot) else self.cmp_eq(a, b, st)))
        if isinstance(op, ast.Lt):
            return fval(self.cmp_lt(a, b, st))
        if isinstance(op, ast.Gt):
            return fval(self.cmp_lt(b, a, st))
        if isinstance(op, ast.LtE):
            return fval(f_not(self.cmp_lt(b, a, st)))
        if isinstance(op, ast.GtE):
            return fval(f_not(self.cmp_lt(a, b, st)))
        if isinstance(op, ast.In):
            return fval(self.cmp_in(a, b, st, node))
        if isinstance(op, ast.NotIn):
            return fval(f_not(self.cmp_in(a, b, st, node)))
        raise Unsupported("compare op")

    if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
        self.event("order", (a, b), node, st)
    return self.lift(st, one, a, b)


@method
def cmp_is(self, a, b, st):
    if is_const(a) and not is_const(b):
        a, b = b, a
    if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, Const):
        return a.v is b.v
    if isinstance(b, Const) and isinstance(b.v, bool):
        if isinstance(a, BoolF):
            return a.f if b.v else f_not(a.f)
        ts = self.fact_types(a, st)
        if ts is not None and "bool" not in ts:
            return False
        if ts is None:
            return f_and([lit(Sym("isinst", self.freeze(a, st), "bool")), lit(Sym("eq", self.freeze(a, st), b))])
    return self.cmp_eq(a, b, st)


# ------------------------------------------------------------------ arithmetic
BINOPS = {
    ast.Add: ("+", operator.add), ast.Sub: ("-", operator.sub), ast.Mult: ("*", operator.mul),
    ast.FloorDiv: ("//", operator.floordiv), ast.Mod: ("%", operator.mod), ast.Div: ("/", operator.truediv),
    ast.Pow: ("**", operator.pow), ast.RShift: (">>", operator.rshift), ast.LShift: ("<<", operator.lshift),
    ast.BitAnd: ("&", operator.and_), ast.BitOr: ("|", operator.or_), ast.BitXor: ("^", operator.xor),
}


@method
def binop(self, opcls, a, b, st, node):
    def one(a, b):
        return self.binop1(opcls, a, b, st, node)

    if opcls in (ast.Add,) and (isinstance(a, Str) or strish(a)) and (isinstance(b, Str) or strish(b)):
        return self.concat(a, b, node)
    return self.lift(st, one, a, b)


@method
def concat(self, a, b, node):
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(a.v + b.v)
    loc = self.loc(node)
    return Str(as_nodes(a, loc) + as_nodes(b, loc))


@method
def binop1(self, opcls, a, b, st, node):
    name, fn = BINOPS[opcls]
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return Const(fn(a.v, b.v))
        except ZeroDivisionError:
            self.event("may-raise", ("ZeroDivisionError", b), node, st)
            raise PathDead()
        except TypeError:
            raise Unsupported(f"{a!r} {name} {b!r}")
    if opcls is ast.Add:
        if strish(a) or strish(b):
            return self.concat(a, b, node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Obj) or isinstance(b, Obj):
            ca, cb = self.to_parts(a, st, node), self.to_parts(b, st, node)
            return self.alloc(st, Content("list", tuple(ca) + tuple(cb)))
        if typ(a) == frozenset(["str"]) and typ(b) == frozenset(["str"]):
            return self.concat(a, b, node)
        a, b = self.coerce_ints(opcls, a, b, st, node)
        if self.isint(a, st) and self.isint(b, st):
            return self.iadd(a, b, 1)
        return Sym("bin", "+", self.freeze(a, st), self.freeze(b, st))
    if opcls in (ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod):
        a, b = self.coerce_ints(opcls, a, b, st, node)
    if opcls is ast.Sub:
        if isinstance(a, Obj) or isinstance(b, Obj):
            return Sym("bin", "-", self.freeze(a, st), self.freeze(b, st))
        if self.isint(a, st) and self.isint(b, st):
            return self.iadd(a, b, -1)
    if opcls is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if strish(x):
                if isinstance(y, BoolF) or (isinstance(y, Sym) and (self.fact_types(y, st) == frozenset(["bool"]))):
                    f = self.truth(y, st)
                    return Str((("A", ((f, as_nodes(x, self.loc(node))), (f_not(f), ()))),))
                if isinstance(y, Sym):
                    lid = self.fresh()
                    from .interp import Loop
                    self.loops[lid] = Loop(lid, "times", y, self.loc(node))
                    return Str((("R", lid, as_nodes(x, self.loc(node)), ()),))
        if isinstance(a, (Tup, Obj)) or isinstance(b, (Tup, Obj)):
            seq, k = (a, b) if isinstance(a, (Tup, Obj)) else (b, a)
            parts = self.to_parts(seq, st, node)
            if isinstance(k, Const) and isinstance(k.v, int) and all(p[0] == "I" for p in parts):
                return self.alloc(st, Content("list", tuple(parts) * k.v))
            from .interp import Loop
            lid = self.fresh()
            self.loops[lid] = Loop(lid, "times", self.freeze(k, st), self.loc(node))
            return self.alloc(st, Content("list", (("R", lid, tuple(parts)),)))
        if isinstance(a, Const) and isinstance(a.v, int) and self.isint(b, st) and not isinstance(b, BoolF):
            return mul_const(b, int(a.v))
        if isinstance(b, Const) and isinstance(b.v, int) and self.isint(a, st) and not isinstance(a, BoolF):
            return mul_const(a, int(b.v))
    if opcls in (ast.FloorDiv, ast.Mod, ast.Div):
        if isinstance(b, Const):
            if b.v == 0:
                self.event("may-raise", ("ZeroDivisionError", b), node, st)
        else:
            self.event("div", (b,), node, st)
    if isinstance(a, Sym) and a.op == "flags" or isinstance(b, Sym) and b.op == "flags":
        ms = lambda x: x.args[1] if isinstance(x, Sym) and x.op == "flags" else (x,)
        if opcls is ast.BitOr:
            return Sym("flags", "Color", tuple(ms(a)) + tuple(ms(b)))
    if isinstance(a, EnumV) and isinstance(b, EnumV) and opcls is ast.BitOr:
        return Sym("flags", a.cls, (a, b))
    if self.isint(a, st) and self.isint(b, st):
        a2 = self.b2i(a)
        b2 = self.b2i(b)
        if opcls is ast.Mult:
            x, y = sorted((a2, b2), key=repr)
            return Sym("num", "*", x, y)
        if opcls is not ast.Div:
            return Sym("num", name, a2, b2)
    return Sym("bin", name, self.freeze(a, st), self.freeze(b, st))


@method
def b2i(self, v):
    return Sym("b2i", v) if isinstance(v, BoolF) else v


@method
def coerce_ints(self, opcls, a, b, st, node):
    """A value of declared type int|str next to an integer operand is an integer, or the operation raises."""
    ta, tb = self.fact_types(a, st), self.fact_types(b, st)

    def conv(x, tx, tother):
        if not isinstance(x, Sym) or tx is None or intish(x):
            return x
        if tx <= INTLIKE:
            return Sym("int", x) if False else x
        if "int" in tx and tother is not None and tother <= INTLIKE:
            bad = tx - INTLIKE
            if opcls is ast.Mult or opcls is ast.Mod:
                return x
            self.event("may-raise", ("TypeError", x, tuple(sorted(bad))), node, st)
            st.assume(lit(Sym("isinst", x, "int")))
        return x
    a2, b2 = conv(a, ta, tb), conv(b, tb, ta)
    return a2, b2


@method
def isint(self, v, st):
    if intish(v):
        return True
    if isinstance(v, (Sym, Phi)):
        t = self.fact_types(v, st)
        return t is not None and t <= INTLIKE
    return False


@method
def iadd(self, a, b, sign):
    def i(v):
        if isinstance(v, BoolF):
            return Sym("fn_int", v)
        return v

    return lin_build([(i(a), 1), (i(b), sign)], 0)


# ------------------------------------------------------------------ eval
@method
def frame_of(self, st):
    return self.frame_id_stack[-1]


@method
def lookup(self, name, st, node):
    fid = self.frame_id_stack[-1]
    while fid is not None:
        fr = st.frames.get(fid)
        if fr is not None and name in fr:
            v = fr[name]
            if v == UNDEF:
                self.event("unbound", (name, True), node, st)
                raise PathDead()
            if isinstance(v, Phi):
                alts = [(f, x) for f, x in v.alts if x != UNDEF]
                if len(alts) != len(v.alts):
                    for f, x in v.alts:
                        if x == UNDEF:
                            self.event("unbound", (name, f), node, st)
                    v = Phi(alts) if len(alts) > 1 else alts[0][1]
            return v
        fid = fr.get("$parent") if fr is not None else None
    v = self.global_lookup(self.mod, name, node)
    if v is not None:
        return v
    if not hasattr(builtins, name) and name not in ("__file__", "__name__"):
        self.event("may-raise", ("NameError", Const(name)), node, st)
    return Builtin(name)


@method
def ev(self, node, st):
    self.steps += 1
    if self.steps > 3_000_000:
        raise Unsupported("step budget")
    m = getattr(self, "ev_" + type(node).__name__, None)
    if m is None:
        raise Unsupported(f"expression {type(node).__name__}")
    return m(node, st)


@method
def ev_Constant(self, node, st):
    if isinstance(node.value, str):
        if node.value == "":
            return Const("")
        return Str((("L", node.value, self.loc(node)),)) if getattr(self, "keep_loc", True) and self.is_program_literal(node.value) else Const(node.value)
    return Const(node.value)


@method
def is_program_literal(self, s):
    """Keep source positions on literals that look like program text."""
    return "(" in s or ":-" in s or s.rstrip().endswith(".")


@method
def ev_Name(self, node, st):
    if node.id in ("True", "False", "None"):
        return Const({"True": True, "False": False, "None": None}[node.id])
    return self.lookup(node.id, st, node)


@method
def ev_JoinedStr(self, node, st):
    nodes = ()
    loc = self.loc(node)
    for v in node.values:
        if isinstance(v, ast.Constant):
            nodes += (("L", v.value, loc),)
        else:
            x = self.ev(v.value, st)
            if v.format_spec is not None or v.conversion not in (-1, 115):
                nodes += (("H", Sym("fmt", self.freeze(x, st)), loc),)
                continue
            nodes += self.fstr_nodes(x, st, loc, v)
    if all(n[0] == "L" for n in nodes):
        s = "".join(n[1] for n in nodes)
        if not self.is_program_literal(s):
            return Const(s)
    return Str(self.fuse(nodes))


@method
def fuse(self, nodes):
    out = []
    for n in nodes:
        if n[0] == "L" and out and out[-1][0] == "L" and out[-1][2] == n[2]:
            out[-1] = ("L", out[-1][1] + n[1], n[2])
        else:
            out.append(n)
    return tuple(out)


@method
def fstr_nodes(self, x, st, loc, node):
    x = self.prune(x, st)
    if isinstance(x, Obj):
        return (("H", self.freeze(x, st), loc),)
    if isinstance(x, Phi):
        return (("A", tuple((f, self.fstr_nodes(y, st, loc, node)) for f, y in x.alts)),)
    if isinstance(x, Str):
        return x.nodes
    return as_nodes(x, loc)


@method
def ev_Tuple(self, node, st):
    return self.seq_literal(node, st, "tuple")


@method
def ev_List(self, node, st):
    return self.seq_literal(node, st, "list")


@method
def ev_Set(self, node, st):
    return self.seq_literal(node, st, "set")


@method
def seq_literal(self, node, st, kind):
    parts = []
    for e in node.elts:
        if isinstance(e, ast.Starred):
            v = self.ev(e.value, st)
            parts += list(self.star_parts(v, st, e))
        else:
            parts.append(("I", self.ev(e, st)))
    if kind == "tuple" and all(p[0] == "I" for p in parts):
        return Tup(p[1] for p in parts)
    if kind == "set":
        seen, ps = set(), []
        for p in parts:
            if p[0] == "I" and p[1] in seen:
                continue
            if p[0] == "I":
                seen.add(p[1])
            ps.append(p)
        parts = ps
    return self.alloc(st, Content(kind, parts))


@method
def star_parts(self, v, st, node, want=None):
    v = self.prune(v, st)
    if isinstance(v, Tup):
        return [("I", x) for x in v.items]
    if isinstance(v, Sym) and (is_cell(v) or typ(v) == frozenset(["Point"])):
        n = 4 if typ(v) == frozenset(["Point"]) else 2
        return [("I", self.item(v, Const(i), st, node)) for i in range(n)]
    if isinstance(v, Sym) and want is not None:
        return [("I", self.item(v, Const(i), st, node)) for i in range(want)]
    return self.to_parts(v, st, node)


@method
def ev_Dict(self, node, st):
    known, parts = {}, []
    for k, v in zip(node.keys, node.values):
        if k is None:
            d = self.ev(v, st)
            c = self.content(st, d) if isinstance(d, Obj) else None
            if c is None or c.kind != "dict":
                raise Unsupported("** of non-dict")
            known.update(dict(c.known or ()))
            parts += c.parts
            continue
        kk, vv = self.prune(self.ev(k, st), st), self.ev(v, st)
        kk = self.key_norm(kk, st)
        if self.is_key(kk):
            known[kk] = vv
        else:
            parts.append(("I", Tup((kk, vv))))
    return self.alloc(st, Content("dict", parts, known=tuple(known.items())))


@method
def key_norm(self, k, st):
    if isinstance(k, Str) and all(n[0] == "L" for n in k.nodes):
        return Const("".join(n[1] for n in k.nodes))
    return self.freeze(k, st)


@method
def is_key(self, k):
    if is_const(k):
        return True
    return isinstance(k, Tup) and all(self.is_key(x) for x in k.items)


@method
def ev_IfExp(self, node, st):
    f = self.cond(node.test, st)
    f = facts(st.pc).simplify(f)
    if f is True:
        return self.ev(node.body, st)
    if f is False:
        return self.ev(node.orelse, st)
    alts, sts = [], []
    for g, e in ((f, node.body), (f_not(f), node.orelse)):
        s = st.copy()
        s.assume(g)
        try:
            alts.append((g, self.ev(e, s)))
            sts.append(s)
        except PathDead:
            pass
    m = merge_states(sts)
    if m is None:
        raise PathDead()
    st.become(m)
    return make_phi(alts) if len(alts) > 1 else alts[0][1]


@method
def cond(self, node, st):
    """Evaluate a test to a formula (with short-circuit refinement)."""
    if isinstance(node, ast.BoolOp):
        acc = []
        pc0 = st.pc
        for e in node.values:
            f = self.cond(e, st)
            f = facts(st.pc).simplify(f)
            acc.append(f)
            if isinstance(node.op, ast.And):
                if f is False:
                    break
                st.assume(f)
            else:
                if f is True:
                    break
                st.assume(f_not(f))
        st.pc = pc0
        return f_and(acc) if isinstance(node.op, ast.And) else f_or(acc)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        return f_not(self.cond(node.operand, st))
    v = self.ev(node, st)
    self.event("test", (v,), node, st)
    return self.truth(v, st)


@method
def ev_BoolOp(self, node, st):
    # value semantics
    isand = isinstance(node.op, ast.And)
    pc0 = st.pc
    vals, conds = [], []
    for i, e in enumerate(node.values):
        v = self.prune(self.ev(e, st), st)
        vals.append(v)
        if i == len(node.values) - 1:
            break
        f = facts(st.pc).simplify(self.truth(v, st))
        conds.append(f)
        if (isand and f is False) or (not isand and f is True):
            break
        st.assume(f if isand else f_not(f))
    st.pc = pc0
    if all(isinstance(v, (BoolF,)) or (isinstance(v, Const) and isinstance(v.v, bool)) or typ(v) == frozenset(["bool"]) for v in vals):
        fs = [self.truth(v, st) for v in vals]
        return fval(f_and(fs) if isand else f_or(fs))
    alts, pre = [], True
    for i, v in enumerate(vals):
        if i < len(vals) - 1:
            stop = f_not(conds[i]) if isand else conds[i]
            alts.append((f_and([pre, stop]), v))
            pre = f_and([pre, f_not(stop)])
        else:
            alts.append((pre, v))
    return make_phi(alts)


@method
def ev_UnaryOp(self, node, st):
    if isinstance(node.op, ast.Not):
        return fval(f_not(self.cond(node.operand, st)))
    v = self.ev(node.operand, st)

    def one(v):
        if isinstance(v, Const):
            return Const({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(node.op)](v.v))
        if isinstance(node.op, ast.USub):
            return mul_const(v, -1) if intish(v) else Sym("bin", "neg", v)
        return Sym("bin", type(node.op).__name__, v)

    return self.lift(st, one, v)


@method
def ev_BinOp(self, node, st):
    a = self.ev(node.left, st)
    b = self.ev(node.right, st)
    if isinstance(node.op, ast.Mod) and strish(a):
        raise Unsupported("% formatting")
    return self.binop(type(node.op), a, b, st, node)


@method
def ev_Compare(self, node, st):
    left = self.ev(node.left, st)
    fs = []
    for op, r in zip(node.ops, node.comparators):
        right = self.ev(r, st)
        v = self.compare(op, left, right, st, node)
        fs.append(v)
        left = right
    if len(fs) == 1:
        return fs[0]
    return fval(f_and([self.truth(v, st) for v in fs]))


@method
def ev_NamedExpr(self, node, st):
    v = self.ev(node.value, st)
    self.assign(node.target, v, st)
    return v


@method
def ev_Lambda(self, node, st):
    return self.make_func(node, st, self.frame_id_stack[-1], (self.stack[-1][0] if self.stack else "") + ".<lambda>")


@method
def ev_Starred(self, node, st):
    raise Unsupported("star")


@method
def ev_Await(self, node, st):
    return self.ev(node.value, st)


@method
def ev_Attribute(self, node, st):
    v = self.ev(node.value, st)
    return self.lift(st, lambda x: self.attr(x, node.attr, st, node), v)


@method
def attr(self, v, name, st, node):
    if isinstance(v, ModV):
        if v.name in self.repo.modules:
            r = self.global_lookup(v.name, name)
            if r is not None:
                return r
            sub = f"{v.name}.{name}"
            if sub in self.repo.modules:
                return ModV(sub)
        return Builtin(f"{v.name}.{name}")
    if isinstance(v, ClassV):
        if self.is_enum(v):
            e = self.enum_attr(v, name)
            if e is not None:
                return e
        r = self.class_lookup(v, name)
        if r is not None:
            return r[1]
        return Sym("clsattr", v.name, name)
    if isinstance(v, EnumV):
        if name == "value":
            cls = self.find_enum(v.cls)
            for n, val in self.enum_members(cls):
                if n == v.name:
                    return val
        if name == "name":
            return Const(v.name)
        return Bound(v, name)
    if isinstance(v, Obj):
        c = self.content(st, v)
        if c.kind == "inst":
            if c.attrs and name in c.attrs:
                return c.attrs[name]
            r = self.class_lookup(c.cls, name)
            if r is not None:
                return Bound(v, name, r[1]) if r[0] == "func" else r[1]
            return Sym("instattr", Const(v.oid), name)
        return Bound(v, name)
    if isinstance(v, Tup):
        if name in ("r", "c", "d", "pos") and len(v.items) == 4:
            return v.items[("r", "c", "d", "pos").index(name)]
        return Bound(v, name)
    if isinstance(v, Sym):
        if v.op == "super" and len(v.args) == 2:
            for mname, cnode in self.repo.mro(v.args[0].mod, v.args[0].node)[1:]:
                r = self.class_lookup(ClassV(cnode.name, mname, cnode), name) if isinstance(cnode, ast.ClassDef) else None
                if r is not None:
                    return Bound(v.args[1], name, r[1]) if r[0] == "func" else r[1]
            return Bound(Sym("super"), name)
        if v.op == "puzzle":
            r = None
            if name in ("clear", "decode", "encode"):
                return Bound(v, name)
            return Sym("attr", v, name)
        if name in ("r", "c", "d", "pos"):
            return self.item(v, Const(("r", "c", "d", "pos").index(name)), st, node)
        if name == "value":
            return Sym("attr", v, "value")
        if name in ("start", "stop", "step") and v.op == "range":
            return v.args[("start", "stop", "step").index(name)]
        return Bound(v, name)
    return Bound(v, name)


@method
def find_enum(self, name):
    for mname, m in self.repo.modules.items():
        if name in m.defs and isinstance(m.defs[name], ast.ClassDef):
            return ClassV(name, mname, m.defs[name])
    raise Unsupported(name)


@method
def ev_Subscript(self, node, st):
    base = self.ev(node.value, st)
    if isinstance(node.slice, ast.Slice):
        lo = self.ev(node.slice.lower, st) if node.slice.lower else NONE
        hi = self.ev(node.slice.upper, st) if node.slice.upper else NONE
        step = self.ev(node.slice.step, st) if node.slice.step else NONE
        return self.lift(st, lambda b, l, h, s: self.slice_(b, l, h, s, st, node), base, lo, hi, step)
    idx = self.ev(node.slice, st)
    return self.lift(st, lambda b, i: self.item(b, i, st, node), base, idx)


@method
def slice_(self, b, lo, hi, step, st, node):
    if all(isinstance(x, Const) for x in (lo, hi, step)):
        sl = slice(lo.v, hi.v, step.v)
        if isinstance(b, Const) and isinstance(b.v, (str, tuple, bytes)):
            return Const(b.v[sl])
        if isinstance(b, Str) and all(n[0] == "L" for n in b.nodes):
            return Const("".join(n[1] for n in b.nodes)[sl])
        if isinstance(b, Tup):
            return Tup(b.items[sl])
        if isinstance(b, Obj):
            c = self.content(st, b)
            if all(p[0] == "I" for p in c.parts) and c.kind in ("list", "tuple"):
                return self.alloc(st, Content("list", c.parts[sl]))
    fb = self.freeze(b, st)
    if typ(b) == frozenset(["str"]):
        return Sym("substr", fb, lo, hi, step)
    return Sym("slice", fb, lo, hi, step)


@method
def item(self, b, i, st, node):
    """b[i]"""
    if isinstance(b, Str) and all(n[0] == "L" for n in b.nodes):
        b = Const("".join(n[1] for n in b.nodes))
    if isinstance(b, Const) and isinstance(b.v, (str, tuple, bytes)) and isinstance(i, Const):
        try:
            return Const(b.v[i.v])
        except IndexError:
            raise PathDead()
    if isinstance(b, Tup):
        if isinstance(i, Const) and isinstance(i.v, int):
            try:
                return b.items[i.v]
            except IndexError:
                self.event("may-raise", ("IndexError", b), node, st)
                raise PathDead()
        self.event("index", (b, i), node, st)
        alts = [(self.cmp_eq(i, Const(k), st), x) for k, x in enumerate(b.items)]
        if not alts:
            raise PathDead()
        return make_phi(alts)
    if isinstance(b, Obj):
        c = self.content(st, b)
        if c.kind == "dict":
            k = self.key_norm(i, st)
            if not c.parts:
                for kk, vv in c.known or ():
                    if kk == k:
                        return vv
                if self.is_key(k):
                    if c.owner is None or True:
                        self.event("may-raise", ("KeyError", k), node, st)
                    raise PathDead()
                alts, fs = [], []
                for kk, vv in c.known or ():
                    f = self.cmp_eq(k, kk, st)
                    fs.append(f)
                    if f is not False:
                        alts.append((f, vv))
                total = f_or(fs)
                if not facts(st.pc).implies(total):
                    self.event("dict-key", (Sym("dictkeys", Tup(kk for kk, _ in c.known or ())), k), node, st)
                if not alts:
                    raise PathDead()
                st.assume(total)
                if len(alts) > 40:
                    return Sym("select", self.freeze(b, st), k)
                return make_phi(alts)
            for kk, vv in c.known or ():
                if kk == k and not c.parts:
                    return vv
            hit = any(p[0] == "I" and isinstance(p[1], Tup) and len(p[1].items) == 2 and p[1].items[0] == k for p in c.parts)
            if not hit:
                self.event("dict-key", (self.freeze(b, st), k), node, st)
            v = self.dict_value(c, k, b, st)
            if isinstance(v, Obj):
                self.shared_objs.add(v.oid)
            return v
        if c.kind == "inst":
            raise Unsupported("subscript of instance")
        if isinstance(i, Const) and isinstance(i.v, int):
            if all(p[0] == "I" for p in c.parts):
                try:
                    return c.parts[i.v][1]
                except IndexError:
                    self.event("may-raise", ("IndexError", b), node, st)
                    raise PathDead()
            if i.v >= 0 and len(c.parts) > i.v and all(p[0] == "I" for p in c.parts[: i.v + 1]):
                return c.parts[i.v][1]
        self.event("index", (self.freeze(b, st), i), node, st)
        if all(p[0] == "I" for p in c.parts) and 0 < len(c.parts) <= 24:
            return make_phi([(self.cmp_eq(i, Const(k), st), p[1]) for k, p in enumerate(c.parts)])
        if len(c.parts) == 1 and c.parts[0][0] == "R" and len(c.parts[0][2]) == 1 and c.parts[0][2][0][0] == "I":
            v = c.parts[0][2][0][1]
            if isinstance(v, (Tup,)):
                return Tup(Sym("item", Sym("nth", self.freeze(b, st), i), Const(k)) if not is_const(x) else x for k, x in enumerate(v.items))
            if intish(v):
                return Sym("fn_int", "nth", self.freeze(b, st), i)
        return Sym("item", self.freeze(b, st), self.freeze(i, st))
    if isinstance(b, Sym):
        if b.op == "attr" and b.args[1] == "param":
            k = self.key_norm(i, st)
            self.param_reads.setdefault(k.v if isinstance(k, Const) else k, self.loc(node))
            return Sym("param", k.v if isinstance(k, Const) else k)
        cn = coll_name(b)
        if cn or b.op in ("rooms", "dictsym"):
            k = self.point_norm(i, st)
            if isinstance(k, Sym) and k.op == "key" and k.args[1] == b:
                return Sym("val", k.args[0], b)
            if isinstance(k, Sym) and k.op == "elem" and k.args[1] == Sym("keys", b):
                return Sym("lookup", b, k)
            f = lit(Sym("in", k, b))
            if not facts(st.pc).implies(f) and not facts(st.pc).implies(f_not(lit(Sym("eq", Sym("get", b, k), NONE)))):
                self.event("coll-key", (b, k), node, st)
            st.assume(f)
            return Sym("lookup", b, k)
        if typ(b) in (frozenset(["Point"]),) or is_cell(b):
            if isinstance(i, Const) and isinstance(i.v, int) and i.v < 0:
                i = Const(i.v + (4 if typ(b) == frozenset(["Point"]) else 2))
            return Sym("item", b, i)
        if b.op == "mcall" and b.args[0] in ("split", "rsplit") or not isinstance(i, Const):
            self.event("index", (b, i), node, st)
        if b.op == "range" and isinstance(i, Const):
            self.event("index", (b, i), node, st)
            lo, hi, step = b.args
            if i.v == 0:
                return lo
            if i.v == -1 and step in (Const(1), Const(-1)):
                return lin_build([(hi, 1)], -step.v)
        return Sym("item", b, self.freeze(i, st))
    if isinstance(b, (Const, EnumV, Str)):
        return Sym("item", self.freeze(b, st), self.freeze(i, st))
    if isinstance(b, (Builtin, ClassV)):
        return b  # typing generics
    raise Unsupported(f"subscript of {b!r}")


@method
def point_norm(self, k, st):
    """A Point rebuilt from the fields of a key is that key."""
    k = self.freeze(k, st)
    if isinstance(k, Tup) and len(k.items) == 4:
        first = k.items[0]
        if isinstance(first, Sym) and first.op == "item" and isinstance(first.args[0], Sym) and first.args[0].op == "key":
            base = first.args[0]
            if all(x == Sym("item", base, Const(j)) for j, x in enumerate(k.items)):
                return base
            # fields pinned by the path
            F = facts(st.pc)
            ok = True
            for j, x in enumerate(k.items):
                y = Sym("item", base, Const(j))
                if x == y:
                    continue
                if is_const(x) and F.value(Sym("eq", y, x)) is True:
                    continue
                ok = False
            if ok:
                return base
    return k


@method
def dict_value(self, c, k, b, st):
    """Some value of a partially known dict."""
    vals = [v for _, v in c.known or ()]

    def collect(ps):
        for p in ps:
            if p[0] == "I":
                if isinstance(p[1], Tup) and len(p[1].items) == 2:
                    vals.append(p[1].items[1])
            elif p[0] == "R":
                collect(p[2])
            elif p[0] == "A":
                for _, q in p[1]:
                    collect(q)

    collect(c.parts)
    # exact hit on a symbolic key written unconditionally at top level
    for p in reversed(c.parts):
        if p[0] == "I" and isinstance(p[1], Tup) and p[1].items[0] == k:
            return p[1].items[1]
        break
    if vals and all(intish(v) for v in vals):
        return Sym("fn_int", "dval", self.freeze(b, st), k)
    if vals and all(isinstance(v, Obj) for v in vals) and len(set(vals)) == 1:
        return vals[0]
    return Sym("dval", self.freeze(b, st), k)
