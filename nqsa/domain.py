"""Abstract values and path formulas.

Everything is immutable and hashable except the State (see interp.py).

Values
  Const(v)            a Python constant
  EnumV(cls, name)    a member of an Enum/Flag class of the analysed program
  Sym(op, *args)      an opaque symbolic value, described by how it was obtained
  Tup(items)          a tuple (a Point is a Tup of 4)
  Str(nodes)          a string template
  BoolF(formula)      the truth value of a path formula
  Phi(alts)           guarded alternatives ((formula, value), ...)
  Obj(oid)            reference to a heap object of the State
  Func/ClassV/ModV/Builtin/Bound  callables and namespaces

String nodes
  ('L', text, loc) literal, ('H', value, loc) hole, ('R', loop, nodes, sep) repetition,
  ('A', ((formula, nodes), ...)) alternatives, ('G', formulas, nodes) guard, ('ACC', slot)

Formulas
  True | False | ('lit', sym, polarity) | ('and', (f, ...)) | ('or', (f, ...))
"""
from __future__ import annotations


class V:
    __slots__ = ("_h",)

    def _key(self):
        raise NotImplementedError

    def __eq__(self, other):
        if self is other:
            return True
        if type(self) is type(other) and hash(self) == hash(other) and self._key() == other._key():
            self._share(other)
            return True
        return False

    def _share(self, other):
        """Equal values share their parts, so that comparing them again is quick."""

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self._key()))
            return self._h


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


class EnumV(V):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value=None):
        self.cls, self.name, self.value = cls, name, value

    def _key(self):
        return (self.cls, self.name)

    def __repr__(self):
        return f"{self.cls}.{self.name}"


class Sym(V):
    __slots__ = ("op", "args")

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def _share(self, other):
        self.args = other.args

    def _key(self):
        return (self.op, self.args)

    def __repr__(self):
        return pretty(self)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def _share(self, other):
        self.items = other.items

    def _key(self):
        return self.items

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Str(V):
    __slots__ = ("nodes",)

    def __init__(self, nodes):
        self.nodes = tuple(nodes)

    def _share(self, other):
        self.nodes = other.nodes

    def _key(self):
        return self.nodes

    def __repr__(self):
        return "Str" + show_nodes(self.nodes)


class BoolF(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def _share(self, other):
        self.f = other.f

    def _key(self):
        return self.f

    def __repr__(self):
        return f"bool[{show_f(self.f)}]"


class Phi(V):
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def _share(self, other):
        self.alts = other.alts

    def _key(self):
        return self.alts

    def __repr__(self):
        return "phi{" + "; ".join(f"{show_f(f)} -> {v!r}" for f, v in self.alts) + "}"


class Obj(V):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def _key(self):
        return self.oid

    def __repr__(self):
        return f"obj#{self.oid}"


class Func(V):
    __slots__ = ("node", "mod", "frame", "qual", "cls", "defaults", "kwdefaults")

    def __init__(self, node, mod, frame, qual, cls=None, defaults=(), kwdefaults=()):
        self.node, self.mod, self.frame, self.qual, self.cls = node, mod, frame, qual, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults

    def _key(self):
        return (id(self.node), self.frame)

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassV(V):
    __slots__ = ("name", "mod", "node")

    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node

    def _key(self):
        return (self.mod, self.name)

    def __repr__(self):
        return f"<class {self.name}>"


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return self.name

    def __repr__(self):
        return f"<module {self.name}>"


class Builtin(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def _key(self):
        return self.name

    def __repr__(self):
        return f"<builtin {self.name}>"


class Bound(V):
    __slots__ = ("self_", "name", "func")

    def __init__(self, self_, name, func=None):
        self.self_, self.name, self.func = self_, name, func

    def _key(self):
        return (self.self_, self.name, self.func)

    def __repr__(self):
        return f"<bound {self.self_!r}.{self.name}>"


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
EMPTY = Str(())
UNDEF = Sym("undef")


# ---------------------------------------------------------------- formulas
def lit(sym, pol=True):
    return ("lit", sym, pol)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "lit":
        return ("lit", f[1], not f[2])
    if f[0] == "and":
        return f_or([f_not(x) for x in f[1]])
    return f_and([f_not(x) for x in f[1]])


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == "and":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if f[0] == "lit" and ("lit", f[1], not f[2]) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == "or":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    # unit simplification: (a and b) or not a  ->  b or not a
    changed = True
    while changed:
        changed = False
        units = [f for f in out if f[0] == "lit"]
        for f in units:
            if f_not(f) in out:
                return True
        for i, f in enumerate(out):
            if f[0] == "and":
                keep = [g for g in f[1] if not (g[0] == "lit" and f_not(g) in units)]
                if len(keep) != len(f[1]):
                    out.pop(i)
                    g = f_and(keep)
                    if g is True:
                        return True
                    if g not in out:
                        out.append(g)
                    changed = True
                    break
                if any(g in units for g in f[1]):
                    out.pop(i)
                    changed = True
                    break
    # (a and b) or (not a and b) -> b
    ands = [f for f in out if f[0] == "and"]
    for i, f in enumerate(ands):
        for g in ands[i + 1:]:
            fs_, gs_ = set(f[1]), set(g[1])
            d1, d2 = fs_ - gs_, gs_ - fs_
            if len(d1) == 1 and len(d2) == 1:
                x, y = next(iter(d1)), next(iter(d2))
                if x == f_not(y):
                    rest = [h for h in out if h is not f and h is not g]
                    return f_or(rest + [f_and([h for h in f[1] if h in gs_])])
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def f_lits(f):
    """All literals occurring in a formula."""
    if f is True or f is False:
        return
    if f[0] == "lit":
        yield f
    else:
        for g in f[1]:
            yield from f_lits(g)


def f_map(f, fn):
    """Rebuild a formula, mapping each literal (sym, pol) -> formula."""
    if f is True or f is False:
        return f
    if f[0] == "lit":
        return fn(f[1], f[2])
    sub = [f_map(g, fn) for g in f[1]]
    return f_and(sub) if f[0] == "and" else f_or(sub)


# ---------------------------------------------------------------- pretty printing
def show_f(f):
    if f is True or f is False:
        return str(f)
    if f[0] == "lit":
        return ("" if f[2] else "not ") + repr(f[1])
    return "(" + (" and " if f[0] == "and" else " or ").join(show_f(g) for g in f[1]) + ")"


def pretty(s):
    op, a = s.op, s.args
    try:
        if op == "lin":
            out = []
            for t, k in a[0]:
                out.append(("" if k == 1 else "-" if k == -1 else f"{k}*") + repr(t))
            if a[1]:
                out.append(str(a[1]))
            return " + ".join(out) if len(out) > 1 else (out[0] if out else "0")
        if op == "puzzle":
            return "puzzle"
        if op == "attr":
            return f"{a[0]!r}.{a[1]}"
        if op == "param":
            return f"param[{a[0]!r}]"
        if op in ("key", "val", "elem", "idx"):
            src = f" of {a[1]!r}" if len(a) > 1 else ""
            return f"<{op}{a[0]}{src}>"
        if op == "item":
            return f"{a[0]!r}[{a[1]!r}]"
        if op == "eq":
            return f"{a[0]!r} == {a[1]!r}"
        if op == "lt":
            return f"{a[0]!r} < {a[1]!r}"
        if op == "in":
            return f"{a[0]!r} in {a[1]!r}"
        if op == "isinst":
            return f"isinstance({a[0]!r}, {a[1]})"
        if op == "truthy":
            return f"bool({a[0]!r})"
    except Exception:  # pragma: no cover
        pass
    return f"{op}({', '.join(map(repr, a))})"


def show_nodes(nodes):
    out = []
    for n in nodes:
        if n[0] == "L":
            out.append(n[1])
        elif n[0] == "H":
            out.append("{" + repr(n[1]) + "}")
        elif n[0] == "R":
            out.append(f"<rep {n[1]}: " + show_nodes(n[2]) + (f" sep {show_nodes(n[3])!r}" if n[3] else "") + ">")
        elif n[0] == "A":
            out.append("<alt " + " | ".join(f"[{show_f(f)}] " + show_nodes(x) for f, x in n[1]) + ">")
        elif n[0] == "G":
            out.append(f"<guard {[show_f(f) for f in n[1]]}: " + show_nodes(n[2]) + ">")
        else:
            out.append(str(n))
    return "".join(out)


def subst(v, fn):
    """Rebuild a value bottom-up; fn(v) may return a replacement or None."""
    r = fn(v)
    if r is not None:
        return r
    if isinstance(v, Sym):
        if v.op == "lin":
            from .arith import lin_build
            return lin_build([(subst(t, fn), k) for t, k in v.args[0]], v.args[1])
        return Sym(v.op, *[subst(a, fn) if isinstance(a, V) else a for a in v.args])
    if isinstance(v, Tup):
        return Tup(subst(x, fn) for x in v.items)
    if isinstance(v, BoolF):
        return BoolF(subst_f(v.f, fn))
    if isinstance(v, Phi):
        return Phi((subst_f(f, fn), subst(x, fn)) for f, x in v.alts)
    if isinstance(v, Str):
        return Str(subst_nodes(v.nodes, fn))
    return v


def subst_f(f, fn):
    return f_map(f, lambda s, p: ("lit", subst(s, fn), p))


def subst_nodes(nodes, fn):
    out = []
    for n in nodes:
        if n[0] == "H":
            out.append(("H", subst(n[1], fn), n[2]))
        elif n[0] == "R":
            out.append(("R", n[1], subst_nodes(n[2], fn), subst_nodes(n[3], fn)))
        elif n[0] == "A":
            out.append(("A", tuple((subst_f(f, fn), subst_nodes(x, fn)) for f, x in n[1])))
        elif n[0] == "G":
            out.append(("G", tuple(subst_f(f, fn) for f in n[1]), subst_nodes(n[2], fn)))
        else:
            out.append(n)
    return tuple(out)


def walk(v):
    """All sub-values of a value."""
    yield v
    if isinstance(v, Sym):
        if v.op == "lin":
            for t, _ in v.args[0]:
                yield from walk(t)
        else:
            for a in v.args:
                if isinstance(a, V):
                    yield from walk(a)
                elif isinstance(a, tuple):
                    yield from walk_tuple(a)
    elif isinstance(v, Tup):
        for x in v.items:
            yield from walk(x)
    elif isinstance(v, BoolF):
        for l in f_lits(v.f):
            yield from walk(l[1])
    elif isinstance(v, Phi):
        for f, x in v.alts:
            for l in f_lits(f):
                yield from walk(l[1])
            yield from walk(x)
    elif isinstance(v, Str):
        yield from walk_nodes(v.nodes)


def walk_tuple(t):
    """Values inside nested tuples of parts and formulas."""
    for b in t:
        if isinstance(b, V):
            yield from walk(b)
        elif isinstance(b, tuple):
            yield from walk_tuple(b)


def free_syms(v, bound=frozenset()):
    """Sub-values, without those that belong to repetitions inside the value."""
    if isinstance(v, Sym):
        if v.op in ("key", "val", "elem", "idx", "celem", "cnt") and v.args and v.args[0] in bound:
            return
        yield v
        if v.op == "lin":
            for t, _ in v.args[0]:
                yield from free_syms(t, bound)
        else:
            for a in v.args:
                yield from _free(a, bound)
    elif isinstance(v, Tup):
        for x in v.items:
            yield from free_syms(x, bound)
    elif isinstance(v, (Phi, BoolF, Str)):
        for x in walk(v):
            if not (isinstance(x, Sym) and x.op in ("key", "val", "elem", "idx", "celem", "cnt") and x.args and x.args[0] in bound):
                yield x
    elif isinstance(v, V):
        yield v


def _free(a, bound):
    if isinstance(a, V):
        yield from free_syms(a, bound)
    elif isinstance(a, tuple):
        if len(a) >= 3 and a[0] == "R" and isinstance(a[1], int):
            bound = bound | {a[1]}
        for b in a:
            yield from _free(b, bound)


def walk_nodes(nodes):
    for n in nodes:
        if n[0] == "H":
            yield from walk(n[1])
        elif n[0] == "R":
            if n[2] and not isinstance(n[2][0][0] if n[2][0] else (), str):  # expanded into alternatives
                for sub in n[2]:
                    yield from walk_nodes(sub)
            else:
                yield from walk_nodes(n[2])
            yield from walk_nodes(n[3])
        elif n[0] == "S":
            yield from walk_nodes(n[1])
            yield from walk_nodes(n[2])
        elif n[0] == "A":
            for f, x in n[1]:
                for l in f_lits(f):
                    yield from walk(l[1])
                yield from walk_nodes(x)
        elif n[0] == "G":
            for f in n[1]:
                for l in f_lits(f):
                    yield from walk(l[1])
            yield from walk_nodes(n[2])
