"""What a path condition (tuple of formulas) says about a literal."""
from .domain import Const, EnumV, Sym, f_and, f_not, f_or, lit

COLORS = ("GREEN", "GRAY", "BLACK")


def is_const(v):
    return isinstance(v, (Const, EnumV))


class Facts:
    """Unit propagation over a conjunction, with equality against constants and type tests."""

    def __init__(self, formulas, types):
        self.types = types  # callable sym -> frozenset|None (declared types, no path facts)
        self.lits = {}
        self.eq = {}
        self.ne = {}
        self.ty = {}
        self.not_ty = {}
        self.bottom = False
        self.ors = []
        self.pairs = []
        self.done = False
        work = list(formulas)
        while work:
            f = work.pop()
            if f is True:
                continue
            if f is False:
                self.bottom = True
                continue
            if f[0] == "and":
                work.extend(f[1])
            elif f[0] == "or":
                self.ors.append(f)
            else:
                self._add(f[1], f[2])
            if not work and self.ors:
                rest = []
                for o in self.ors:
                    g = self.simplify(o)
                    if g is True:
                        continue
                    if g is False or g[0] != "or":
                        work.append(g)
                    else:
                        rest.append(g)
                self.ors = rest
        self.done = True

    def _add(self, s, pol):
        old = self.value(s)
        if old is not None and old != pol:
            self.bottom = True
        self.lits[s] = pol
        if s.op == "eq":
            a, b = s.args
            if is_const(b):
                if pol:
                    self.eq[a] = b
                    for x, y in self.pairs:
                        for u, w in ((x, y), (y, x)):
                            if u == a and w not in self.eq:
                                self._add(Sym("eq", w, b), True)
                else:
                    self.ne.setdefault(a, set()).add(b)
            elif pol:
                self.pairs.append((a, b))
                for x, y in ((a, b), (b, a)):
                    if x in self.eq and y not in self.eq:
                        self._add(Sym("eq", y, self.eq[x]), True)
        elif s.op == "isinst":
            (self.ty if pol else self.not_ty).setdefault(s.args[0], set()).add(s.args[1])
        elif s.op == "truthy" and pol:
            self.ne.setdefault(s.args[0], set()).update({Const(None), Const(0), Const(""), Const(False)})

    def typeset(self, v):
        """Possible type names of a value under these facts, or None (unknown)."""
        base = self.types(v)
        for t in self.ty.get(v, ()):
            tt = set(t.split("|"))
            if base is None:
                base = frozenset(tt)
            else:
                keep = {x for x in base if x in tt or (x == "bool" and "int" in tt)}
                base = frozenset(keep)
        if base is not None:
            for t in self.not_ty.get(v, ()):
                tt = set(t.split("|"))
                base = frozenset(x for x in base if x not in tt and not (x == "bool" and "int" in tt))
            if Const(None) in self.ne.get(v, ()):
                base = base - {"none"}
        if v in self.eq:
            c = self.eq[v]
            if isinstance(c, Const):
                n = "none" if c.v is None else type(c.v).__name__
                return frozenset([n])
        return base

    def value(self, s):
        """True/False/None for an atom."""
        if s in self.lits:
            return self.lits[s]
        if s.op == "eq":
            a, b = s.args
            if is_const(b):
                if a in self.eq:
                    return self.eq[a] == b
                if b in self.ne.get(a, ()):
                    return False
                if isinstance(b, Const):
                    ts = self.typeset(a)
                    if ts is not None:
                        n = "none" if b.v is None else type(b.v).__name__
                        if n == "bool":
                            ok = bool(ts & {"bool", "int"})
                        elif n in ("int", "float"):
                            ok = bool(ts & {"bool", "int", "float"})
                        else:
                            ok = n in ts
                        if not ok:
                            return False
                dom = self.domain(a)
                if dom is not None:
                    if b not in dom:
                        return False
                    left = [x for x in dom if x not in self.ne.get(a, ())]
                    if left == [b]:
                        return True
        elif s.op == "isinst":
            ts = self.typeset(s.args[0])
            if ts is not None:
                want = set(s.args[1].split("|"))
                hit = {x for x in ts if x in want or (x == "bool" and "int" in want)}
                if not hit:
                    return False
                if hit == ts:
                    return True
        elif s.op == "truthy":
            a = s.args[0]
            if a in self.eq:
                c = self.eq[a]
                return bool(c.v) if isinstance(c, Const) else True
            ts = self.typeset(a)
            if ts is not None and ts and ts <= {"tuple+", "Direction", "Color", "Point"}:
                return True
            if ts == frozenset(["none"]):
                return False
        return None

    def domain(self, v):
        t = self.types(v)
        if t == frozenset(["Color"]):
            return [EnumV("Color", c) for c in COLORS]
        if t == frozenset(["bool"]):
            return [Const(True), Const(False)]
        return None

    def simplify(self, f):
        if f is True or f is False:
            return f
        if f[0] == "lit":
            v = self.value(f[1])
            if v is None:
                return f
            return v == f[2]
        sub = [self.simplify(g) for g in f[1]]
        if f[0] == "and":
            return f_and(sub)
        g = f_or(sub)
        if self.done and self.ors and g is not True and g is not False and g[0] == "or":  # a known disjunction is part of it
            have = set(g[1])
            for o in self.ors:
                if o[0] == "or" and len(o[1]) <= len(have) and have.issuperset(o[1]):
                    return True
        return g

    def implies(self, f):
        return self.simplify(f) is True

    def refutes(self, f):
        if self.bottom:
            return True
        g = self.simplify(f)
        if g is False:
            return True
        if g is True:
            return False
        # one level of look-ahead
        return Facts(self.as_formulas() + (g,), self.types).bottom

    def as_formulas(self):
        return tuple(lit(s, p) for s, p in self.lits.items()) + tuple(self.ors)


def infeasible(formulas, types, budget=400):
    """No case of the disjunctions is consistent (case split; None when there are too many cases)."""
    left = [budget]

    def go(fs):
        F = Facts(fs, types)
        if F.bottom:
            return True
        if not F.ors:
            return False
        left[0] -= 1
        if left[0] < 0:
            return None
        o = min(F.ors, key=lambda x: len(x[1]))
        rest = tuple(lit(s, p) for s, p in F.lits.items()) + tuple(x for x in F.ors if x is not o)
        res = True
        for g in o[1]:
            r = go(rest + (g,))
            if r is False:
                return False
            if r is None:
                res = None
        return res

    return go(tuple(formulas))
