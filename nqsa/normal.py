"""Rule templates in a normal form, and entailment between rules by subsumption.

A rule is brought into a form in which the usual ways of writing the same rule coincide:
 - terms are affine combinations of variables and symbols of the analysed program;
 - Python loops over ranges and cells, and Python conditions on them, become variables and literals like those written in the rule itself;
 - equalities are substituted, distances written with |..| are expanded into displacements, disjunctive conditions into several rules;
 - aggregates with a lower or upper bound, counted sets of atoms and counted tuples share one form, and their negations too.
A rule covers another when some renaming and translation of its variables makes its body part of the other's (theta-subsumption).
"""
import itertools

from .asp import T, parse
from .domain import Const, Str, Sym, Tup, walk
from .prog import flat

CMPS = {"=", "!=", "<", "<=", ">", ">="}
NEGOP = {"=": "!=", "!=": "=", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
FLIP = {"=": "=", "!=": "!=", "<": ">", ">=": "<=", ">": "<", "<=": ">="}


class Unclear(Exception):
    """Outside the fragment that can be normalised."""


# ------------------------------------------------------------------ terms
def aff(coefs, k):
    return ("a", tuple(sorted(((b, c) for b, c in coefs.items() if c), key=repr)), k)


def num(k):
    return ("a", (), k)


def var(n):
    return ("a", ((("v", n), 1),), 0)


def a_add(x, y, s=1):
    if x[0] != "a" or y[0] != "a":
        raise Unclear("arithmetic on a term that is not affine")
    d = dict(x[1])
    for b, c in y[1]:
        d[b] = d.get(b, 0) + s * c
    return aff(d, x[2] + s * y[2])


def a_scale(x, k):
    if x[0] != "a":
        raise Unclear("arithmetic on a term that is not affine")
    return aff({b: c * k for b, c in x[1]}, x[2] * k)


def only_var(t):
    """(name, shift) of a term var + const, else None."""
    if t[0] == "a" and len(t[1]) == 1 and t[1][0][0][0] == "v" and t[1][0][1] == 1:
        return t[1][0][0][1], t[2]
    return None


def tvars(t):
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] == "a":
        return {b[1] for b, _ in t[1] if b[0] == "v"}
    out = set()
    for x in t[1:]:
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, tuple):
                    out |= tvars(y)
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= tvars(x)
    return out


def sub(t, env):
    """Substitute variables by affine terms."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "a":
        r = num(t[2])
        for b, c in t[1]:
            if b[0] == "v" and b[1] in env:
                e = env[b[1]]
                if e[0] != "a":
                    if t == ("a", ((b, 1),), 0):
                        return e
                    raise Unclear("arithmetic on a term that is not affine")
                r = a_add(r, a_scale(e, c))
            else:
                r = a_add(r, ("a", ((b, c),), 0))
        return r
    return tuple(sub(x, env) if isinstance(x, tuple) else frozenset(sub(y, env) for y in x) if isinstance(x, frozenset) else x for x in t)


class Norm:
    def __init__(self, loops, names=None):
        self.loops = loops
        self.n = 0
        self.extra = []  # literals coming from loops and path conditions
        self.seen = {}  # loop-local symbol -> variable
        self.names = names or {}

    def fresh(self, stem="_"):
        self.n += 1
        return f"{stem}#{self.n}"

    # -- values of the analysed program
    def local(self, s):
        """Variable standing for a symbol that ranges over a Python loop."""
        if s in self.seen:
            return self.seen[s]
        if s.op == "idx":
            lp = self.loops.get(s.args[0])
            if lp is None or lp.kind != "range" or lp.args is None:
                return None
            lo, hi, st = lp.args
            if st != Const(1):
                return None
            v = var(self.fresh("i"))
            self.seen[s] = v
            self.extra.append(("in", v, self.value(lo), a_add(self.value(hi), num(-1))))
            return v
        if s.op == "item" and isinstance(s.args[0], Sym) and s.args[0].op == "elem" and s.args[1] in (Const(0), Const(1)):
            e = s.args[0]
            pair = []
            for i in (0, 1):
                k = Sym("item", e, Const(i))
                pair.append(self.seen.setdefault(k, var(self.fresh("e"))))
            self.extra.append(("lit", 0, self.coll(e.args[1]), tuple(pair)))
            return self.seen[s]
        return None

    @staticmethod
    def coll(v):
        while isinstance(v, Sym) and v.op in ("coll", "sorted", "keys", "seqof") and v.args:
            v = v.args[-1]
        if isinstance(v, Sym) and v.op == "arg":
            return "py_" + v.args[0]
        raise Unclear(f"collection {v!r}"[:80])

    def value(self, v):
        if isinstance(v, (int, bool)):
            return num(int(v))
        if isinstance(v, Const):
            if isinstance(v.v, bool) or isinstance(v.v, int):
                return num(int(v.v))
            if isinstance(v.v, str):
                return ("s", v.v)
        if isinstance(v, Str):
            return ("s", repr(v))
        if isinstance(v, Sym):
            if v.op == "lin":
                r = num(v.args[1])
                for t, c in v.args[0]:
                    r = a_add(r, a_scale(self.value(t), c))
                return r
            if v.op in ("bin", "binop") and len(v.args) == 3:
                return ("op", str(v.args[0]), self.value(v.args[1]), self.value(v.args[2]))
            x = self.local(v)
            if x is not None:
                return x
            return ("a", ((("h", v), 1),), 0)
        raise Unclear(f"value {v!r}"[:80])

    # -- terms
    def term(self, t):
        op = t.op
        if op == "num":
            return num(int(t.a[0]))
        if op == "var":
            n = t.a[0]
            if not isinstance(n, str):
                raise Unclear("variable name with holes")
            return var(n)
        if op == "anon":
            return var(self.fresh("_"))
        if op == "hole":
            return self.value(t.a[0])
        if op == "neg":
            return a_scale(self.term(t.a[0]), -1)
        if op == "bin":
            o, x, y = t.a
            a, b = self.term(x), self.term(y)
            if o in "+-" and a[0] == "a" and b[0] == "a":
                return a_add(a, b, 1 if o == "+" else -1)
            if o == "*" and a[0] == "a" and not a[1]:
                return a_scale(b, a[2])
            if o == "*" and b[0] == "a" and not b[1]:
                return a_scale(a, b[2])
            if o in "+*":
                a, b = sorted((a, b), key=repr)
            return ("op", o, a, b)
        if op == "abs":
            a = self.term(t.a[0])
            if a[0] == "a":
                n = a_scale(a, -1)
                a = min(a, n, key=repr)
                return ("abs", a)
            return ("abs", a)
        if op == "str":
            if all(isinstance(p, str) for p in t.a[0]) if isinstance(t.a[0], tuple) else True:
                return ("s", "".join(t.a[0]) if isinstance(t.a[0], tuple) else t.a[0])
            return ("s", repr(t.a[0]))
        if op == "fn":
            nm, args = t.a
            return ("f", self.pred(nm), tuple(self.args(args)))
        if op == "tuple":
            return ("t", tuple(self.term(x) for x in t.a))
        if op == "interval":
            return ("i", self.term(t.a[0]), self.term(t.a[1]))
        if op == "pool":
            return ("p", frozenset(self.term(x) for x in flat(t.a)))
        if op == "const":
            return ("c", t.a[0])
        raise Unclear(f"term {op}")

    def args(self, args):
        out = []
        for x in flat(args):
            out.append(self.term(x))
        return out

    def pred(self, parts):
        s = ""
        for p in parts:
            if isinstance(p, str):
                s += p
            else:
                v = p[1]
                if isinstance(v, Const) and isinstance(v.v, (str, int)):
                    s += str(v.v)
                elif isinstance(v, Sym) and v.op == "elem":
                    s += "<each of " + self.coll(v.args[1]) + ">"
                elif isinstance(v, Sym) and v.op == "arg":
                    s += "<" + v.args[0] + ">"
                else:
                    raise Unclear("predicate name")
        return s

    # -- literals
    def argsets(self, args):
        """Argument pools: alternatives."""
        if len(args) == 1 and isinstance(args[0], T) and args[0].op == "argpool":
            return [tuple(self.args(a)) for a in args[0].a]
        return [tuple(self.args(args))]

    def lit(self, t):
        """-> list of normal literals (conjunction)"""
        if t.op == "lit":
            neg, nm, args = t.a
            sets = self.argsets(args)
            if len(sets) != 1:
                raise Unclear("pool in a literal")
            n = neg if neg < 2 else 2 - neg % 2
            return [("lit", n, self.pred(nm), sets[0])]
        if t.op == "cmp":
            neg, parts = t.a
            out = []
            for i in range(1, len(parts), 2):
                out.append((parts[i], self.term(parts[i - 1]), self.term(parts[i + 1])))
            if neg % 2:
                if len(out) != 1:
                    raise Unclear("negated chain of comparisons")
                o, a, b = out[0]
                out = [(NEGOP[o], a, b)]
            return [self.cmp(*x) for x in out]
        if t.op == "bool":
            return [("bool", t.a[0])]
        if t.op == "agg":
            return self.agg(t)
        if t.op == "cond":
            return [("cond", self.lit(t.a[0])[0], frozenset(x for y in flat(t.a[1]) for x in self.lit(y)))]
        raise Unclear(f"literal {t.op}")

    @staticmethod
    def cmp(o, a, b):
        if o == "=" and b[0] == "i":
            return ("in", a, b[1], b[2])
        if o == "=" and a[0] == "i":
            return ("in", b, a[1], a[2])
        if a[0] == "a" and b[0] == "a":
            if o in (">", ">="):
                a, b, o = b, a, FLIP[o]
            d = a_add(a, b, -1)
            if o == "<":
                d, o = a_add(d, num(1)), "<="
            if o in ("=", "!="):
                n = a_scale(d, -1)
                d = min(d, n, key=repr)
            return ("cmp", o, d)
        if o in (">", ">="):
            a, b, o = b, a, FLIP[o]
        if o in ("=", "!="):
            a, b = sorted((a, b), key=repr)
        return ("cmpx", o, a, b)

    def agg(self, t):
        neg, fn, left, elems, right = t.a
        guards = []
        if left is not None:
            guards.append((FLIP[self.op(left[1])], self.term(left[0])))
        if right is not None:
            guards.append((self.op(right[0]), self.term(right[1])))
        if neg % 2:
            if len(guards) != 1:
                raise Unclear("negated aggregate with two bounds")
            guards = [(NEGOP[guards[0][0]], guards[0][1])]
        es = self.elems(fn, elems)
        kind = "#count" if fn is None else fn
        out = []
        for o, b in guards:
            if b[0] == "a" and kind in ("#count", "#sum", "#sum+") or b[0] == "a" and kind in ("#min", "#max"):
                if o == ">":
                    o, b = ">=", a_add(b, num(1))
                elif o == "<":
                    o, b = "<=", a_add(b, num(-1))
            out.append(("agg", kind, es, o, b))
        return out

    @staticmethod
    def op(o):
        if isinstance(o, str):
            return o
        if isinstance(o, T) and o.op == "hole" and isinstance(o.a[0], Const):
            return {"==": "="}.get(o.a[0].v, o.a[0].v)
        raise Unclear("comparison with holes")

    def elems(self, fn, elems):
        out = []
        many = len(elems) > 1 or any(e.op == "rep" for e in elems)
        for e in flat(elems):
            if e.op == "elem":
                tup = tuple(self.term(x) for x in e.a[0])
                conds = [x for y in flat(e.a[1]) for x in self.lit(y)]
            else:
                l = e.a[0] if e.op == "cond" else e
                conds = [x for y in flat(e.a[1]) for x in self.lit(y)] if e.op == "cond" else []
                ls = self.lit(l)
                if len(ls) != 1:
                    raise Unclear("set element")
                if ls[0][0] == "lit":
                    tup = (("f", ("not " * ls[0][1]) + ls[0][2], ls[0][3]),)
                else:
                    tup = (("f", repr(ls[0][0]), ()),)
                conds = ls + conds
            out.append((tup, tuple(conds), many))
        return tuple(out)


# ------------------------------------------------------------------ rules
class NRule:
    __slots__ = ("head", "body", "loc", "src")

    def __init__(self, head, body, loc=None, src=""):
        self.head, self.body, self.loc, self.src = head, body, loc, src

    def __repr__(self):
        return f"{show(self.head)} :- {', '.join(map(show, self.body))}"


def show(x):
    if x is None:
        return ""
    k = x[0]
    if k == "a":
        s = ""
        for b, c in x[1]:
            n = b[1] if b[0] == "v" else (b[1].args[0] if b[1].op == "arg" else "?")
            n = n.split("#")[0] if b[0] == "v" else n
            s += (" + " if c > 0 and s else "-" if c < 0 and not s else " - " if c < 0 else "") + (n if abs(c) == 1 else f"{abs(c)}*{n}")
        if x[2] or not s:
            s += (f" + {x[2]}" if x[2] > 0 else f" - {-x[2]}") if s else str(x[2])
        return s
    if k == "s":
        return f'"{x[1]}"'
    if k == "c":
        return x[1]
    if k == "f":
        return f"{x[1]}({', '.join(map(show, x[2]))})" if x[2] else x[1]
    if k == "t":
        return f"({', '.join(map(show, x[1]))})"
    if k == "abs":
        return f"|{show(x[1])}|"
    if k == "op":
        return f"({show(x[2])} {x[1]} {show(x[3])})"
    if k == "i":
        return f"{show(x[1])}..{show(x[2])}"
    if k == "p":
        return "(" + ";".join(sorted(map(show, x[1]))) + ")"
    if k == "lit":
        return "not " * x[1] + x[2] + (f"({', '.join(map(show, x[3]))})" if x[3] else "")
    if k == "cmp":
        return f"{show(x[2])} {x[1]} 0"
    if k == "cmpx":
        return f"{show(x[2])} {x[1]} {show(x[3])}"
    if k == "in":
        return f"{show(x[1])} = {show(x[2])}..{show(x[3])}"
    if k == "agg":
        return f"{x[1]} {{ {'; '.join(', '.join(map(show, t)) + ' : ' + ', '.join(map(show, c)) for t, c, _ in x[2])} }} {x[3]} {show(x[4])}"
    if k == "choice":
        return "{ " + "; ".join(show(t[0]) + " : " + ", ".join(map(show, c)) for t, c, _ in x[1]) + " } " + " ".join(f"{o} {show(b)}" for o, b in x[2])
    if k == "cond":
        return show(x[1]) + " : " + ", ".join(map(show, x[2]))
    return str(x)


def lit_vars(l):
    k = l[0]
    if k == "lit":
        return set().union(*map(tvars, l[3])) if l[3] else set()
    if k == "cmp":
        return tvars(l[2])
    if k == "cmpx":
        return tvars(l[2]) | tvars(l[3])
    if k == "in":
        return tvars(l[1]) | tvars(l[2]) | tvars(l[3])
    if k == "agg":
        return set().union(tvars(l[4]), *[set().union(*map(tvars, t), *map(lit_vars, c)) for t, c, _ in l[2]])
    if k == "cond":
        return lit_vars(l[1]).union(*map(lit_vars, l[2]))
    if k == "choice":
        return set().union(*[tvars(b) for _, b in l[2]], *[set().union(*map(tvars, t), *map(lit_vars, c)) for t, c, _ in l[1]])
    return set()


def sub_lit(l, env):
    k = l[0]
    if k == "lit":
        return ("lit", l[1], l[2], tuple(sub(a, env) for a in l[3]))
    if k == "cmp":
        return Norm.cmp(l[1], sub(l[2], env), num(0))
    if k == "cmpx":
        return Norm.cmp(l[1], sub(l[2], env), sub(l[3], env))
    if k == "in":
        return ("in", sub(l[1], env), sub(l[2], env), sub(l[3], env))
    if k == "agg":
        return ("agg", l[1], tuple((tuple(sub(x, env) for x in t), tuple(sub_lit(y, env) for y in c), m) for t, c, m in l[2]), l[3], sub(l[4], env))
    if k == "choice":
        return ("choice", tuple((tuple(sub(x, env) for x in t), tuple(sub_lit(y, env) for y in c), m) for t, c, m in l[1]), tuple((o, sub(b, env)) for o, b in l[2]))
    if k == "cond":
        return ("cond", sub_lit(l[1], env), frozenset(sub_lit(x, env) for x in l[2]))
    return l


def path_literals(nm, pc):
    """Path conditions on loop variables -> list of alternatives, each a list of literals (disjunctive normal form)."""
    alts = [[]]
    for f in pc:
        new = formula(nm, f, True)
        alts = [a + b for a in alts for b in new]
        if len(alts) > 64:
            raise Unclear("path condition")
    return alts


def formula(nm, f, pol):
    if f is True or f is False:
        return [[]] if f is pol else []
    if f[0] in ("and", "or"):
        parts = [formula(nm, x, pol) for x in f[1]]
        if (f[0] == "and") == pol:
            out = [[]]
            for p in parts:
                out = [a + b for a in out for b in p]
            return out
        return [a for p in parts for a in p]
    s, p = f[1], f[2] is pol
    return [[atom(nm, s, p)]]


def atom(nm, s, p):
    if isinstance(s, Sym):
        if s.op in ("eq", "lt"):
            a, b = s.args
            g = edge_key(nm, a)
            if g is not None and b in (Const(True), Const(None), Const(False)):
                if b == Const(True):
                    return ("lit", 0 if p else 1, "py_edge", g)
                return ("lit", 0 if p else 1, f"py_edge_{b.v}", g)
            x, y = nm.value(a), nm.value(b)
            if x[0] == "a" and y[0] == "a":
                return nm.cmp(("=" if p else "!=") if s.op == "eq" else ("<" if p else ">="), x, y)
        if s.op == "in" and isinstance(s.args[0], Tup) and len(s.args[0].items) == 2:
            return ("lit", 0 if p else 1, nm.coll(s.args[1]), tuple(nm.value(x) for x in s.args[0].items))
        if s.op == "truthy":
            g = edge_key(nm, s.args[0])
            if g is not None:
                return ("lit", 0 if p else 1, "py_edge", g)
            if p:
                return ("bool", "any " + nm.coll(s.args[0]))
        g = edge_key(nm, s)
        if g is not None:
            return ("lit", 0 if p else 1, "py_edge", g)
    return ("bool", f"{'' if p else 'not '}{s!r}"[:200])


def edge_key(nm, v):
    """get(puzzle.edge, (r, c, side, label)) -> (r, c, side)"""
    if isinstance(v, Sym) and v.op in ("get", "lookup") and len(v.args) >= 2 and isinstance(v.args[1], Tup) and len(v.args[1].items) >= 3:
        base = v.args[0]
        if isinstance(base, Sym) and (base.op == "attr" or base.op == "arg"):
            r, c, d = v.args[1].items[:3]
            nmv = getattr(d, "name", None)
            if nmv:
                return (nm.value(r), nm.value(c), ("s", nmv))
    return None


def normalise(tree, loops=None, pc=(), loc=None):
    """Parsed rule -> list of NRule."""
    if tree.op != "rule":
        args = []
        for x in tree.a:
            args.append(Norm({}).pred(x) if isinstance(x, tuple) else show(Norm({}).term(x)) if isinstance(x, T) else str(x))
        return [NRule(("directive", tree.op, tuple(args)), (), loc)]
    nm = Norm(loops or {})
    head, body = tree.a
    lits = [x for y in flat(body) for x in nm.lit(y)]
    heads = head_of(nm, head)
    alts = path_literals(nm, pc)
    out = []
    for h, more in heads:
        for a in alts:
            out.extend(finish(h, lits + more + a + nm.extra, nm, loc))
    return out


def head_of(nm, h):
    """-> [(head, literals moved to the body)]"""
    if h.op == "false":
        return [(("none",), [])]
    if h.op == "lit":
        neg, name, args = h.a
        res = []
        for aset in nm.argsets(args):
            p = nm.pred(name)
            if neg % 2:
                res.append((("none",), [("lit", 0, p, aset)]))
            elif neg:
                res.append((("none",), [("lit", 1, p, aset)]))
            else:
                res.append((("lit", 0, p, aset), []))
        return res
    if h.op == "agg":
        neg, fn, left, elems, right = h.a
        if fn is not None or neg:
            raise Unclear("aggregate head")
        g = []
        if left is not None:
            g.append((FLIP[nm.op(left[1])], nm.term(left[0])))
        if right is not None:
            g.append((nm.op(right[0]), nm.term(right[1])))
        g = [(">=", a_add(b, num(1))) if o == ">" else ("<=", a_add(b, num(-1))) if o == "<" else (o, b) for o, b in g]
        es = tuple((t, tuple(x for x in c if x[0] != "lit" or ("f", x[2], x[3]) != t[0]), m) for t, c, m in nm.elems(None, elems))
        return [(("choice", es, tuple(sorted(g, key=repr))), [])]
    if h.op == "cmp":
        l, = nm.lit(h)
        raise Unclear("comparison as head")
    raise Unclear(f"head {h.op}")


def finish(head, lits, nm, loc):
    """Intervals, equalities, displacements."""
    lits = list(lits)
    # intervals and pools among the head's arguments
    if head[0] == "lit":
        args = []
        for a in head[3]:
            if a[0] == "i":
                v = var(nm.fresh("h"))
                lits.append(("in", v, a[1], a[2]))
                args.append(v)
            else:
                args.append(a)
        head = ("lit", 0, head[2], tuple(args))
    for i, l in enumerate(lits):
        if l[0] == "lit" and l[1] == 0 and any(a[0] == "i" for a in l[3]):
            args = []
            for a in l[3]:
                if a[0] == "i":
                    v = var(nm.fresh("h"))
                    lits.append(("in", v, a[1], a[2]))
                    args.append(v)
                else:
                    args.append(a)
            lits[i] = ("lit", 0, l[2], tuple(args))
    changed = True
    while changed:
        changed = False
        for l in lits:
            env = None
            if l[0] == "cmp" and l[1] == "=":
                if not l[2][1] and l[2][2] == 0:
                    lits = [x for x in lits if x is not l]
                    changed = True
                    break
                if not l[2][1]:
                    return []
                env = solve_eq(l[2])
            elif l[0] == "cmpx" and l[1] == "=" and l[2][0] == "t" and l[3][0] == "t" and len(l[2][1]) == len(l[3][1]):
                lits = [x for x in lits if x is not l] + [Norm.cmp("=", x, y) for x, y in zip(l[2][1], l[3][1])]
                changed = True
                break
            elif l[0] == "cmpx" and l[1] == "=":
                for x, y in ((l[2], l[3]), (l[3], l[2])):
                    v = only_var(x)
                    if v and v[1] == 0 and v[0] not in tvars(y) and y[0] in ("s", "f", "c", "t"):
                        env = {v[0]: y}
                        break
            if env:
                rest = [x for x in lits if x is not l]
                lits = [sub_lit(x, env) for x in rest]
                head = sub_head(head, env)
                changed = True
                break
    kept = []
    for l in lits:
        if l[0] == "in" and not tvars(l[1]):
            if at_least_0(a_add(l[1], l[2], -1)) and at_least_0(a_add(l[3], l[1], -1)):
                continue
        if l[0] == "bool" and l[1].startswith("any ") and any(x[0] == "lit" and x[1] == 0 and x[2] == l[1][4:] for x in lits):
            continue
        kept.append(l)
    lits = kept
    out = []
    for h, ls in split_different(head, displace(head, lits)):
        ls = tidy(h, pairs(h, rename_local(h, ls, nm), nm))
        if ls is not None:
            out.append(NRule(h, tuple(dict.fromkeys(ls)), loc))
    return [merge_bound(r) for r in out]


def outer_vars(head, lits):
    glob = set()
    for l in lits:
        glob |= tvars(l[4]) if l[0] == "agg" else set() if l[0] == "cond" else lit_vars(l)
    return glob | (lit_vars(head) if head[0] in ("lit", "choice") else set())


def split_different(head, cases):
    """A count other than n is one above n or one below n."""
    for h, ls in cases:
        i = next((i for i, l in enumerate(ls) if l[0] == "agg" and l[1] == "#count" and l[3] == "!=" and l[4][0] == "a"), None)
        if i is None or head[0] != "none":
            yield h, ls
            continue
        l = ls[i]
        for o, b in ((">=", a_add(l[4], num(1))), ("<=", a_add(l[4], num(-1)))):
            if o == ">=" or b[1] or b[2] >= 0:
                yield from split_different(head, [(h, ls[:i] + [(*l[:3], o, b)] + ls[i + 1:])])


def pairs(head, lits, nm):
    """At least two of a set: two different ones."""
    out = []
    for l in lits:
        if not (l[0] == "agg" and l[1] == "#count" and len(l[2]) == 1 and not l[2][0][2] and l[3] == ">=" and l[4] == num(2)):
            out.append(l)
            continue
        tup, conds, _ = l[2][0]
        local = (set().union(*map(tvars, tup)) | set().union(*map(lit_vars, conds))) - outer_vars(head, lits)
        a, b = ({v: var(nm.fresh(v.split("#")[0])) for v in local} for _ in "ab")
        ta, tb = (tuple(sub(x, e) for x in tup) for e in (a, b))
        if len(tup) == 1 and only_var(tup[0]) and only_var(tup[0])[1] == 0:
            diff = Norm.cmp("<", ta[0], tb[0])
        elif all(only_var(x) and only_var(x)[1] == 0 for x in tup):
            diff = ("cmpx", "!=", *sorted((("t", ta), ("t", tb)), key=repr))
        else:
            out.append(l)
            continue
        out += [sub_lit(c, a) for c in conds] + [sub_lit(c, b) for c in conds] + [diff]
    return out


def tidy(head, lits):
    """Comparisons that are decided, implied, or symmetric. None: the body cannot hold."""
    lits = list(lits)
    i = 0
    while i < len(lits):
        l = lits[i]
        if l[0] == "cmpx" and l[1] == "!=" and l[2][0] == "t" == l[3][0] and len(l[2][1]) == len(l[3][1]):
            parts = [Norm.cmp("!=", x, y) for x, y in zip(l[2][1], l[3][1])]
            if any(p[0] == "cmp" and not p[2][1] and p[2][2] != 0 for p in parts):
                del lits[i]
                continue
            parts = [p for p in parts if not (p[0] == "cmp" and not p[2][1])]
            if not parts:
                return None
            if len(parts) == 1:
                l = lits[i] = parts[0]
        if l[0] == "cmp" and not l[2][1]:
            k = l[2][2]
            if not {"=": k == 0, "!=": k != 0, "<=": k <= 0}.get(l[1], True):
                return None
            if l[1] in ("=", "!=", "<="):
                del lits[i]
                continue
        rest = lits[:i] + lits[i + 1:]
        if l[0] == "cmp" and l[1] == "!=" and clash(rest, [l[2]]) or l[0] == "cmpx" and l[1] == "!=" and l[2][0] == "t" == l[3][0] and clash(rest, [a_add(x, y, -1) for x, y in zip(l[2][1], l[3][1]) if x[0] == "a" == y[0]]):
            del lits[i]
            continue
        if l[0] == "cmp" and l[1] == "!=" and l[2][2] == 0 and len(l[2][1]) == 2 and sorted(c for _, c in l[2][1]) == [-1, 1] and all(b[0] == "v" for b, _ in l[2][1]):
            (x, _), (y, _) = l[2][1]
            x, y = x[1], y[1]
            hv = lit_vars(head) if head[0] in ("lit", "choice") else set()
            env = {x: var(y), y: var(x)}
            if x not in hv and y not in hv and {repr(sub_lit(z, env)) for z in rest} == {repr(z) for z in rest}:
                lits[i] = Norm.cmp("<", var(x), var(y))
        i += 1
    return lits


def clash(lits, eqs):
    """Do the equations make the literals contradictory?"""
    for _ in range(len(eqs)):
        if not eqs:
            break
        d, *eqs = eqs
        if not d[1]:
            if d[2] != 0:
                return True
            continue
        env = solve_eq(d)
        if env is None:
            return False
        lits = [sub_lit(x, env) for x in lits]
        eqs = [sub(x, env) for x in eqs]
    seen = {(l[1] % 2, l[2], l[3]) for l in lits if l[0] == "lit"}
    return any((1 - n, p, a) in seen for n, p, a in seen)


def at_least_0(t):
    """Provable for boards with at least one row and one column."""
    low = t[2]
    for b, c in t[1]:
        if b[0] != "h" or b[1].op != "arg" or b[1].args[0] not in ("rows", "cols") or c < 0:
            return False
        low += c
    return low >= 0


def sub_head(h, env):
    return sub_lit(h, env) if h[0] in ("lit", "choice") else h


def solve_eq(d):
    """Affine d = 0 -> substitution for one of its variables with coefficient 1 or -1."""
    best = None
    for b, c in d[1]:
        if b[0] == "v" and abs(c) == 1:
            if best is None or "#" in b[1] and "#" not in best[0][1] or b[1] > best[0][1] and ("#" in b[1]) == ("#" in best[0][1]):
                best = (b, c)
    if best is None:
        return None
    b, c = best
    rest = aff({x: k for x, k in d[1] if x != b}, d[2])
    return {b[1]: a_scale(rest, -1 if c == 1 else 1)}


def displace(head, lits):
    """Expand comparisons over |X - Y| that admit finitely many differences."""
    dist = [l for l in lits if l[0] == "cmpx" and has_abs(l)]
    if not dist:
        return [(head, lits)]
    diffs = []
    for l in dist:
        for d in abs_args(l):
            if d not in diffs:
                diffs.append(d)
    for d in diffs:
        if any(b[0] != "v" for b, _ in d[1]) or len(d[1]) != 2 or sorted(c for _, c in d[1]) != [-1, 1]:
            return [(head, lits)]
    if len(diffs) > 3:
        return [(head, lits)]
    K = 4
    sols = []
    for vals in itertools.product(range(-K, K + 1), repeat=len(diffs)):
        env = dict(zip(diffs, vals))
        try:
            if all(holds(l, env) for l in dist):
                sols.append(vals)
        except Unclear:
            return [(head, lits)]
    if any(abs(v) > K - 2 for s in sols for v in s) or not sols:
        return [(head, lits)] if sols else []
    rest = [l for l in lits if l not in dist]
    out = []
    for s in sols:
        h, ls, ok = head, list(rest), True
        for d, v in zip(diffs, s):
            e = a_add(d, num(-v))
            if h[0] in ("lit", "choice"):
                pass
            env = solve_eq(e)
            if env is None:
                ok = False
                break
            h = sub_head(h, env)
            ls = [sub_lit(x, env) for x in ls]
        if ok:
            out.append((h, ls))
    return out


def has_abs(l):
    return any(True for _ in abs_args(l))


def abs_args(l):
    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == "abs" and t[1][0] == "a":
                yield t[1]
            elif t[0] == "op":
                yield from go(t[2])
                yield from go(t[3])
            elif t[0] == "t":
                for x in t[1]:
                    yield from go(x)
    yield from go(l[2])
    yield from go(l[3])


def holds(l, env):
    def val(t):
        if t[0] == "a" and not t[1]:
            return t[2]
        if t[0] == "abs":
            return abs(env[t[1]])
        if t[0] == "op":
            a, b = val(t[2]), val(t[3])
            return a + b if t[1] == "+" else a - b if t[1] == "-" else a * b if t[1] == "*" else fail()
        raise Unclear("distance")

    def fail():
        raise Unclear("distance")
    a, b = val(l[2]), val(l[3])
    return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[l[1]]


def rename_local(head, lits, nm):
    """Variables local to an aggregate get names of their own; counted tuples are reduced to what tells them apart."""
    def outer(l):
        if l[0] == "agg":
            return tvars(l[4])
        if l[0] == "cond":
            return set()
        return lit_vars(l)
    glob = set().union(*(outer(l) for l in lits)) if lits else set()
    glob |= lit_vars(head) if head[0] == "lit" else set()
    if head[0] == "choice":
        pass
    out = []
    for l in lits:
        if l[0] == "agg":
            es = []
            for tup, conds, many in l[2]:
                loc = (set().union(*map(tvars, tup)) | set().union(*map(lit_vars, conds))) - glob
                env = {v: var(nm.fresh("L" + v.split("#")[0])) for v in loc}
                tup = tuple(sub(x, env) for x in tup)
                conds = tuple(sub_lit(x, env) for x in conds)
                if l[1] == "#count":
                    tup = count_key(tup, {v[1][0][0][1] for v in env.values()}, many)
                es.append((tup, tuple(dict.fromkeys(conds)), many))
            l = ("agg", l[1], tuple(es), l[3], l[4])
        out.append(l)
    return out


def count_key(tup, local, many):
    flatd = []

    def go(t):
        if t[0] == "t":
            for x in t[1]:
                go(x)
        elif t[0] == "f":
            if many:
                flatd.append(("f", t[1], ()))
            for x in t[2]:
                go(x)
        elif tvars(t) & local:
            v = only_var(t)
            flatd.append(var(v[0]) if v else t)
        elif many:
            flatd.append(t)
    for t in tup:
        go(t)
    return tuple(sorted(set(flatd), key=repr))


def merge_bound(r):
    """#count{..} = X, X op t  ->  #count{..} op t, when X is used nowhere else."""
    for l in r.body:
        if l[0] == "agg" and l[3] == "=":
            v = only_var(l[4])
            if not v or v[1]:
                continue
            rest = [x for x in r.body if x is not l]
            users = [x for x in rest if v[0] in lit_vars(x)]
            if len(users) == 1 and users[0][0] == "cmp" and v[0] not in (lit_vars(r.head) if r.head[0] in ("lit", "choice") else ()):
                o, d = users[0][1], users[0][2]
                c = dict(d[1])[("v", v[0])]
                if abs(c) != 1:
                    continue
                bound = a_scale(aff({b: k for b, k in d[1] if b != ("v", v[0])}, d[2]), -1 if c == 1 else 1)
                op = o if c == 1 else FLIP[o]
                return merge_bound(NRule(r.head, tuple([x for x in rest if x is not users[0]] + [("agg", l[1], l[2], op, bound)]), r.loc, r.src))
    return r


# ------------------------------------------------------------------ subsumption
def unify(c, o, env):
    """Extend env (variable of c -> affine term over o's variables) so that c becomes o; None when impossible."""
    if c[0] == "a":
        free = [b[1] for b, _ in c[1] if b[0] == "v" and b[1] not in env]
        if not free:
            return env if sub(c, env) == o else None
        if len(free) > 1 or o[0] != "a":
            if len(free) == 1 and c == var(free[0]):
                e = dict(env)
                e[free[0]] = o
                return e
            return None
        v = free[0]
        k = dict(c[1])[("v", v)]
        if k != 1:
            return None
        try:
            t = a_add(o, sub(aff({b: x for b, x in c[1] if b != ("v", v)}, c[2]), env), -1)
        except Unclear:
            return None
        e = dict(env)
        e[v] = t
        return e
    if c[0] != o[0]:
        return None
    if c[0] in ("s", "c"):
        return env if c == o else None
    if c[0] == "f":
        return unify_all(c[2], o[2], env) if c[1] == o[1] else None
    if c[0] == "t":
        return unify_all(c[1], o[1], env)
    if c[0] == "op":
        if c[1] != o[1]:
            return None
        e = unify_all((c[2], c[3]), (o[2], o[3]), env)
        if e is None and c[1] in "+*":
            e = unify_all((c[2], c[3]), (o[3], o[2]), env)
        return e
    if c[0] == "abs":
        e = unify(c[1], o[1], env)
        if e is None and o[1][0] == "a":
            e = unify(c[1], a_scale(o[1], -1), env)
        return e
    if c[0] == "i":
        return unify_all((c[1], c[2]), (o[1], o[2]), env)
    if c[0] == "p":
        return env if frozenset(sub(x, env) for x in c[1]) == o[1] else None
    return env if sub(c, env) == o else None


def unify_all(cs, os, env):
    if len(cs) != len(os):
        return None
    for c, o in zip(cs, os):
        env = unify(c, o, env)
        if env is None:
            return None
    return env


def lit_unify(c, o, env, know):
    """All environments extending env under which literal c becomes o."""
    if c[0] != o[0]:
        return
    k = c[0]
    if k == "lit":
        if c[1] == o[1] and c[2] == o[2]:
            e = unify_all(c[3], o[3], env)
            if e is not None:
                yield e
            if len(c[3]) == 4 and c[2] in know.symmetric:
                e = unify_all(c[3], o[3][2:] + o[3][:2], env)
                if e is not None:
                    yield e
    elif k == "cmp":
        if c[1] == o[1]:
            e = unify(c[2], o[2], env)
            if e is not None:
                yield e
            elif c[1] in ("=", "!="):
                e = unify(c[2], a_scale(o[2], -1), env)
                if e is not None:
                    yield e
    elif k == "cmpx":
        if c[1] == o[1]:
            e = unify_all(c[2:], o[2:], env)
            if e is not None:
                yield e
            if c[1] in ("=", "!="):
                e = unify_all(c[2:], (o[3], o[2]), env)
                if e is not None:
                    yield e
    elif k == "in":
        e = unify_all(c[1:], o[1:], env)
        if e is not None:
            yield e
    elif k == "agg":
        if c[1] == o[1] and c[3] == o[3]:
            e = unify(c[4], o[4], env)
            if e is not None:
                yield from elems_unify(c[2], o[2], e, know, c[1] == "#count")
    elif k == "cond":
        for e in lit_unify(c[1], o[1], env, know):
            yield from set_unify(tuple(c[2]), tuple(o[2]), e, know)
    elif c == o:
        yield env


def elems_unify(cs, os, env, know, count):
    if len(cs) != len(os):
        return
    if not cs:
        yield env
        return
    c, rest = cs[0], cs[1:]
    for i, o in enumerate(os):
        for e in elem_unify(c, o, env, know, count):
            yield from elems_unify(rest, os[:i] + os[i + 1:], e, know, count)


def elem_unify(c, o, env, know, count):
    # conditions both ways
    co, cc = know.saturate(o[1]), know.saturate(c[1])
    for e in set_match(c[1], co, env, know):
        if not all(any(True for _ in lit_match(sub_lit_safe(x, e), y, know)) for y in o[1] for x in [None] if False):
            continue
        inst = [sub_lit_safe(x, e) for x in cc]
        if not all(any(i == y or same_lit(i, y, know) for i in inst) for y in o[1]):
            continue
        if count:
            key = {sub(t, e) for t in c[0]}
            key = {var(only_var(t)[0]) if only_var(t) else t for t in key}
            if key == set(o[0]):
                yield e
        elif len(c[0]) == len(o[0]) and all(sub(a, e) == b for a, b in zip(c[0], o[0])):
            yield e


def same_lit(i, y, know):
    return any(True for _ in lit_unify(i, y, {v: var(v) for v in lit_vars(i)}, know)) if i[0] == y[0] else False


def lit_match(i, y, know):
    yield from lit_unify(i, y, {v: var(v) for v in lit_vars(i)}, know)


def sub_lit_safe(l, e):
    return sub_lit(l, e)


def set_match(cs, os, env, know):
    """Every literal of cs becomes one of os."""
    cs = sorted(cs, key=lambda l: (l[0] != "lit", l[0] in ("cmp", "cmpx"), l[0] == "agg"))

    def go(i, e):
        if i == len(cs):
            yield e
            return
        for o in os:
            for e2 in lit_unify(cs[i], o, e, know):
                yield from go(i + 1, e2)
    yield from go(0, env)


def set_unify(cs, os, env, know):
    if len(cs) != len(os):
        return
    yield from set_match(cs, os, env, know)


class Knowledge:
    """What a literal implies: {predicate: [(argument positions of a cell)]} for cells known to be on the board."""

    def __init__(self, on_grid=None, symmetric=(), implied=None):
        self.on_grid = on_grid or {}
        self.symmetric = set(symmetric)
        self.implied = implied or []  # (literal pattern, implied literal), same variables

    def saturate(self, lits):
        out = list(dict.fromkeys(lits))
        i = 0
        while i < len(out):
            l = out[i]
            i += 1
            if l[0] != "lit" or l[1] != 0:
                continue
            for pos in self.on_grid.get(l[2], ()):
                if max(pos) < len(l[3]):
                    g = ("lit", 0, "grid", tuple(l[3][p] for p in pos))
                    if g not in out:
                        out.append(g)
            for pat, imp in self.implied:
                if pat[2] == l[2] and len(pat[3]) == len(l[3]):
                    e = unify_all(pat[3], l[3], {})
                    if e is not None and lit_vars(imp) <= set(e):
                        g = sub_lit(imp, e)
                        if g not in out:
                            out.append(g)
            if len(out) > 80:
                break
        return out


def covers(c, o, know):
    """Rule c, under some substitution, is part of rule o: whatever o derives or forbids, c does."""
    if c.head[0] != o.head[0]:
        return False
    if c.head[0] == "directive":
        return c.head == o.head
    body = know.saturate(o.body)
    envs = [{}]
    if c.head[0] == "lit":
        if c.head[2] != o.head[2]:
            return False
        e = unify_all(c.head[3], o.head[3], {})
        envs = [] if e is None else [e]
    elif c.head[0] == "choice":
        if len(c.head[2]) != len(o.head[2]) or len(c.head[1]) != len(o.head[1]):
            return False
        for e in set_match(c.body, body, {}, know):
            for p in itertools.permutations(o.head[1]) if len(o.head[1]) <= 4 else [o.head[1]]:
                x = dict(e)
                ok = True
                for (t, cd, _), (t2, cd2, _) in zip(c.head[1], p):
                    x = unify_all(t, t2, x)
                    if x is None:
                        ok = False
                        break
                    more = list(set_match(cd, know.saturate(cd2 + o.body), x, know))
                    if not more or len(cd2) > len(know.saturate(cd + c.body)):
                        ok = False
                        break
                    x = more[0]
                if ok and all(a[0] == b[0] and sub(a[1], x) == b[1] for a, b in zip(c.head[2], o.head[2])):
                    return True
        return False
    for e in envs:
        for _ in set_match(c.body, body, e, know):
            return True
    return False


def permutations_closed(rules):
    """p(perm of x) :- p(x): apply the permutation to every other rule of p, and drop the rule."""
    perms, rest = {}, []
    for r in rules:
        if r.head[0] == "lit" and len(r.body) == 1 and r.body[0][0] == "lit" and r.body[0][1] == 0 and r.body[0][2] == r.head[2]:
            a, b = r.head[3], r.body[0][3]
            if len(a) == len(b) and sorted(a, key=repr) == sorted(b, key=repr) and all(only_var(x) and only_var(x)[1] == 0 for x in a) and len(set(a)) == len(a):
                perms.setdefault(r.head[2], []).append([b.index(x) for x in a])
                continue
        rest.append(r)
    out = list(rest)
    seen = {repr(r) for r in out}
    i = 0
    while i < len(out):
        r = out[i]
        i += 1
        for p in perms.get(r.head[2], ()) if r.head[0] == "lit" else ():
            n = NRule(("lit", 0, r.head[2], tuple(r.head[3][k] for k in p)), r.body, r.loc)
            if repr(n) not in seen and len(out) < 200:
                seen.add(repr(n))
                out.append(n)
    return out


def text_rules(text):
    """Contract text -> list of NRule; $name is a symbol of the analysed call."""
    import re
    out = []
    for stmt in [s.strip() for s in text.strip().split("\n") if s.strip()]:
        nodes = []
        for part in re.split(r"(\$\w+)", stmt):
            if part.startswith("$"):
                nodes.append(("H", Sym("arg", part[1:], "int"), None))
            elif part:
                nodes.append(("L", part, None))
        for r in normalise(parse(nodes)):
            r.src = stmt
            out.append(r)
    return out
