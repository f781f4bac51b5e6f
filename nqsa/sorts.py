"""Which numbers are row positions and which are column positions.

A weight (r, c) counts how many row positions and column positions a number is the sum of: a row is (1, 0), a distance between
rows or a constant (0, 0). None: unknown. Evidence is strong when a position itself is involved, weak when only the board's extents are.
"""
from .asp import T
from .domain import Const, EnumV, Sym, Tup
from .prog import flat
from .types_ import coll_name, is_cell, is_cells

ROW, COL, FREE = (1, 0), (0, 1), (0, 0)


def w_add(a, b, k=1):
    return None if a is None or b is None else (a[0] + k * b[0], a[1] + k * b[1])


class Weights:
    def __init__(self, loops, square=False, init=None, bounds=None):
        self.bounds = bounds or {}
        self.loops = loops
        self.init = init or {}
        self.square = square
        self.memo = {}

    def __call__(self, v):
        """-> (weight, strong) of a Python value."""
        try:
            if v in self.memo:
                return self.memo[v]
        except TypeError:
            return None, False
        self.memo[v] = (None, False)
        x = self.compute(v)
        self.memo[v] = x
        return x

    def compute(self, v):
        if isinstance(v, bool):
            return None, False
        if isinstance(v, int):
            return FREE, False
        if isinstance(v, Const):
            return (FREE, False) if isinstance(v.v, int) and not isinstance(v.v, bool) else (None, False)
        if not isinstance(v, Sym):
            return None, False
        op, a = v.op, v.args
        if op == "attr" and a[0] == Sym("puzzle") and a[1] in ("row", "col"):
            if self.square:
                return None, False
            return (ROW if a[1] == "row" else COL), False
        if op == "lin":
            w, strong = FREE, False
            for t, k in a[0]:
                x, s = self(t)
                w = w_add(w, x, k)
                strong = strong or s
            return w, strong and w is not None
        if op == "idx":
            lp = self.loops.get(a[0])
            if lp is None or lp.kind != "range" or lp.args is None:
                return None, False
            lo, hi, _ = lp.args
            (x, s), (y, t) = self(lo), self(hi)
            if x is None or y is None:
                return None, False
            if x == FREE or x == y:
                return (y, s or t) if y in (ROW, COL, FREE) else (None, False)
            if y == FREE:  # counting down from an extent
                return (x, s or t) if x in (ROW, COL) else (None, False)
            return None, False
        if op == "item":
            return self.item(a[0], a[1])
        if op in ("lv", "lout"):
            iv = self.init.get((a[0], a[1]))
            if iv is None or iv == v:
                return None, False
            w = self(iv)
            if w[0] == FREE and self.bounds.get((a[0], a[1])):  # counts from a constant up to an extent
                bs = {self(b)[0] for b in self.bounds[(a[0], a[1])]}
                if len(bs) == 1 and bs & {ROW, COL}:
                    return next(iter(bs)), False
            if w[0] == FREE:  # a constant to start with, anything later
                return None, False
            return w
        if op == "num" and a[0] == "//" and isinstance(a[2], Const) and isinstance(a[2].v, int):
            x, st = self(a[1])
            k = a[2].v
            if x in (ROW, COL):
                return x, False
            if x is not None and k > 1 and x in ((k, 0), (0, k)):
                return (x[0] // k, x[1] // k), st
            return None, False
        return None, False

    def item(self, base, i):
        if not isinstance(i, Const) or not isinstance(i.v, int):
            return None, False
        if isinstance(base, Tup):
            if -len(base.items) <= i.v < len(base.items):
                return self(base.items[i.v])
            return None, False
        if not isinstance(base, Sym):
            return None, False
        if base.op == "key" and len(base.args) > 1 and coll_name(base.args[1]) and i.v in (0, 1):
            return (ROW, COL)[i.v], True
        if is_cell(base) and i.v in (0, 1):
            return (ROW, COL)[i.v], True
        if base.op in ("elem", "celem"):
            src = base.args[-1]
            parts = self.parts(src)
            if parts:
                ws = set()
                for p in parts:
                    ws.add(self.item(p, i))
                if len({w for w, _ in ws}) == 1:
                    return next(iter(ws))[0], all(s for _, s in ws)
        return None, False

    def parts(self, src):
        """The items a sequence is known to consist of, None when unknown."""
        if isinstance(src, Sym) and src.op in ("seq", "seqparts"):
            out = []
            ps = src.args[-1]
            if isinstance(ps, Tup):
                return None

            def go(ps):
                for p in ps:
                    if p[0] == "I":
                        out.append(p[1])
                    elif p[0] == "A":
                        for _, x in p[1]:
                            if not go(x):
                                return False
                    elif p[0] == "R":
                        if not go(p[2]):
                            return False
                    else:
                        return False
                return True
            return out if go(ps) else None
        return None


def upper_bounds(atoms):
    """Loop-carried variables and what they are required to stay below."""
    from .arith import lin_build, to_lin
    out = {}
    for s in atoms:
        if not (isinstance(s, Sym) and s.op == "lt" and len(s.args) == 2):
            continue
        d = to_lin(lin_build([(s.args[0], 1), (s.args[1], -1)], 0))
        if d is None:
            continue
        for t, k in d[0].items():
            if k == 1 and isinstance(t, Sym) and t.op in ("lv", "lout"):
                rest = [(u, -c) for u, c in d[0].items() if u != t]
                if rest:
                    out.setdefault((t.args[0], t.args[1]), set()).add(lin_build(rest, 0))
    return out


# ------------------------------------------------------------------ terms of the generated rules
class Lin:
    """Sum of variables and a weight."""

    def __init__(self, vars=None, w=FREE, strong=False, ok=True):
        self.vars, self.w, self.strong, self.ok = vars or {}, w, strong, ok

    def plus(self, o, k=1):
        v = dict(self.vars)
        for n, c in o.vars.items():
            v[n] = v.get(n, 0) + k * c
        return Lin({n: c for n, c in v.items() if c}, w_add(self.w, o.w, k) if self.w is not None and o.w is not None else None, self.strong or o.strong, self.ok and o.ok and self.w is not None and o.w is not None)

    @property
    def simple(self):
        """The one variable this is, up to a distance."""
        if self.ok and self.w == FREE and len(self.vars) == 1:
            (n, c), = self.vars.items()
            if c == 1:
                return n
        return None


UNKNOWN = Lin(ok=False, w=None)


class RuleTerms:
    """Occurrences of a rule: positions (predicate, index) <- Lin, and sums that must be of one kind."""

    def __init__(self, rule, weights):
        self.w = weights
        self.rule = rule
        self.args = []  # (predicate key, index, Lin, text)
        self.sums = []  # (Lin, text)  weight of a difference that is compared
        self.same = []  # (Lin, Lin, text)
        self.scope = 0
        self.n = 0
        self.glob = None
        self.local = {}
        if rule.tree.op == "rule":
            self.run()

    # variables that occur outside of sets are shared by the whole rule
    def run(self):
        head, body = self.rule.tree.a
        self.glob = set()
        for x in flat(body):
            if x.op in ("lit", "cmp"):
                self.glob |= names(x)
            elif x.op == "agg":
                for g in (x.a[2], x.a[4]):
                    if g is not None:
                        self.glob |= names(g)
        if head.op == "lit":
            self.glob |= names(head)
        elif head.op == "agg":
            for g in (head.a[2], head.a[4]):
                if g is not None:
                    self.glob |= names(g)
        for x in [head, *flat(body)]:
            self.item(x)

    def item(self, x):
        if x.op == "lit":
            self.lit(x)
        elif x.op == "cmp":
            self.cmp(x)
        elif x.op == "cond":
            self.enter()
            self.item(x.a[0])
            for y in flat(x.a[1]):
                self.item(y)
            self.leave()
        elif x.op == "disj":
            for y in flat(x.a):
                self.item(y)
        elif x.op == "agg":
            neg, fn, left, elems, right = x.a
            firsts = []
            for e in flat(elems):
                self.enter()
                if e.op == "elem":
                    ts = [self.parts(t) for t in flat(e.a[0])]
                    if ts:
                        firsts.append(ts[0])
                    for y in flat(e.a[1]):
                        self.item(y)
                else:
                    self.item(e)
                self.leave()
            for g in (left, right):
                if g is None:
                    continue
                t = g[0] if isinstance(g[0], T) and not isinstance(g[0], str) else g[1]
                b = self.parts(t) if isinstance(t, T) else []
                if fn in ("#min", "#max"):
                    for f in firsts:
                        if len(f) == len(b):
                            for x, y in zip(f, b):
                                self.same.append((x, y, "the bound of " + fn))

    def parts(self, t):
        return [self.term(x) for x in flat(t.a)] if t.op == "tuple" else [self.term(t)]

    def enter(self):
        self.n += 1
        self.local = {"_scope": self.n}

    def leave(self):
        self.local = {}

    def name(self, n):
        if n in self.glob or not self.local:
            return n
        return f"{n}@{self.local['_scope']}"

    def lit(self, t):
        neg, nm, args = t.a
        if len(args) == 1 and isinstance(args[0], T) and args[0].op == "argpool":
            groups = [list(flat(g)) for g in args[0].a]
        else:
            groups = [list(flat(args))]
        if any(a.op == "rep" for g in groups for a in g):
            return
        for g in groups:
            key = (pattern(nm), len(g), tuple(sorted((i, s) for i, a in enumerate(g) for s in [const_str(a)] if s is not None)))
            for i, a in enumerate(g):
                for x in self.alternatives(a):
                    self.args.append((key, i, x))

    def alternatives(self, a):
        if a.op == "interval":
            return [self.term(a.a[0]), self.term(a.a[1])]
        if a.op == "pool":
            return [self.term(x) for x in flat(a.a)]
        return [self.term(a)]

    def cmp(self, t):
        parts = t.a[1]
        for i in range(1, len(parts) - 1, 2):
            a, b = parts[i - 1], parts[i + 1]
            ta, tb = isinstance(a, T) and a.op == "tuple", isinstance(b, T) and b.op == "tuple"
            if ta and tb and len(a.a) == len(b.a):
                for x, y in zip(a.a, b.a):
                    self.compared(x, y)
            elif not ta and not tb:
                if isinstance(b, T) and b.op == "interval":
                    self.compared(a, b.a[0])
                    self.compared(a, b.a[1])
                else:
                    self.compared(a, b)

    def compared(self, a, b):
        if not (isinstance(a, T) and isinstance(b, T)):
            return
        x, y = self.term(a), self.term(b)
        self.same.append((x, y, "a comparison"))

    def term(self, t):
        op = t.op
        if op == "num":
            return Lin()
        if op == "var":
            return Lin({self.name(t.a[0]): 1}) if isinstance(t.a[0], str) else UNKNOWN
        if op == "anon":
            self.n += 1
            return Lin({f"_#{self.n}": 1})
        if op == "hole":
            w, s = self.w(t.a[0])
            return Lin({}, w, s, w is not None)
        if op == "neg":
            return Lin().plus(self.term(t.a[0]), -1)
        if op == "bin":
            o, x, y = t.a
            a, b = self.term(x), self.term(y)
            if o in "+-":
                return a.plus(b, 1 if o == "+" else -1)
            for p, q in ((x, b), (y, a)):
                if o == "*" and p.op == "num" and q.ok:
                    return Lin().plus(q, int(p.a[0]))
            return UNKNOWN
        if op == "abs":
            x = self.term(t.a[0])
            self.sums.append((x, "a distance"))
            return UNKNOWN if not x.ok else Lin({}, None, False, False)
        return UNKNOWN


def names(t):
    from .prog import subterms
    if isinstance(t, tuple):
        return set().union(*(names(x) for x in t if isinstance(x, T))) if t else set()
    return {x.a[0] for x in subterms(t) if isinstance(x, T) and x.op == "var" and isinstance(x.a[0], str)}


def pattern(nm):
    return "".join(p if isinstance(p, str) else str(p[1].v) if isinstance(p[1], Const) else "{}" for p in nm)


def const_str(a):
    if a.op == "str":
        p = a.a[0]
        if isinstance(p, tuple):
            return "".join(p) if all(isinstance(x, str) for x in p) else None
        return p
    return None


class Signature:
    """Sorts of predicate positions by the evidence of all rules of a program."""

    def __init__(self, terms, shown=None):
        self.terms = terms
        self.sig = {}
        self.votes = {}
        self.open = set()
        self.torn = {}  # positions given as many rows as columns
        self.shown = shown or {}
        self.infer()

    def lookup(self, key, i):
        p, n, consts = key
        s = self.sig.get((p, n, consts, i))
        if "{}" in p and (n, i) not in self.open:
            got = {x for (q, m, cs, j), x in self.sig.items() if m == n and j == i and q != p and "{}" not in q and matches(p, q)}
            if len({x[0] for x in got}) == 1:
                return next(iter(got))[0], any(x[1] for x in got)
        elif s is None:
            got = {x for (q, m, cs, j), x in self.sig.items() if q == p and m == n and j == i}
            if len({x[0] for x in got}) == 1 and not consts:
                return next(iter(got))[0], any(x[1] for x in got)
        return s

    def var_evidence(self, rt):
        """variable -> list of (sort, strong, description)"""
        ev = {}
        for key, i, x in rt.args:
            v = x.simple
            if v is None:
                continue
            s = self.lookup(key, i)
            if s is not None:
                ev.setdefault(v, []).append((s[0], s[1], f"argument {i + 1} of {key[0]}", (key, i)))
        changed = True
        rounds = 0
        links = []
        for a, b, what in rt.same:
            for x, y in ((a, b), (b, a)):
                v = x.simple
                if v is None or not y.ok:
                    continue
                if not y.vars and y.w in (ROW, COL):
                    ev.setdefault(v, []).append((y.w, y.strong, what, None))
                elif y.simple is not None:
                    links.append((v, y.simple))
        while changed and rounds < 5:
            changed = False
            rounds += 1
            for v, u in links:
                for e in list(ev.get(u, [])):
                    if e[2].startswith("compared"):
                        continue
                    f = (e[0], e[1], "compared with " + e[2], None)
                    if f not in ev.setdefault(v, []):
                        ev[v].append(f)
                        changed = True
        return ev

    def infer(self):
        for _ in range(8):
            votes = {}
            for key in {key for rt in self.terms for key, _, _ in rt.args}:
                if (key[0], key[1]) in self.shown:
                    for i, w in ((0, ROW), (1, COL)):
                        votes.setdefault((*key, i), []).extend([(w, True)] * 2)
            for rt in self.terms:
                ev = self.var_evidence(rt)
                for key, i, x in rt.args:
                    k = (*key, i)
                    if x.ok and not x.vars and x.w in (ROW, COL):
                        votes.setdefault(k, []).append((x.w, x.strong))
                    elif x.simple is not None:
                        es = [e for e in ev.get(x.simple, []) if e[3] != (key, i) or sum(1 for f in rt.args if f[0] == key and f[1] == i and f[2].simple == x.simple) > 1]
                        ss = {e[0] for e in es}
                        if len(ss) == 1:
                            votes.setdefault(k, []).append((next(iter(ss)), any(e[1] for e in es)))
            new, self.torn = {}, {}
            for k, vs in votes.items():
                n = {s: sum(3 if st else 1 for w, st in vs if w == s) for s in (ROW, COL)}
                if n[ROW] != n[COL]:
                    s = ROW if n[ROW] > n[COL] else COL
                    new[k] = (s, any(st for w, st in vs if w == s))
                elif any(st for w, st in vs if w == ROW) and any(st for w, st in vs if w == COL):
                    self.torn[k] = vs
            self.votes = votes
            if new == self.sig:
                break
            self.sig = new


def matches(p, q):
    import re
    return re.fullmatch(".*".join(re.escape(x) for x in p.split("{}")), q) is not None
