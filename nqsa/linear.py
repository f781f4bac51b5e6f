"""Integer linear arithmetic on top of the propositional facts (Fourier-Motzkin with integer tightening)."""
from math import gcd

from .arith import to_lin
from .domain import Const, Sym, lit
from .facts import Facts

LIMIT = 1500


def norm(coefs, const):
    """sum coefs*x + const <= 0, divided by the gcd and tightened."""
    coefs = {k: v for k, v in coefs.items() if v}
    if not coefs:
        return None if const <= 0 else False
    g = 0
    for v in coefs.values():
        g = gcd(g, abs(v))
    if g > 1:
        coefs = {k: v // g for k, v in coefs.items()}
        const = -((-const) // g)
    return tuple(sorted(coefs.items(), key=lambda p: p[0])), const


def lp_infeasible(rows):
    """rows: (coefs dict, const) meaning sum + const <= 0, over integers. True when certainly infeasible."""
    cur = {}
    for c, k in rows:
        r = norm(c, k)
        if r is False:
            return True
        if r is not None:
            cur[r[0]] = max(r[1], cur.get(r[0], r[1]))
    while cur:
        count = {}
        for cs in cur:
            for v, k in cs:
                p = count.setdefault(v, [0, 0])
                p[k > 0] += 1
        v = min(count, key=lambda x: count[x][0] * count[x][1] - count[x][0] - count[x][1])
        lo, hi, rest = [], [], {}
        for cs, k in cur.items():
            d = dict(cs)
            a = d.pop(v, 0)
            if a == 0:
                rest[cs] = max(k, rest.get(cs, k))
            else:
                (hi if a > 0 else lo).append((d, a, k))
        for d1, a1, k1 in hi:
            for d2, a2, k2 in lo:
                m1, m2 = -a2, a1
                d = {x: y * m1 for x, y in d1.items()}
                for x, y in d2.items():
                    d[x] = d.get(x, 0) + y * m2
                r = norm(d, k1 * m1 + k2 * m2)
                if r is False:
                    return True
                if r is not None:
                    rest[r[0]] = max(r[1], rest.get(r[0], r[1]))
        if len(rest) > LIMIT:
            return False
        cur = rest
    return False


def rows_of(lits, index):
    """Linear constraints among the literals: (rows, disequalities)."""
    rows, nes = [], []

    def lin(v):
        x = to_lin(v)
        if x is None:
            return None
        return {index.setdefault(t, len(index)): k for t, k in x[0].items()}, x[1]
    for s, pol in lits:
        if s.op not in ("lt", "le", "eq") or len(s.args) != 2:
            continue
        a, b = lin(s.args[0]), lin(s.args[1])
        if a is None or b is None:
            continue
        if s.op == "eq" and not numeric(s.args):
            continue
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) - v
        k = a[1] - b[1]
        neg = {x: -y for x, y in d.items()}
        if s.op == "lt":
            rows.append((d, k + 1) if pol else (neg, -k))
        elif s.op == "le":
            rows.append((d, k) if pol else (neg, -k + 1))
        elif pol:
            rows += [(d, k), (neg, -k)]
        else:
            nes.append((d, k))
    return rows, nes


def numeric(args):
    from .types_ import typ
    for a in args:
        if isinstance(a, Const):
            if isinstance(a.v, bool) or not isinstance(a.v, int):
                return False
        elif isinstance(a, Sym):
            t = typ(a)
            if a.op != "lin" and (t is None or not t <= {"int"}):
                return False
        else:
            return False
    return True


def contradicts(lits):
    index = {}
    rows, nes = rows_of(lits, index)
    if lp_infeasible(rows):
        return True
    used = {v for d, _ in rows for v in d}
    nes = [n for n in nes if set(n[0]) <= used][:6]

    def split(rows, left):
        if lp_infeasible(rows):
            return True
        if not left:
            return False
        d, k = left[0]
        return split(rows + [(d, k + 1)], left[1:]) and split(rows + [({x: -y for x, y in d.items()}, -k + 1)], left[1:])
    return bool(nes) and split(rows, nes)


def infeasible(formulas, types, budget=600):
    """Like facts.infeasible, with linear integer arithmetic at the leaves."""
    left = [budget]

    def go(fs):
        F = Facts(fs, types)
        if F.bottom:
            return True
        if not F.ors:
            return contradicts(F.lits.items())
        left[0] -= 1
        if left[0] < 0:
            return None
        o = min(F.ors, key=lambda x: len(x[1]))
        rest = tuple(lit(s, p) for s, p in F.lits.items()) + tuple(x for x in F.ors if x is not o)
        res = True
        for g in o[1]:
            r = go(rest + (g,))
            if r is False:
                return False
            if r is None:
                res = None
        return res

    return go(tuple(formulas))
