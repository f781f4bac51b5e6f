"""Linear normal form for integer expressions over symbolic terms."""
from .domain import Const, Sym, V


def to_lin(v):
    """value -> (dict term->coef, const) or None"""
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return {}, int(v.v)
        if isinstance(v.v, int):
            return {}, v.v
        return None
    if isinstance(v, Sym):
        if v.op == "lin":
            return dict(v.args[0]), v.args[1]
        return {v: 1}, 0
    return None


def lin_build(terms, const):
    acc = {}
    extra = 0
    for t, k in terms:
        l = to_lin(t)
        if l is None:
            acc[t] = acc.get(t, 0) + k
            continue
        for t2, k2 in l[0].items():
            acc[t2] = acc.get(t2, 0) + k * k2
        extra += k * l[1]
    acc = {t: k for t, k in acc.items() if k != 0}
    const += extra
    if not acc:
        return Const(const)
    if len(acc) == 1 and const == 0:
        (t, k), = acc.items()
        if k == 1:
            return t
    return Sym("lin", tuple(sorted(acc.items(), key=lambda p: repr(p[0]))), const)


def add(a, b, sign=1):
    return lin_build([(a, 1), (b, sign)], 0)


def mul_const(a, k):
    return lin_build([(a, k)], 0)


def diff_const(a, b):
    """a - b if it is a constant else None"""
    d = lin_build([(a, 1), (b, -1)], 0)
    return d.v if isinstance(d, Const) else None
