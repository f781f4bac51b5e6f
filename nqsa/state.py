"""Abstract state: frames, heap, path condition, loops."""
from .domain import *  # noqa
from .domain import EMPTY, UNDEF
from .facts import Facts
from .types_ import typ


class PathDead(Exception):
    """The current path ended (raise or infeasible)."""


class Unsupported(Exception):
    """The analysed code uses something the interpreter does not model."""


# heap contents ------------------------------------------------------------
class Content:
    """kind: list|set|dict|inst|tuple|gen|deque ; parts for sequences; known/extra for dicts; attrs for instances."""

    __slots__ = ("kind", "parts", "attrs", "cls", "owner", "known")

    def __init__(self, kind, parts=(), attrs=None, cls=None, owner=None, known=None):
        self.kind, self.parts, self.attrs, self.cls, self.owner = kind, tuple(parts), attrs, cls, owner
        self.known = known  # tuple of (k, v) for dicts; parts holds unknown writes as ('I', Tup(k, v))

    def with_parts(self, parts):
        return Content(self.kind, parts, self.attrs, self.cls, self.owner, self.known)

    def with_known(self, known, parts=None):
        return Content(self.kind, self.parts if parts is None else parts, self.attrs, self.cls, self.owner, tuple(known))

    def with_attr(self, name, v):
        a = dict(self.attrs or {})
        a[name] = v
        return Content(self.kind, self.parts, a, self.cls, self.owner, self.known)

    def same(self, o):
        return (
            self.kind == o.kind
            and self.parts == o.parts
            and self.known == o.known
            and (self.attrs or {}) == (o.attrs or {})
        )


class State:
    __slots__ = ("frames", "heap", "pc", "loops", "forall")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.loops = ()
        self.forall = frozenset()  # loops run to completion: their bodies' checks hold for every element

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.loops = self.loops
        s.forall = self.forall
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.loops, self.forall = o.frames, o.heap, o.pc, o.loops, o.forall

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.pc = self.pc + (False,)
            return
        if f[0] == "and":
            for g in f[1]:
                self.assume(g)
            return
        if f not in self.pc:
            self.pc = self.pc + (f,)


_FACTS = {}


def facts(pc):
    r = _FACTS.get(pc)
    if r is None:
        if len(_FACTS) > 20000:
            _FACTS.clear()
        r = _FACTS[pc] = Facts(pc, typ)
    return r


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x == y:
            n += 1
        else:
            break
    return n


def merge_parts(alts):
    """alts: [(formula, parts)] -> parts with common prefix (and suffix) factored."""
    first = alts[0][1]
    n = len(first)
    for _, p in alts[1:]:
        n = min(n, common_prefix(first, p))
    pre = first[:n]
    rest = [(f, p[n:]) for f, p in alts]
    if all(not p for _, p in rest):
        return pre
    acc = []
    for f, p in rest:
        for i, (g, q) in enumerate(acc):
            if q == p:
                acc[i] = (f_or([g, f]), q)
                break
        else:
            acc.append((f, p))
    if len(acc) == 1:
        return pre + acc[0][1]
    return pre + (("A", tuple(acc)),)


def make_phi(alts):
    """alts: [(formula, V)] -> V"""
    flat = []
    for f, v in alts:
        if f is False:
            continue
        if isinstance(v, Phi):
            for g, w in v.alts:
                h = f_and([f, g])
                if h is not False:
                    flat.append((h, w))
        else:
            flat.append((f, v))
    acc = []
    for f, v in flat:
        for i, (g, w) in enumerate(acc):
            if w == v:
                acc[i] = (f_or([g, f]), w)
                break
        else:
            acc.append((f, v))
    if not acc:
        raise PathDead()
    if len(acc) == 1:
        return acc[0][1]
    vals = [v for _, v in acc]
    if all(isinstance(v, (Str,)) or (isinstance(v, Const) and isinstance(v.v, str)) for v in vals):
        return Str(merge_parts([(f, as_nodes(v)) for f, v in acc]))
    if all(isinstance(v, BoolF) or (isinstance(v, Const) and isinstance(v.v, bool)) for v in vals):
        out = []
        for f, v in acc:
            g = v.f if isinstance(v, BoolF) else v.v
            out.append(f_and([f, g]))
        r = f_or(out)
        return Const(r) if isinstance(r, bool) else BoolF(r)
    if all(isinstance(v, Tup) and len(v.items) == len(vals[0].items) for v in vals):
        return Tup(make_phi([(f, v.items[i]) for f, v in acc]) for i in range(len(vals[0].items)))
    return Phi(acc)


def as_nodes(v, loc=None):
    """String value -> template nodes."""
    if isinstance(v, Str):
        return v.nodes
    if isinstance(v, Const):
        return (("L", str(v.v), loc),) if str(v.v) != "" else ()
    if isinstance(v, BoolF):
        return (("A", ((v.f, (("L", "True", loc),)), (f_not(v.f), (("L", "False", loc),)))),)
    if isinstance(v, Phi):
        return (("A", tuple((f, as_nodes(x, loc)) for f, x in v.alts)),)
    if isinstance(v, Sym) and v.op == "str":
        return (("H", v.args[0], loc),)
    return (("H", v, loc),)


def merge_states(states):
    """Merge states that share a path-condition prefix."""
    states = [s for s in states if s is not None]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    n = len(states[0].pc)
    for s in states[1:]:
        n = min(n, common_prefix(states[0].pc, s.pc))
    base = states[0].pc[:n]
    rel = [f_and(s.pc[n:]) for s in states]
    keep = [(f, s) for f, s in zip(rel, states) if f is not False]
    if not keep:
        return None
    if len(keep) == 1:
        return keep[0][1]
    out = State()
    out.pc = base
    out.loops = states[0].loops
    out.forall = frozenset.intersection(*[s.forall for _, s in keep])
    out.assume(f_or([f for f, _ in keep]))
    fids = []
    for _, s in keep:
        for fid in s.frames:
            if fid not in fids:
                fids.append(fid)
    for fid in fids:
        names = []
        for _, s in keep:
            for nm in s.frames.get(fid, ()):
                if nm not in names:
                    names.append(nm)
        fr = {}
        for nm in names:
            alts = [(f, s.frames.get(fid, {}).get(nm, UNDEF)) for f, s in keep]
            fr[nm] = alts[0][1] if all(v == alts[0][1] for _, v in alts) else make_phi(alts)
        out.frames[fid] = fr
    oids = []
    for _, s in keep:
        for o in s.heap:
            if o not in out.heap:
                out.heap[o] = None
                oids.append(o)
    for o in oids:
        cs = [(f, s.heap[o]) for f, s in keep if o in s.heap]
        c0 = cs[0][1]
        if all(c is c0 or c.same(c0) for _, c in cs):
            out.heap[o] = c0
            continue
        if c0.kind == "inst":
            attrs = {}
            names = []
            for _, c in cs:
                for nm in c.attrs or {}:
                    if nm not in names:
                        names.append(nm)
            for nm in names:
                alts = [(f, (c.attrs or {}).get(nm, UNDEF)) for f, c in cs]
                attrs[nm] = alts[0][1] if all(v == alts[0][1] for _, v in alts) else make_phi(alts)
            out.heap[o] = Content("inst", (), attrs, c0.cls, c0.owner)
        elif c0.kind == "dict":
            knowns = [c.known or () for _, c in cs]
            if all(k == knowns[0] for k in knowns):
                out.heap[o] = Content("dict", merge_parts([(f, c.parts) for f, c in cs]), None, None, c0.owner, c0.known)
            else:
                parts = merge_parts([(f, tuple(("I", Tup(kv)) for kv in (c.known or ())) + c.parts) for f, c in cs])
                out.heap[o] = Content("dict", parts, None, None, c0.owner, ())
        else:
            out.heap[o] = Content(c0.kind, merge_parts([(f, c.parts) for f, c in cs]), None, c0.cls, c0.owner)
    return out
