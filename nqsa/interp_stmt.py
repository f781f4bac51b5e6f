"""Statements and loops."""
import ast

from .domain import f_lits, free_syms, subst_f, walk
from .domain import *  # noqa
from .domain import EMPTY, FALSE, NONE, TRUE, UNDEF
from .facts import is_const
from .interp_expr import method
from .state import Content, PathDead, State, Unsupported, as_nodes, facts, make_phi, merge_parts, merge_states
from .types_ import coll_name, typ


class Out:
    __slots__ = ("fall", "rets", "brks", "conts", "hb")

    def __init__(self, fall=None):
        self.fall, self.rets, self.brks, self.conts, self.hb = fall, [], [], [], False


@method
def exec_block(self, stmts, st):
    out = Out(st)
    for s in stmts:
        if out.fall is None:
            break
        o = self.exec_stmt(s, out.fall)
        out.fall = o.fall
        out.rets += o.rets
        out.brks += o.brks
        out.conts += o.conts
    return out


@method
def exec_stmt(self, node, st):
    m = getattr(self, "st_" + type(node).__name__, None)
    if m is None:
        raise Unsupported(f"statement {type(node).__name__}")
    try:
        return m(node, st)
    except PathDead:
        return Out(None)


@method
def st_Pass(self, node, st):
    return Out(st)


@method
def st_Expr(self, node, st):
    if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
        v = self.ev(node.value.value, st) if node.value.value else NONE
        fid = self.frame_id_stack[-1]
        y = st.frames[fid]["$yield"]
        c = self.content(st, y)
        if isinstance(node.value, ast.YieldFrom):
            st.heap[y.oid] = c.with_parts(c.parts + tuple(self.to_parts(v, st, node)))
        else:
            st.heap[y.oid] = c.with_parts(c.parts + (("I", v),))
        return Out(st)
    if isinstance(node.value, ast.Constant):
        return Out(st)
    self.ev(node.value, st)
    return Out(st)


@method
def st_Import(self, node, st):
    return Out(st)





@method
def st_ImportFrom(self, node, st):  # noqa: F811
    return Out(st)


@method
def st_Global(self, node, st):  # noqa: F811
    self.event("global-stmt", tuple(node.names), node, st)
    fr = st.frames[self.frame_id_stack[-1]]
    fr["$global"] = Tup(Const(n) for n in node.names)
    return Out(st)


@method
def st_Nonlocal(self, node, st):  # noqa: F811
    fr = st.frames[self.frame_id_stack[-1]]
    fr["$nonlocal"] = Tup(Const(n) for n in node.names)
    return Out(st)


@method
def st_FunctionDef(self, node, st):
    fid = self.frame_id_stack[-1]
    st.frames[fid][node.name] = self.make_func(node, st, fid, f"{self.stack[-1][0]}.{node.name}")
    return Out(st)


@method
def st_Return(self, node, st):
    v = self.ev(node.value, st) if node.value is not None else NONE
    o = Out(None)
    o.rets.append((st, v))
    return o


@method
def st_Raise(self, node, st):
    exc, msg = None, Const("")
    if node.exc is not None:
        e = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
        exc = ast.unparse(e)
        if isinstance(node.exc, ast.Call) and (node.exc.args or node.exc.keywords):
            msg = None
            if node.exc.args:
                try:
                    msg = self.ev(node.exc.args[0], st)
                except Unsupported:
                    pass
    elif node.cause is None:
        msg = None  # the failure that is being handled
    self.event("raise", (exc, msg), node, st)
    return Out(None)


@method
def st_Assert(self, node, st):
    f = self.cond(node.test, st)
    s2 = st.copy()
    s2.assume(f_not(f))
    if not facts(st.pc).implies(f):
        self.event("raise", ("AssertionError",), node, s2)
    st.assume(f)
    return Out(st)


@method
def st_Delete(self, node, st):
    for t in node.targets:
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.event("delitem", (self.freeze(base, st),), node, st)
            if isinstance(base, Obj):
                c = self.content(st, base)
                self.put(st, base, c.with_parts((("R", self.fresh(), c.parts),)) if c.kind != "dict" else c, node)
    return Out(st)


@method
def st_Break(self, node, st):
    o = Out(None)
    o.brks.append(st)
    return o


@method
def st_Continue(self, node, st):
    o = Out(None)
    o.conts.append(st)
    return o


@method
def st_Try(self, node, st):
    """Approximation: the body runs to completion, or a handler runs from the entry state."""
    pre = st.copy()
    self.event("try", (tuple(ast.unparse(h.type) if h.type else "" for h in node.handlers),), node, st)
    o = self.exec_block(node.body, st)
    lid = self.fresh()
    from .interp import Loop
    self.loops[lid] = Loop(lid, "try", NONE, self.loc(node))
    ok = lit(Sym("try-ok", Const(lid)))
    outs = []
    if o.fall is not None and node.orelse:
        o2 = self.exec_block(node.orelse, o.fall)
        o.fall = o2.fall
        o.rets += o2.rets
        o.brks += o2.brks
        o.conts += o2.conts
    falls = []
    if o.fall is not None:
        falls.append((ok, o.fall))
    for h in node.handlers:
        s = pre.copy()
        s.assume(f_not(ok))
        if h.name:
            s.frames[self.frame_id_stack[-1]][h.name] = Sym("exception", Const(lid))
        oh = self.exec_block(h.body, s)
        o.rets += oh.rets
        o.brks += oh.brks
        o.conts += oh.conts
        if oh.fall is not None:
            falls.append((f_not(ok), oh.fall))
    res = []
    n = len(pre.pc)
    for f, s in falls:
        if f == ok:
            s.pc = s.pc[:n] + (ok,) + s.pc[n:]
        res.append(s)
    o.rets = [(s, v) for s, v in o.rets]
    o.fall = merge_states(res)
    if node.finalbody and o.fall is not None:
        of = self.exec_block(node.finalbody, o.fall)
        o.fall = of.fall
        o.rets += of.rets
    return o


@method
def st_With(self, node, st):
    for it in node.items:
        v = self.ev(it.context_expr, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, Sym("ctx", self.freeze(v, st)), st)
    return self.exec_block(node.body, st)


# ------------------------------------------------------------------ branching
@method
def st_Match(self, s, st):
    """A match statement as the chain of if statements it stands for."""
    tmp = f"<match {s.lineno}>"

    def name(n, ctx):
        return ast.copy_location(ast.Name(n, ctx), s)

    def call(fn, *args):
        return ast.copy_location(ast.Call(name(fn, ast.Load()), list(args), []), s)

    def item(subj, i):
        return ast.copy_location(ast.Subscript(subj, ast.copy_location(ast.Constant(i), s), ast.Load()), s)

    def test(p, subj, binds):
        if isinstance(p, ast.MatchValue):
            return ast.copy_location(ast.Compare(subj, [ast.Eq()], [p.value]), s)
        if isinstance(p, ast.MatchSingleton):
            return ast.copy_location(ast.Compare(subj, [ast.Is()], [ast.copy_location(ast.Constant(p.value), s)]), s)
        if isinstance(p, ast.MatchAs):
            t = test(p.pattern, subj, binds) if p.pattern is not None else None
            if p.name:
                binds.append((p.name, subj))
            return t
        if isinstance(p, ast.MatchOr):
            ts = []
            for q in p.patterns:
                b = []
                ts.append(test(q, subj, b))
                if b:
                    raise Unsupported("binding alternatives")
            return None if None in ts else ast.copy_location(ast.BoolOp(ast.Or(), ts), s)
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            t = ast.copy_location(ast.Call(name("isinstance", ast.Load()), [subj, p.cls], []), s)
            if p.patterns:
                if not (isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "bool", "float", "tuple", "list", "dict", "set")):
                    raise Unsupported("class pattern")
                u = test(p.patterns[0], subj, binds)
                if u is not None:
                    t = ast.copy_location(ast.BoolOp(ast.And(), [t, u]), s)
            return t
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            ts = [ast.copy_location(ast.Compare(call("len", subj), [ast.Eq()], [ast.copy_location(ast.Constant(len(p.patterns)), s)]), s)]
            for i, q in enumerate(p.patterns):
                u = test(q, item(subj, i), binds)
                if u is not None:
                    ts.append(u)
            return ast.copy_location(ast.BoolOp(ast.And(), ts), s) if len(ts) > 1 else ts[0]
        raise Unsupported("pattern " + type(p).__name__)

    chain = None
    for case in reversed(s.cases):
        binds = []
        t = test(case.pattern, name(tmp, ast.Load()), binds)
        sets = [ast.copy_location(ast.Assign([name(n, ast.Store())], v), s) for n, v in binds]
        rest = [chain] if chain is not None else []
        if case.guard is not None:
            if sets and rest:
                raise Unsupported("guard on a binding pattern")
            t = case.guard if t is None else ast.copy_location(ast.BoolOp(ast.And(), [t, case.guard]), s)
        if t is None:
            t = ast.copy_location(ast.Constant(True), s)
        chain = ast.copy_location(ast.If(t, sets + case.body, rest), s)
    self.exec_stmt(ast.copy_location(ast.Assign([name(tmp, ast.Store())], s.subject), s), st)
    return self.exec_stmt(chain, st)


@method
def st_If(self, node, st):
    f = self.cond(node.test, st)
    f = facts(st.pc).simplify(f)
    if f is True:
        return self.exec_block(node.body, st)
    if f is False:
        return self.exec_block(node.orelse, st)
    return self.branch(f, st, lambda s: self.exec_block(node.body, s), lambda s: self.exec_block(node.orelse, s))


@method
def branch(self, f, st, then, orelse):
    o = Out(None)
    falls = []
    F = facts(st.pc)
    for g, fn in ((f, then), (f_not(f), orelse)):
        if F.refutes(g):
            continue
        s = st.copy()
        s.assume(g)
        if facts(s.pc).bottom:
            continue
        try:
            x = fn(s)
        except PathDead:
            continue
        if x.fall is not None:
            falls.append(x.fall)
        o.rets += x.rets
        o.brks += x.brks
        o.conts += x.conts
    o.fall = merge_states(falls)
    return o


# ------------------------------------------------------------------ assignment
@method
def st_Assign(self, node, st):
    v = self.ev(node.value, st)
    for t in node.targets:
        self.assign(t, v, st)
    return Out(st)


@method
def st_AnnAssign(self, node, st):
    if node.value is not None:
        self.assign(node.target, self.ev(node.value, st), st)
    return Out(st)


@method
def st_AugAssign(self, node, st):
    tgt = node.target
    load = ast.copy_location(ast.fix_missing_locations(self.as_load(tgt)), tgt)
    old = self.ev(load, st)
    val = self.ev(node.value, st)
    if isinstance(old, Obj) and isinstance(node.op, (ast.Add, ast.BitOr)):
        c = self.content(st, old)
        if c.kind in ("list", "set", "deque"):
            self.put(st, old, c.with_parts(c.parts + tuple(self.to_parts(val, st, node))), node)
            return Out(st)
    if isinstance(tgt, ast.Attribute) and isinstance(node.op, ast.Add) and (isinstance(val, Str) or (isinstance(val, Const) and isinstance(val.v, str))):
        val = Str((("G", st.pc, as_nodes(val, self.loc(node))),))
    new = self.binop(type(node.op), old, val, st, node)
    self.assign(tgt, new, st)
    return Out(st)


@method
def as_load(self, t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    raise Unsupported("aug target")


@method
def assign(self, t, v, st):
    if isinstance(t, ast.Name):
        fid = self.frame_id_stack[-1]
        fr = st.frames[fid]
        g = fr.get("$global")
        if g is not None and Const(t.id) in g.items:
            self.event("assign-global", (t.id,), t, st)
            fr[t.id] = v
            return
        nl = fr.get("$nonlocal")
        if nl is not None and Const(t.id) in nl.items:
            p = fr.get("$parent")
            while p is not None:
                if t.id in st.frames[p]:
                    st.frames[p][t.id] = v
                    return
                p = st.frames[p].get("$parent")
        fr[t.id] = v
        return
    if isinstance(t, (ast.Tuple, ast.List)):
        self.unpack(t, v, st)
        return
    if isinstance(t, ast.Attribute):
        base = self.ev(t.value, st)
        base = self.prune(base, st)
        if isinstance(base, Obj):
            c = self.content(st, base)
            if c.kind == "inst":
                st.heap[base.oid] = c.with_attr(t.attr, v)
                self.event("set-attr", (base, t.attr), t, st)
                return
        self.event("mutate-input" if isinstance(base, Sym) else "set-static", (base, t.attr), t, st)
        return
    if isinstance(t, ast.Subscript):
        base = self.prune(self.ev(t.value, st), st)
        idx = self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else None
        self.setitem(base, idx, v, st, t)
        return
    if isinstance(t, ast.Starred):
        raise Unsupported("starred target")
    raise Unsupported("assign target")


@method
def setitem(self, base, idx, v, st, node):
    if isinstance(base, Obj):
        c = self.content(st, base)
        if c.kind == "dict":
            k = self.key_norm(self.prune(idx, st), st)
            if self.is_key(k) and not c.parts:
                known = dict(c.known or ())
                known[k] = v
                self.put(st, base, c.with_known(known.items()), node)
            else:
                parts = list(c.parts)
                for n, p in enumerate(parts):
                    if p[0] == "I" and isinstance(p[1], Tup) and len(p[1].items) == 2 and p[1].items[0] == k:
                        parts[n] = ("I", Tup((k, v)))
                        break
                else:
                    parts.append(("I", Tup((k, v))))
                self.put(st, base, c.with_known(c.known or (), tuple(parts)), node)
            return
        if isinstance(idx, Const) and all(p[0] == "I" for p in c.parts):
            ps = list(c.parts)
            try:
                ps[idx.v] = ("I", v)
            except IndexError:
                self.event("may-raise", ("IndexError", base), node, st)
                raise PathDead()
            self.put(st, base, c.with_parts(ps), node)
            return
        # weak update
        if idx is not None:
            self.event("index", (self.freeze(base, st), idx), node, st)
        lid = self.fresh()
        from .interp import Loop
        self.loops[lid] = Loop(lid, "weak", NONE, self.loc(node))
        self.put(st, base, c.with_parts((("R", lid, c.parts + (("I", v),)),)), node)
        return
    if isinstance(base, Sym):
        self.event("mutate-input", (base, self.freeze(idx, st) if idx is not None else NONE, self.freeze(v, st)), node, st)
        return
    if isinstance(base, ClassV) or isinstance(base, Builtin):
        self.event("mutate-shared", (f"{base!r}",), node, st)
        return
    raise Unsupported(f"setitem on {base!r}")


@method
def unpack(self, t, v, st):
    v = self.prune(v, st)
    n = len(t.elts)
    if isinstance(v, Phi):
        vals = [[] for _ in range(n)]
        for f, x in v.alts:
            ps = self.unpack_values(x, n, t, st)
            for i in range(n):
                vals[i].append((f, ps[i]))
        for i, e in enumerate(t.elts):
            self.assign(e, make_phi(vals[i]), st)
        return
    star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
    if star:
        k = star[0]
        if isinstance(v, Tup):
            items = list(v.items)
            mid = items[k: len(items) - (n - k - 1)]
            for i in range(k):
                self.assign(t.elts[i], items[i], st)
            self.assign(t.elts[k].value, self.alloc(st, Content("list", [("I", x) for x in mid])), st)
            for j in range(n - k - 1):
                self.assign(t.elts[k + 1 + j], items[len(items) - (n - k - 1) + j], st)
            return
        if isinstance(v, Sym):
            for i in range(k):
                self.assign(t.elts[i], self.item(v, Const(i), st, t), st)
            self.assign(t.elts[k].value, Sym("slice", v, Const(k), NONE, NONE), st)
            for j in range(n - k - 1):
                self.assign(t.elts[k + 1 + j], self.item(v, Const(j - (n - k - 1)), st, t), st)
            return
        raise Unsupported("starred unpack")
    ps = self.unpack_values(v, n, t, st)
    for e, x in zip(t.elts, ps):
        self.assign(e, x, st)


@method
def unpack_values(self, v, n, node, st):
    if isinstance(v, Tup):
        if len(v.items) != n:
            self.event("may-raise", ("ValueError-unpack", v), node, st)
            raise PathDead()
        return list(v.items)
    if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
        if len(v.v) != n:
            raise PathDead()
        return [Const(x) for x in v.v]
    if isinstance(v, Str) and all(k[0] == "L" for k in v.nodes):
        s = "".join(k[1] for k in v.nodes)
        if len(s) != n:
            raise PathDead()
        return [Const(x) for x in s]
    if isinstance(v, Obj):
        c = self.content(st, v)
        if all(p[0] == "I" for p in c.parts) and c.kind != "dict":
            if len(c.parts) != n:
                raise PathDead()
            return [p[1] for p in c.parts]
        b = self.freeze(v, st)
        return [Sym("item", b, Const(i)) for i in range(n)]
    if isinstance(v, Sym):
        if v.op == "mcall" and v.args[0] in ("split", "rsplit"):
            self.event("unpack", (v, n), node, st)
        elif typ(v) == frozenset(["none"]) or self.fact_types(v, st) and "none" in self.fact_types(v, st):
            self.event("unpack-none", (v, n), node, st)
        self.event("unpack-any", (v, n), node, st)
        return [self.item(v, Const(i), st, node) for i in range(n)]
    raise Unsupported(f"unpack {v!r}")


# ------------------------------------------------------------------ loops
@method
def st_For(self, node, st):
    src = self.ev(node.iter, st)
    parts = self.to_parts(src, st, node)
    self.event("for", (self.freeze(src, st),), node, st)

    def body(s, v):
        self.assign(node.target, v, s)
        return self.exec_block(node.body, s)

    o = self.iterate(parts, st, body)
    falls = []
    if o.fall is not None:
        if node.orelse:
            o2 = self.exec_block(node.orelse, o.fall)
            o.rets += o2.rets
            o.fall = o2.fall
    if o.fall is not None:
        falls.append(o.fall)
    falls += o.brks
    res = Out(merge_states(falls))
    res.rets = o.rets
    return res


@method
def iterate(self, parts, st, body):
    """Run body(state, value) for each element. Out.fall: exhausted; Out.brks: left by break; conts empty."""
    out = Out(st)
    for p in parts:
        if out.fall is None:
            break
        cur = out.fall
        if p[0] == "I":
            try:
                o = body(cur, p[1])
            except PathDead:
                o = Out(None)
            falls = ([o.fall] if o.fall is not None else []) + o.conts
            out.fall = merge_states(falls)
            out.brks += o.brks
            out.rets += o.rets
        elif p[0] == "A":
            falls = []
            F = facts(cur.pc)
            for f, ps in p[1]:
                if F.refutes(f):
                    continue
                s = cur.copy()
                s.assume(f)
                o = self.iterate(ps, s, body)
                if o.fall is not None:
                    falls.append(o.fall)
                out.brks += o.brks
                out.rets += o.rets
            out.fall = merge_states(falls)
        elif p[0] == "R":
            o = self.run_rep(p[1], cur, lambda s, p=p: self.iterate(p[2], s, body))
            out.fall = o.fall
            out.rets += o.rets
        elif p[0] == "ACC":
            from .interp import Loop
            lid = self.fresh()
            self.loops[lid] = Loop(lid, "acc", Const(repr(p[1])), ("", 0))
            o = self.run_rep(lid, cur, lambda s, lid=lid: body(s, Sym("elem", lid, Sym("acc", Const(repr(p[1]))))))
            out.fall = o.fall
            out.rets += o.rets
        else:
            raise Unsupported(f"iterate part {p[0]}")
    return out


def _slots(st):
    out = {}
    for fid, fr in st.frames.items():
        for nm, v in fr.items():
            if not nm.startswith("$") or nm == "$ret":
                out[("v", fid, nm)] = v
    for oid, c in st.heap.items():
        if c.kind == "inst":
            for nm, v in (c.attrs or {}).items():
                out[("a", oid, nm)] = v
        else:
            out[("h", oid)] = c
    return out


def _get(st, slot):
    if slot[0] == "v":
        return st.frames.get(slot[1], {}).get(slot[2])
    if slot[0] == "a":
        c = st.heap.get(slot[1])
        return (c.attrs or {}).get(slot[2]) if c is not None else None
    return st.heap.get(slot[1])


def _set(st, slot, v):
    if slot[0] == "v":
        st.frames.setdefault(slot[1], {})[slot[2]] = v
    elif slot[0] == "a":
        st.heap[slot[1]] = st.heap[slot[1]].with_attr(slot[2], v)
    else:
        st.heap[slot[1]] = v


def _same(a, b):
    if isinstance(a, Content):
        return isinstance(b, Content) and (a is b or a.same(b))
    return a is b or a == b


def is_strish(v):
    return isinstance(v, Str) or (isinstance(v, Const) and isinstance(v.v, str))


LOCAL_OPS = ("key", "val", "elem", "idx", "celem", "lv", "lout", "lookup", "get")


def _forall_facts(pc, lid, outer):
    """The formulas of a finished iteration that speak about its element and nothing else that varies."""
    out = []
    for f in pc:
        if f is True or f is False:
            continue
        mine, ok = False, True
        for _, s, _ in f_lits(f):
            for x in free_syms(s):
                if not isinstance(x, Sym):
                    continue
                if x.op == "lv" and x.args[0] in outer:
                    continue
                if x.op in ("lv", "lout", "loop-returned", "undef", "acc"):
                    ok = False
                elif x.op in ("key", "val", "elem", "idx", "celem") and x.args and isinstance(x.args[0], int):
                    if x.args[0] == lid:
                        mine = True
                    elif x.args[0] not in outer:
                        ok = False
            mine = mine or any(isinstance(x, Sym) and x.args and x.args[0] == lid and x.op in ("key", "val", "elem", "idx", "celem") for x in walk(s))
        if mine and ok:
            out.append(f)
    return tuple(out)


@method
def assume_checked(self, st, lid):
    """Facts that earlier complete loops over the same source established for each of its elements."""
    lp = self.loops.get(lid)
    if lp is None or not st.forall:
        return
    src = lp.source
    for old, fs in sorted(st.forall, key=lambda t: t[0]):
        o = self.loops.get(old)
        if o is None:
            continue
        if old == lid:
            for f in fs:
                st.assume(f)
            continue
        if o.kind in ("weak", "while", "try", "acc", "times") or lp.kind != o.kind:
            continue
        if o.source == src:
            def fn(v, old=old):
                if isinstance(v, Sym) and v.op in ("key", "val", "elem", "idx") and v.args[0] == old:
                    return Sym(v.op, lid, *v.args[1:])
        else:
            a, b = o.source, src
            if isinstance(a, Sym) and a.op == "call" and b == Sym("mcall", "keys", a):  # a mapping gone through directly
                def fn(v, old=old, src=src):
                    if isinstance(v, Sym) and v.op == "elem" and v.args[0] == old:
                        return Sym("elem", lid, src)
                self.carry(st, lid, old, fs, fn)
                continue
            if not (isinstance(a, Sym) and isinstance(b, Sym) and a.op == b.op == "mcall" and a.args[1:2] == b.args[1:2] and a.args[0] == "items" and b.args[0] in ("keys", "values")):
                continue
            want = Const(0 if b.args[0] == "keys" else 1)

            def fn(v, old=old, want=want, src=src):
                if isinstance(v, Sym) and v.op == "item" and isinstance(v.args[0], Sym) and v.args[0].op == "elem" and v.args[0].args[0] == old and v.args[1] == want:
                    return Sym("elem", lid, src)
        self.carry(st, lid, old, fs, fn)


@method
def carry(self, st, lid, old, fs, fn):
    for f in fs:
        g = subst_f(f, fn)
        if not any(isinstance(x, Sym) and x.op in ("key", "val", "elem", "idx") and x.args[0] == old for _, s, _ in f_lits(g) for x in walk(s)):
            st.assume(g)
            self.checked.setdefault(lid, set()).add(g)


@method
def run_rep(self, lid, st, body_fn):
    """Abstract execution of an unknown number of iterations."""
    plain = body_fn

    def body_fn(s):
        self.assume_checked(s, lid)
        return plain(s)

    init = _slots(st)
    modified = {}
    prepared = None
    for attempt in range(8):
        s0 = st.copy()
        s0.loops = st.loops + (lid,)
        for slot, (kind, ts) in modified.items():
            iv = init[slot]
            if kind == "str":
                _set(s0, slot, Str((("ACC", (lid, slot)),)))
            elif kind == "seq":
                _set(s0, slot, Content(iv.kind, (("ACC", (lid, slot)),), None, iv.cls, iv.owner, () if iv.kind == "dict" else None))
            elif kind == "gone":
                _set(s0, slot, Sym("lv", lid, ts, None))
            else:
                _set(s0, slot, Sym("lv", lid, slot[2] if len(slot) > 2 else repr(slot), ts))
                self.lv_init[(lid, slot[2] if len(slot) > 2 else repr(slot))] = iv
        prepared = _slots(s0)
        prep = s0.copy()
        final = False
        self.quiet += 1
        try:
            o = body_fn(s0)
        finally:
            self.quiet -= 1
        ends = ([o.fall] if o.fall is not None else []) + o.conts + o.brks
        changed = False
        fresh_globals = {oid for e in ends for oid in e.heap if oid in self.gheap and oid not in st.heap}
        if fresh_globals:
            # module-level objects first touched inside the loop live before it
            for oid in fresh_globals:
                st.heap[oid] = self.gheap[oid]
            init = _slots(st)
            continue
        for e in [x.copy() for x in ends] + [s for s, _ in o.rets]:
            for slot, pv in prepared.items():
                ev = _get(e, slot)
                if ev is None or _same(ev, pv):
                    continue
                iv = init[slot]
                if isinstance(iv, Content):
                    kind, ts = "seq", None
                elif is_strish(iv) and is_strish(ev):
                    kind, ts = "str", frozenset(["str"])
                else:
                    kind = "val"
                    t1, t2 = typ(iv), typ(ev)
                    ts = (t1 | t2) if t1 is not None and t2 is not None else None
                old = modified.get(slot)
                if old is None:
                    modified[slot] = (kind, ts)
                    changed = True
                elif old[0] == "val" and kind == "val" and old[1] != ts and old[1] is not None:
                    # widen types
                    nt = None if ts is None else old[1] | ts
                    if nt != old[1]:
                        modified[slot] = ("val", nt)
                        changed = True
                elif old[0] == "str" and kind == "val":
                    modified[slot] = ("val", ts)
                    changed = True
        if not changed:
            break
    else:
        self.note("loop fixpoint not reached", _Dummy(self.loops.get(lid)))
    if not self.quiet:
        o = body_fn(prep.copy())
        ends = ([o.fall] if o.fall is not None else []) + o.conts + o.brks
    res = State()
    base = st.copy()
    end = merge_states(ends) if ends else None
    res = base
    if end is not None:
        for oid, c in end.heap.items():
            if oid not in res.heap:
                if oid in self.shared_objs and c.kind in ("list", "set", "deque") and c.parts:
                    # reachable again from a later iteration (dict value under a computed key)
                    c = c.with_parts((("R", lid, c.parts),))
                res.heap[oid] = c
        for fid, fr in end.frames.items():
            if fid not in res.frames:
                continue
            for nm, v in fr.items():
                if nm not in res.frames[fid]:
                    res.frames[fid][nm] = v if is_const(v) else v
    for slot, (kind, ts) in modified.items():
        iv = init[slot]
        ev = _get(end, slot) if end is not None else None
        if ev is None:
            continue
        if kind in ("str", "seq"):
            nodes = as_nodes(ev) if kind == "str" else ev.parts
            acc = ("ACC", (lid, slot))
            if nodes and nodes[0] == acc and acc not in nodes[1:]:
                delta = nodes[1:]
                if kind == "str":
                    _set(res, slot, Str(as_nodes(iv) + ((("R", lid, delta, ()),) if delta else ())))
                else:
                    kn = iv.known
                    _set(res, slot, Content(iv.kind, iv.parts + ((("R", lid, delta),) if delta else ()), None, iv.cls, iv.owner, kn))
            elif kind == "str":
                _set(res, slot, Sym("lout", lid, slot[2] if len(slot) > 2 else repr(slot), frozenset(["str"])))
            else:
                clean = tuple(p for p in ev.parts if p[0] != "ACC")
                _set(res, slot, Content(iv.kind, (("R", lid, iv.parts + clean),), None, iv.cls, iv.owner, iv.known))
        else:
            _set(res, slot, Sym("lout", lid, slot[2] if len(slot) > 2 else repr(slot), ts))
            self.louts = getattr(self, "louts", {})
            self.louts[(lid, slot[2] if len(slot) > 2 else repr(slot))] = (iv, ev)
    self.lvs = getattr(self, "lvs", {})
    for slot, (kind, ts) in modified.items():
        if kind == "val":
            self.lvs[(lid, slot[2] if len(slot) > 2 else repr(slot))] = (init[slot], _get(end, slot) if end is not None else None, end.pc if end is not None else ())
    ends2 = ([o.fall] if o.fall is not None else []) + o.conts
    if o.brks or o.rets:
        self.broken = getattr(self, "broken", set()) | {lid}
    elif ends2 and lid not in getattr(self, "broken", ()):
        both = merge_states([e.copy() for e in ends2])
        fs = _forall_facts(both.pc[len(st.pc):], lid, st.loops) if both is not None else ()
        if fs:
            res.forall = res.forall | {(lid, fs)}
    out = Out(res)
    out.hb = bool(o.brks)
    if o.rets:
        done = lit(Sym("loop-returned", Const(lid)))
        for s, v in o.rets:
            r = res.copy()
            r.pc = st.pc + (done,) + s.pc[len(st.pc):]
            for oid, c in s.heap.items():
                if oid not in r.heap:
                    r.heap[oid] = c
            out.rets.append((r, v))
        res.assume(f_not(done))
    return out


class _Dummy:
    def __init__(self, lp):
        self.lineno = lp.loc[1] if lp else 0


@method
def st_While(self, node, st):
    # concrete unrolling while the test is decided
    cur = st
    out = Out(None)
    n = 0
    while True:
        f = facts(cur.pc).simplify(self.cond(node.test, cur))
        if f is False:
            out.fall = cur
            return out
        if f is not True or n > 4000:
            break
        o = self.exec_block(node.body, cur)
        n += 1
        out.rets += o.rets
        falls = ([o.fall] if o.fall is not None else []) + o.conts
        if o.brks:
            # break inside: stop unrolling
            out.fall = merge_states(o.brks + falls) if not falls else None
            if out.fall is not None:
                return out
            raise Unsupported("while with conditional break")
        if not falls:
            return out
        cur = merge_states(falls)
        if n > 64 and not self._concrete_progress(cur):
            break
    from .interp import Loop
    lid = self.fresh()
    self.loops[lid] = Loop(lid, "while", NONE, self.loc(node))

    def body(s):
        f = facts(s.pc).simplify(self.cond(node.test, s))
        if f is False:
            return Out(None)
        s.assume(f)
        return self.exec_block(node.body, s)

    o = self.run_rep(lid, cur, body)
    if o.fall is not None:
        f = self.cond(node.test, o.fall)
        if not o.hb:
            o.fall.assume(f_not(f))
    out.fall = o.fall
    out.rets += o.rets
    return out


@method
def _concrete_progress(self, st):
    return True
