"""Calls, builtins, iteration sources."""
import ast
import itertools
import math

from .arith import add, lin_build, mul_const
from .domain import *  # noqa
from .domain import EMPTY, FALSE, NONE, TRUE, UNDEF
from .facts import infeasible, is_const
from .interp_expr import BINOPS, fval, intish, method, strish
from .state import Content, PathDead, State, Unsupported, as_nodes, facts, make_phi, merge_parts, merge_states
from .types_ import coll_name, is_cell, is_cells, typ


# ------------------------------------------------------------------ iteration
@method
def new_loop(self, kind, source, node, args=None):
    from .interp import Loop
    lid = self.fresh()
    self.loops[lid] = Loop(lid, kind, source, self.loc(node), args)
    return lid


@method
def to_parts(self, v, st, node):
    """The elements a value yields when iterated."""
    v = self.prune(v, st)
    if isinstance(v, Tup):
        return tuple(("I", x) for x in v.items)
    if isinstance(v, Phi):
        alts = []
        for f, x in v.alts:
            try:
                alts.append((f, tuple(self.to_parts(x, st, node))))
            except PathDead:
                st.assume(f_not(f))
        if not alts:
            raise PathDead()
        return (("A", tuple(alts)),)
    if isinstance(v, Const):
        if isinstance(v.v, (str, tuple)):
            return tuple(("I", Const(x)) for x in v.v)
        if v.v is None:
            self.event("may-raise", ("TypeError", v), node, st)
            raise PathDead()
    if isinstance(v, Str) and all(n[0] == "L" for n in v.nodes):
        return tuple(("I", Const(x)) for x in "".join(n[1] for n in v.nodes))
    if isinstance(v, ClassV) and self.is_enum(v):
        return tuple(("I", self.enum_attr(v, n)) for n, _ in self.enum_members(v))
    if isinstance(v, Obj):
        c = self.content(st, v)
        if c.kind == "dict":
            return self.dict_parts(c, 0)
        if c.kind == "inst":
            raise Unsupported("iterate instance")
        return c.parts
    if isinstance(v, Sym):
        if v.op == "range":
            lo, hi, step = v.args
            if all(isinstance(x, Const) for x in v.args) and len(range(lo.v, hi.v, step.v)) <= 64:
                return tuple(("I", Const(i)) for i in range(lo.v, hi.v, step.v))
            lid = self.new_loop("range", v, node, (lo, hi, step))
            return (("R", lid, (("I", Sym("idx", lid)),)),)
        if v.op == "enumerate":
            return self.enumerate_parts(self.to_parts(v.args[0], st, node), v.args[1], node)
        if v.op == "items":
            base = v.args[0]
            lid = self.new_loop("items", base, node)
            k = Sym("key", lid, base)
            return (("R", lid, (("I", Tup((k, Sym("val", lid, base)))),)),)
        if v.op == "values":
            base = v.args[0]
            lid = self.new_loop("items", base, node)
            return (("R", lid, (("I", Sym("val", lid, base)),)),)
        if v.op == "keys":
            v = v.args[0]
        if coll_name(v) or v.op in ("rooms", "dictsym"):
            lid = self.new_loop("items", v, node)
            return (("R", lid, (("I", Sym("key", lid, v)),)),)
        if is_cell(v):
            return tuple(("I", Sym("item", v, Const(i))) for i in range(2))
        if typ(v) == frozenset(["Point"]):
            return tuple(("I", Sym("item", v, Const(i))) for i in range(4))
        if v.op in ("sorted", "coll", "reversed") and v.args and isinstance(v.args[-1], Sym) and v.args[-1].op not in ("seq",):
            return self.to_parts(v.args[-1], st, node)
        if v.op == "seq":
            if isinstance(v.args[1], Tup):
                return tuple(("I", x) for x in v.args[1].items)
            return v.args[1]
        if v.op == "seqparts":
            return v.args[0]
        lid = self.new_loop("elems", v, node)
        return (("R", lid, (("I", Sym("elem", lid, v)),)),)
    if isinstance(v, BoolF):
        raise PathDead()
    raise Unsupported(f"iterate {v!r}")


@method
def dict_parts(self, c, what):
    """what: 0 keys, 1 values, 2 items"""
    def pick(t):
        if what == 2:
            return t
        return t.items[what] if isinstance(t, Tup) else Sym("item", t, Const(what))

    def conv(ps):
        out = []
        for p in ps:
            if p[0] == "I":
                out.append(("I", pick(p[1])))
            elif p[0] == "R":
                out.append(("R", p[1], conv(p[2])))
            elif p[0] == "A":
                out.append(("A", tuple((f, conv(q)) for f, q in p[1])))
            else:
                out.append(p)
        return tuple(out)

    known = tuple(("I", (k, v)[what] if what < 2 else Tup((k, v))) for k, v in (c.known or ()))
    return known + conv(c.parts)


@method
def enumerate_parts(self, parts, start, node):
    if all(p[0] == "I" for p in parts):
        return tuple(("I", Tup((lin_build([(start, 1)], i), p[1]))) for i, p in enumerate(parts))
    if len(parts) == 1 and parts[0][0] == "R":
        lid = parts[0][1]

        def conv(ps, exact):
            out = []
            for p in ps:
                if p[0] == "I":
                    lp = self.loops.get(lid)
                    if exact and len(ps) == 1 and lp is not None and lp.kind == "elems":
                        cnt = Sym("idx", lid)
                    else:
                        cnt = Sym("cnt", lid)
                    out.append(("I", Tup((lin_build([(start, 1), (cnt, 1)], 0), p[1]))))
                elif p[0] == "R":
                    out.append(("R", p[1], conv(p[2], False)))
                elif p[0] == "A":
                    out.append(("A", tuple((f, conv(q, False)) for f, q in p[1])))
                else:
                    out.append(p)
            return tuple(out)

        return (("R", lid, conv(parts[0][2], True)),)
    lid = self.new_loop("elems", Sym("seqparts", tuple(parts)), node)
    return (("R", lid, (("I", Tup((Sym("cnt", lid), Sym("elem", lid, Sym("seqparts", tuple(parts)))))),)),)


# ------------------------------------------------------------------ comprehensions
@method
def comp(self, node, st, kind, elt):
    fid = self.frame_id_stack[-1]
    cfid = f"c{self.fresh()}"
    st.frames[cfid] = {"$parent": fid}
    acc = self.alloc(st, Content(kind))
    self.frame_id_stack.append(cfid)
    from .interp_stmt import Out

    def gen(i, s):
        if i == len(node.generators):
            v = elt(s)
            c = self.content(s, acc)
            s.heap[acc.oid] = c.with_parts(c.parts + (("I", v),))
            return Out(s)
        g = node.generators[i]
        parts = self.to_parts(self.ev(g.iter, s), s, node)

        def body(s2, v):
            self.assign(g.target, v, s2)
            return conds(0, s2)

        def conds(j, s2):
            if j == len(g.ifs):
                return gen(i + 1, s2)
            f = facts(s2.pc).simplify(self.cond(g.ifs[j], s2))
            if f is True:
                return conds(j + 1, s2)
            if f is False:
                return Out(s2)
            return self.branch(f, s2, lambda a: conds(j + 1, a), lambda a: Out(a))

        return self.iterate(parts, s, body)

    try:
        o = gen(0, st)
    finally:
        self.frame_id_stack.pop()
    if o.fall is None:
        raise PathDead()
    st.become(o.fall)
    st.frames.pop(cfid, None)
    return acc


@method
def ev_ListComp(self, node, st):
    return self.comp(node, st, "list", lambda s: self.ev(node.elt, s))


@method
def ev_GeneratorExp(self, node, st):
    return self.comp(node, st, "list", lambda s: self.ev(node.elt, s))


@method
def ev_SetComp(self, node, st):
    return self.comp(node, st, "set", lambda s: self.ev(node.elt, s))


@method
def ev_DictComp(self, node, st):
    acc = self.comp(node, st, "list", lambda s: Tup((self.key_norm(self.prune(self.ev(node.key, s), s), s), self.ev(node.value, s))))
    c = self.content(st, acc)
    known, parts = {}, []
    ok = all(p[0] == "I" and self.is_key(p[1].items[0]) for p in c.parts)
    if ok:
        for p in c.parts:
            known[p[1].items[0]] = p[1].items[1]
    else:
        parts = list(c.parts)
    st.heap[acc.oid] = Content("dict", parts, known=tuple(known.items()))
    return acc


# ------------------------------------------------------------------ calls
@method
def ev_Call(self, node, st):
    fn = self.prune(self.ev(node.func, st), st)
    if isinstance(fn, Builtin) and fn.name == "super":
        f, fid = self.fstack[-1] if self.fstack else (None, None)
        a = f.node.args if f is not None else None
        if f is not None and f.cls is not None and (a.posonlyargs or a.args):
            return Sym("super", f.cls, st.frames[fid][(a.posonlyargs + a.args)[0].arg])
        return Sym("super")
    args, kwargs = [], {}
    nstar = 0
    fixed = sum(1 for a in node.args if not isinstance(a, ast.Starred))
    for a in node.args:
        if isinstance(a, ast.Starred):
            v = self.ev(a.value, st)
            want = None
            if isinstance(fn, ClassV) and self.is_namedtuple(fn):
                want = 2 if fixed else 2
            for p in self.star_parts(v, st, a, want):
                if p[0] != "I":
                    nstar += 1
                    args.append(Sym("starargs", self.freeze(v, st)))
                    break
                args.append(p[1])
        else:
            args.append(self.ev(a, st))
    for k in node.keywords:
        if k.arg is None:
            v = self.prune(self.ev(k.value, st), st)
            if isinstance(v, Obj):
                c = self.content(st, v)
                if c.kind == "dict" and not c.parts:
                    for kk, vv in c.known or ():
                        kwargs[kk.v] = vv
                    continue
            raise Unsupported("** call")
        kwargs[k.arg] = self.ev(k.value, st)
    return self.call(fn, args, kwargs, st, node)


@method
def call(self, fn, args, kwargs, st, node):
    fn = self.prune(fn, st)
    if isinstance(fn, Phi):
        outs, sts = [], []
        for f, x in fn.alts:
            s = st.copy()
            s.assume(f)
            try:
                outs.append((f, self.call(x, list(args), dict(kwargs), s, node)))
                sts.append(s)
            except PathDead:
                pass
        m = merge_states(sts)
        if m is None:
            raise PathDead()
        st.become(m)
        return make_phi(outs)
    if isinstance(fn, Func):
        return self.call_func(fn, args, kwargs, st, node)
    if isinstance(fn, ClassV):
        return self.instantiate(fn, args, kwargs, st, node)
    if isinstance(fn, Bound):
        if fn.func is not None:
            deco = self.decorators(fn.func)
            first = [] if "staticmethod" in deco else [fn.self_]
            if "classmethod" in deco:
                first = [self.content(st, fn.self_).cls] if isinstance(fn.self_, Obj) else [fn.self_]
            return self.call_func(fn.func, first + args, kwargs, st, node)
        return self.call_method(fn.self_, fn.name, args, kwargs, st, node)
    if isinstance(fn, Builtin):
        return self.call_builtin(fn.name, args, kwargs, st, node)
    if isinstance(fn, Sym):
        self.event("call-unknown", (fn,), node, st)
        return Sym("call", fn, *[self.freeze(a, st) for a in args])
    raise Unsupported(f"call {fn!r}")


@method
def decorators(self, f):
    return {ast.unparse(d) for d in getattr(f.node, "decorator_list", [])}


@method
def call_func(self, f, args, kwargs, st, node):
    name = f.qual.rsplit(".", 1)[-1]
    self.event("call", (f.qual, tuple(self.freeze(a, st) for a in args), tuple((k, self.freeze(v, st)) for k, v in kwargs.items())), node, st)
    if name in self.opaque and not isinstance(f.node, ast.Lambda):
        return self.opaque_call(f, args, kwargs, st, node)
    if len(self.stack) > 40 or sum(1 for q, _ in self.stack if q == f.qual) > 6:
        return Sym("call", f.qual, *[self.freeze(a, st) for a in args])
    if len(self.stack) < 2 or f.cls is not None or isinstance(f.node, ast.Lambda) or f.frame is not None:
        return self.call_body(f, args, kwargs, st, node)
    backup = st.copy()
    try:
        return self.call_body(f, args, kwargs, st, node)
    except Unsupported as e:
        if "step budget" in str(e):
            raise
        st.become(backup)
        self.note(f"opaque {f.qual}: {e}", node)
        return Sym("unknown", f.qual, *[self.freeze(a, st) for a in args])


@method
def call_body(self, f, args, kwargs, st, node):
    fid = f"f{self.fresh()}"
    fr = {"$parent": f.frame}
    self.bind(f, args, kwargs, fr, st, node)
    st.frames[fid] = fr
    saved_mod = self.mod
    callsite = self.loc(node)
    self.mod = f.mod
    self.frame_id_stack.append(fid)
    self.stack.append((f.qual, callsite))
    self.fstack.append((f, fid))
    pc0 = st.pc
    try:
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, st)
            st.frames.pop(fid, None)
            return v
        isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node))
        y = None
        if isgen:
            y = self.alloc(st, Content("list"))
            st.frames[fid]["$yield"] = y
        o = self.exec_block(f.node.body, st)
        ends = []
        for s, v in o.rets:
            s.frames.setdefault(fid, {})["$ret"] = y if isgen else v
            ends.append(s)
        if o.fall is not None:
            o.fall.frames.setdefault(fid, {})["$ret"] = y if isgen else NONE
            ends.append(o.fall)
        m = merge_states(ends)
        if m is None:
            raise PathDead()
        st.become(m)
        v = st.frames[fid]["$ret"]
        # keep the frame only when a closure may still refer to it
        if not any(isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not f.node for n in ast.walk(f.node)):
            st.frames.pop(fid, None)
        return v
    finally:
        self.stack.pop()
        self.fstack.pop()
        self.frame_id_stack.pop()
        self.mod = saved_mod


@method
def own_nodes(self, fnode):
    """Nodes of a function, not descending into nested functions."""
    todo = list(fnode.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


@method
def bind(self, f, args, kwargs, fr, st, node):
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    for i, p in enumerate(params):
        if i < len(args):
            fr[p] = args[i]
        elif p in kwargs:
            fr[p] = kwargs.pop(p)
        else:
            j = i - (len(params) - len(f.defaults))
            if 0 <= j < len(f.defaults):
                fr[p] = f.defaults[j]
            else:
                self.event("may-raise", ("TypeError-args", Const(p)), node, st)
                raise PathDead()
    rest = args[len(params):]
    if a.vararg:
        fr[a.vararg.arg] = Tup(rest)
    elif rest:
        self.event("may-raise", ("TypeError-args", Const(len(rest))), node, st)
        raise PathDead()
    kwd = dict(f.kwdefaults)
    for k in a.kwonlyargs:
        if k.arg in kwargs:
            fr[k.arg] = kwargs.pop(k.arg)
        elif k.arg in kwd:
            fr[k.arg] = kwd[k.arg]
        else:
            raise PathDead()
    if a.kwarg:
        fr[a.kwarg.arg] = self.alloc(st, Content("dict", (), known=tuple((Const(k), v) for k, v in kwargs.items())))
        kwargs = {}
    if kwargs:
        self.event("may-raise", ("TypeError-args", Const(next(iter(kwargs)))), node, st)
        raise PathDead()


@method
def opaque_call(self, f, args, kwargs, st, node):
    fr = {}
    self.bind(f, args, dict(kwargs), fr, st, node)
    a = f.node.args
    vals = tuple(self.freeze(fr[x.arg], st) for x in a.posonlyargs + a.args)
    if f.qual.endswith("full_bfs"):
        return Sym("rooms", *vals)
    return Sym("call", f.qual, *vals)


@method
def instantiate(self, cls, args, kwargs, st, node):
    if self.is_namedtuple(cls):
        fields = self.namedtuple_fields(cls)
        vals = []
        kw = dict(kwargs)
        for i, (nm, dflt) in enumerate(fields):
            if i < len(args):
                vals.append(args[i])
            elif nm in kw:
                vals.append(kw.pop(nm))
            elif dflt is not None:
                saved = self.mod
                self.mod = cls.mod
                try:
                    v = self.ev(dflt, st)
                finally:
                    self.mod = saved
                vals.append(v)
            else:
                self.event("may-raise", ("TypeError-args", Const(nm)), node, st)
                raise PathDead()
        return Tup(vals)
    if self.is_enum(cls):
        if isinstance(args[0], Const):
            for n, val in self.enum_members(cls):
                if val == args[0]:
                    return EnumV(cls.name, n, val)
        return Sym("enumof", cls.name, self.freeze(args[0], st))
    obj = self.alloc(st, Content("inst", (), {}, cls))
    init = self.class_lookup(cls, "__init__")
    self.event("new", (cls.name, tuple(self.freeze(a, st) for a in args)), node, st)
    if init is not None and init[0] == "func":
        self.call_func(init[1], [obj] + list(args), kwargs, st, node)
    return obj


# ------------------------------------------------------------------ methods of values
PURE = {
    "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "isdigit", "isspace", "isalpha", "isnumeric", "isdecimal",
    "startswith", "endswith", "lower", "upper", "zfill", "find", "count", "index", "title", "partition", "rpartition",
    "capitalize", "isalnum", "removeprefix", "removesuffix", "ljust", "rjust", "splitlines", "rfind", "isupper", "islower",
}


@method
def lift_const(self, v, st, parts=True):
    """python value -> V"""
    if isinstance(v, (list,)):
        return self.alloc(st, Content("list", [("I", self.lift_const(x, st)) for x in v]))
    if isinstance(v, tuple):
        return Tup(self.lift_const(x, st) for x in v)
    return Const(v)


@method
def call_method(self, obj, name, args, kwargs, st, node):
    obj = self.prune(obj, st)
    if isinstance(obj, Phi):
        return self.lift(st, lambda o: self.call_method(o, name, args, kwargs, st, node), obj)
    if isinstance(obj, Sym) and obj.op == "super":
        # method of the next class
        cls = None
        for q, _ in reversed(self.stack):
            pass
        return NONE
    if isinstance(obj, Str) and all(n[0] == "L" for n in obj.nodes) and name not in ("join", "format", "strip"):
        obj = Const("".join(n[1] for n in obj.nodes))
    if (isinstance(obj, Const) and isinstance(obj.v, str)) or isinstance(obj, Str) or (isinstance(obj, Sym) and typ(obj) == frozenset(["str"])):
        return self.str_method(obj, name, args, kwargs, st, node)
    if isinstance(obj, Obj):
        return self.obj_method(obj, name, args, kwargs, st, node)
    if isinstance(obj, Sym):
        return self.sym_method(obj, name, args, kwargs, st, node)
    if isinstance(obj, Tup):
        if name == "index" and isinstance(args[0], Const):
            for i, x in enumerate(obj.items):
                if x == args[0]:
                    return Const(i)
        if name == "_replace":
            it = list(obj.items)
            for k, v in kwargs.items():
                it[("r", "c", "d", "pos").index(k)] = v
            return Tup(it)
        return Sym("mcall", name, obj, *[self.freeze(a, st) for a in args])
    if isinstance(obj, Const):
        if obj.v is None or isinstance(obj.v, int):
            self.event("may-raise", ("AttributeError", Const(name)), node, st)
            raise PathDead()
    return Sym("mcall", name, self.freeze(obj, st), *[self.freeze(a, st) for a in args])


def plain(v):
    if isinstance(v, Const):
        return v
    if isinstance(v, Str) and all(n[0] == "L" for n in v.nodes):
        return Const("".join(n[1] for n in v.nodes))
    return None


@method
def str_method(self, obj, name, args, kwargs, st, node):
    args = [self.prune(a, st) for a in args]
    if name == "join":
        return self.join(obj, args[0], st, node)
    if name == "format":
        return self.str_format(obj, args, kwargs, st, node)
    if isinstance(obj, Str) and name in ("strip", "rstrip", "lstrip") and not args:
        n = list(obj.nodes)
        if name != "rstrip":
            while n and n[0][0] == "L":
                t = n[0][1].lstrip()
                if t:
                    n[0] = ("L", t, n[0][2])
                    break
                n.pop(0)
        if name != "lstrip":
            while n and n[-1][0] == "L":
                t = n[-1][1].rstrip()
                if t:
                    n[-1] = ("L", t, n[-1][2])
                    break
                n.pop()
        return Str(n)
    pargs = [plain(a) for a in args]
    po = plain(obj)
    if po is not None and all(a is not None for a in pargs) and name in PURE and not kwargs:
        try:
            return self.lift_const(getattr(po.v, name)(*[a.v for a in pargs]), st)
        except (TypeError, ValueError):
            self.event("may-raise", ("ValueError", Const(name)), node, st)
            raise PathDead()
    if isinstance(obj, Str) and name == "replace" and len(args) == 2:
        pat = _items(as_nodes(args[0], self.loc(node)))
        ins = as_nodes(args[1], self.loc(node))
        if pat and all(x[0] in ("c", "H") for x in pat):
            fa = tuple(self.freeze(x, st) for x in args)
            return Str(_replace(obj.nodes, pat, ins, fa))
    if name == "startswith" and isinstance(obj, Str) and obj.nodes and obj.nodes[0][0] == "L" and pargs and pargs[0] is not None and isinstance(pargs[0].v, str):
        t, p = obj.nodes[0][1], pargs[0].v
        if len(t) >= len(p) or not p.startswith(t):
            return Const(t.startswith(p))
    base = self.freeze(obj, st)
    if name in ("encode",):
        return Sym("mcall", name, base)
    return Sym("mcall", name, base, *[self.freeze(a, st) for a in args])


@method
def str_format(self, obj, args, kwargs, st, node):
    p = plain(obj)
    if p is None:
        raise Unsupported("format on template")
    import string
    nodes = ()
    auto = 0
    loc = self.loc(node)
    for text, field, spec, conv in string.Formatter().parse(p.v):
        if text:
            nodes += (("L", text, loc),)
        if field is not None:
            if spec:
                raise Unsupported("format spec")
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                raise Unsupported("format field")
            nodes += self.fstr_nodes(v, st, loc, node)
    return Str(self.fuse(nodes))


@method
def join(self, sep, seq, st, node):
    parts = self.to_parts(seq, st, node)
    sepn = tuple(n for n in as_nodes(sep, self.loc(node)) if n[0] != "L" or n[1])
    loc = self.loc(node)

    def item_nodes(v):
        v2 = self.prune(v, st)
        if isinstance(v2, Phi):
            return (("A", tuple((f, item_nodes(x)) for f, x in v2.alts)),)
        return as_nodes(v2, loc)

    def conv(ps, first):
        """-> nodes; separators are put between items; R carries its own separator"""
        out = ()
        for p in ps:
            if p[0] == "I":
                piece = item_nodes(p[1])
            elif p[0] == "R":
                inner = conv(p[2], True)
                piece = (("R", p[1], inner, sepn),)
            elif p[0] == "A":
                piece = (("A", tuple((f, conv(q, True)) for f, q in p[1])),)
            else:
                piece = (p,)
            if not first:
                if p[0] == "I" or not sepn:
                    out += sepn + piece
                else:
                    out += (("S", sepn, piece),)
            else:
                out += piece
                first = False
        return out

    ns = conv(parts, True)
    if all(n[0] == "L" for n in ns):
        s = "".join(n[1] for n in ns)
        if not self.is_program_literal(s):
            return Const(s)
    return Str(self.fuse(ns))


@method
def obj_method(self, obj, name, args, kwargs, st, node):
    c = self.content(st, obj)
    if c.kind == "inst":
        r = self.class_lookup(c.cls, name)
        if r is not None and r[0] == "func":
            return self.call_func(r[1], [obj] + args, kwargs, st, node)
        return Sym("mcall", name, self.freeze(obj, st), *[self.freeze(a, st) for a in args])
    if name in ("append", "appendleft"):
        new = c.parts + (("I", args[0]),) if name == "append" else (("I", args[0]),) + c.parts
        self.put(st, obj, c.with_parts(new), node)
        return NONE
    if name == "add":
        if ("I", args[0]) in c.parts:
            if c.owner is not None:
                self.put(st, obj, c, node)
            return NONE
        self.put(st, obj, c.with_parts(c.parts + (("I", args[0]),)), node)
        return NONE
    if name in ("extend", "update", "extendleft") and c.kind != "dict":
        parts = c.parts
        for a in args:
            parts = parts + tuple(self.to_parts(a, st, node))
        self.put(st, obj, c.with_parts(parts), node)
        return NONE
    if name == "clear":
        self.put(st, obj, c.with_known((), ()) if c.kind == "dict" else c.with_parts(()), node)
        return NONE
    if name == "copy":
        return self.alloc(st, Content(c.kind, c.parts, None, None, None, c.known))
    if name in ("remove", "discard"):
        if ("I", args[0]) in c.parts:
            ps = list(c.parts)
            ps.remove(("I", args[0]))
            self.put(st, obj, c.with_parts(ps), node)
        else:
            self.put(st, obj, c, node)
        return NONE
    if name == "insert":
        if isinstance(args[0], Const) and all(p[0] == "I" for p in c.parts):
            ps = list(c.parts)
            ps.insert(args[0].v, ("I", args[1]))
            self.put(st, obj, c.with_parts(ps), node)
            return NONE
        self.put(st, obj, c.with_parts(c.parts + (("I", args[1]),)), node)
        return NONE
    if name in ("pop", "popleft") and c.kind != "dict":
        i = 0 if name == "popleft" else (args[0].v if args and isinstance(args[0], Const) else -1)
        if c.parts and all(p[0] == "I" for p in c.parts) and (not args or isinstance(args[0], Const)) and -len(c.parts) <= i < len(c.parts):
            ps = list(c.parts)
            v = ps.pop(i)[1]
            self.put(st, obj, c.with_parts(ps), node)
            return v
        self.put(st, obj, c, node)
        return Sym("popped", self.freeze(obj, st))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        if name == "union":
            parts = list(c.parts)
            for a in args:
                for p in self.to_parts(a, st, node):
                    if p not in parts:
                        parts.append(p)
            return self.alloc(st, Content("set", parts))
        if name == "difference":
            other = [p for a in args for p in self.to_parts(a, st, node)]
            if all(p[0] == "I" and is_const_deep(p[1]) for p in list(c.parts) + other):
                return self.alloc(st, Content("set", [p for p in c.parts if p not in other]))
        return Sym("mcall", name, self.freeze(obj, st), *[self.freeze(a, st) for a in args])
    if c.kind == "dict":
        if name in ("items", "keys", "values"):
            return self.alloc(st, Content("list", self.dict_parts(c, {"keys": 0, "values": 1, "items": 2}[name])))
        if name == "get":
            k = self.prune(args[0], st)
            if isinstance(k, Phi):
                alts = [(f, x) for f, x in k.alts if infeasible(st.pc + (f,), typ) is not True]
                k = make_phi(alts) if alts else k
            k = self.key_norm(k, st)
            d = args[1] if len(args) > 1 else NONE
            if not c.parts:
                alts, none = [], []
                for kk, vv in c.known or ():
                    f = self.cmp_eq(k, kk, st)
                    if f is False:
                        continue
                    if f is True:
                        return vv
                    alts.append((f, vv))
                    none.append(f_not(f))
                alts.append((f_and(none), d))
                return make_phi(alts)
            return Sym("dget", self.freeze(obj, st), k)
        if name == "setdefault":
            k = self.prune(args[0], st)
            if isinstance(k, Phi):
                alts = [(f, x) for f, x in k.alts if infeasible(st.pc + (f,), typ) is not True]
                k = make_phi(alts) if alts else k
            k = self.key_norm(k, st)
            d = args[1] if len(args) > 1 else NONE
            for kk, vv in c.known or ():
                if kk == k and not c.parts:
                    return vv
            if self.is_key(k) and not c.parts:
                self.put(st, obj, c.with_known(tuple(c.known or ()) + ((k, d),)), node)
                return d
            for p in c.parts:
                if p[0] == "I" and isinstance(p[1], Tup) and p[1].items[0] == k:
                    return p[1].items[1]
            self.put(st, obj, c.with_known(c.known or (), c.parts + (("I", Tup((k, d))),)), node)
            if isinstance(d, Obj):
                self.shared_objs.add(d.oid)
            return d
        if name == "update":
            known, parts = dict(c.known or ()), list(c.parts)
            for a in args:
                a = self.prune(a, st)
                if isinstance(a, Obj) and self.content(st, a).kind == "dict":
                    ca = self.content(st, a)
                    known.update(dict(ca.known or ()))
                    parts += ca.parts
                else:
                    parts += list(self.to_parts(a, st, node))
            self.put(st, obj, c.with_known(known.items(), parts), node)
            return NONE
        if name == "pop":
            self.put(st, obj, c, node)
            return Sym("popped", self.freeze(obj, st))
    if name == "sort":
        self.put(st, obj, c, node)
        return NONE
    if name == "reverse":
        self.put(st, obj, c.with_parts(tuple(reversed(c.parts))), node)
        return NONE
    if name == "index" and isinstance(args[0], Const):
        for i, p in enumerate(c.parts):
            if p[0] != "I":
                break
            if p[1] == args[0]:
                return Const(i)
    return Sym("mcall", name, self.freeze(obj, st), *[self.freeze(a, st) for a in args])


def is_const_deep(v):
    return is_const(v) or (isinstance(v, Tup) and all(is_const_deep(x) for x in v.items))


@method
def sym_method(self, obj, name, args, kwargs, st, node):
    args = [self.prune(a, st) for a in args]
    cn = coll_name(obj)
    if cn or obj.op in ("rooms", "dictsym"):
        if name in ("items", "keys", "values"):
            return Sym(name, obj)
        if name == "get":
            k = self.point_norm(args[0], st)
            if isinstance(k, Sym) and k.op == "key" and k.args[1] == obj:
                return Sym("val", k.args[0], obj)
            g = Sym("get", obj, k)
            if len(args) > 1 and args[1] != NONE:
                f = lit(Sym("eq", g, NONE))
                return make_phi([(f, args[1]), (f_not(f), g)])
            F = facts(st.pc)
            if F.value(Sym("in", k, obj)) is True:
                return Sym("lookup", obj, k)
            return g
        if name == "copy":
            return obj
        if name in ("pop", "clear", "update", "setdefault", "popitem"):
            self.event("mutate-input", (obj, Const(name)), node, st)
            return Sym("mcall", name, obj, *[self.freeze(a, st) for a in args])
    if obj.op == "attr" and obj.args[1] == "param" and name == "get":
        k = self.key_norm(args[0], st)
        self.param_reads.setdefault(k.v if isinstance(k, Const) else k, self.loc(node))
        return Sym("param", k.v if isinstance(k, Const) else k)
    ts = self.fact_types(obj, st)
    if ts is not None and name in PURE | {"join", "format"}:
        bad = ts - {"str"}
        if bad:
            self.event("may-raise", ("AttributeError", obj, tuple(sorted(bad))), node, st)
        if "str" in ts:
            st.assume(lit(Sym("isinst", obj, "str")) if bad else True)
    elif ts is None and name in PURE:
        self.event("str-method-any", (obj, name), node, st)
    if name == "union" or name == "difference" or name == "intersection":
        return Sym("mcall", name, obj, *[self.freeze(a, st) for a in args])
    if name in ("append", "add", "remove", "discard", "extend", "insert", "sort", "setdefault", "clear", "update", "pop"):
        self.event("mutate-input", (obj, Const(name)), node, st)
    return Sym("mcall", name, self.freeze(obj, st), *[self.freeze(a, st) for a in args])


# ------------------------------------------------------------------ builtins
@method
def call_builtin(self, name, args, kwargs, st, node):
    short = name.rsplit(".", 1)[-1]
    fn = getattr(self, "bi_" + short, None)
    if fn is not None:
        return fn(args, kwargs, st, node)
    if name.startswith("random."):
        self.event("random", (name,), node, st)
        return Sym("random", name, *[self.freeze(a, st) for a in args])
    if all(isinstance(a, Const) for a in args) and name.startswith("math.") and hasattr(math, short):
        return Const(getattr(math, short)(*[a.v for a in args]))
    self.event("call-external", (name, tuple(self.freeze(a, st) for a in args)), node, st)
    return Sym("call", name, *[self.freeze(a, st) for a in args])


@method
def bi_len(self, args, kwargs, st, node):
    def one(v):
        if isinstance(v, Const) and hasattr(v.v, "__len__"):
            return Const(len(v.v))
        if isinstance(v, Tup):
            return Const(len(v.items))
        if isinstance(v, Str):
            if all(n[0] == "L" for n in v.nodes):
                return Const(len("".join(n[1] for n in v.nodes)))
            return Sym("len", self.freeze(v, st))
        if isinstance(v, Obj):
            c = self.content(st, v)
            if c.kind == "dict" and not c.parts:
                return Const(len(c.known or ()))
            if all(p[0] == "I" for p in c.parts) and (c.kind != "set" or all(is_const_deep(p[1]) for p in c.parts)):
                return Const(len(c.parts))
            return Sym("len", self.freeze(v, st))
        if isinstance(v, Sym) and v.op == "range" and v.args[0] == Const(0) and v.args[2] == Const(1):
            return v.args[1]
        ts = self.fact_types(v, st)
        if ts is not None and ts & {"int", "none", "bool"}:
            self.event("may-raise", ("TypeError-len", v, tuple(sorted(ts))), node, st)
        if isinstance(v, Sym) and v.op in ("sorted", "coll") and isinstance(v.args[-1], Sym):
            return Sym("len", v.args[-1])
        return Sym("len", v)

    return self.lift(st, one, args[0])


@method
def bi_range(self, args, kwargs, st, node):
    if len(args) == 1:
        a = (Const(0), args[0], Const(1))
    elif len(args) == 2:
        a = (args[0], args[1], Const(1))
    else:
        a = tuple(args)
    return self.lift(st, lambda x, y, z: Sym("range", x, y, z), *a)


@method
def bi_enumerate(self, args, kwargs, st, node):
    start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
    parts = self.to_parts(args[0], st, node)
    return self.alloc(st, Content("list", self.enumerate_parts(parts, start, node)))


@method
def bi_zip(self, args, kwargs, st, node):
    ps = [self.to_parts(a, st, node) for a in args]
    if all(p[0] == "I" for q in ps for p in q):
        return self.alloc(st, Content("list", [("I", Tup(x[1] for x in t)) for t in zip(*ps)]))
    lid = self.new_loop("zip", Tup(self.freeze(a, st) for a in args), node)
    vals = []
    for a, q in zip(args, ps):
        if len(q) == 1 and q[0][0] == "R" and len(q[0][2]) == 1 and q[0][2][0][0] == "I":
            vals.append(Sym("zipelem", lid, q[0][2][0][1]))
        else:
            vals.append(Sym("elem", lid, self.freeze(a, st)))
    return self.alloc(st, Content("list", [("R", lid, (("I", Tup(vals)),))]))


@method
def bi_map(self, args, kwargs, st, node):
    from .interp_stmt import Out
    fn = args[0]
    acc = self.alloc(st, Content("list"))
    if len(args) > 2:
        z = self.bi_zip(args[1:], {}, st, node)
        parts = self.to_parts(z, st, node)
        unp = True
    else:
        parts = self.to_parts(args[1], st, node)
        unp = False

    def body(s, v):
        a = list(v.items) if unp else [v]
        r = self.call(fn, a, {}, s, node)
        c = self.content(s, acc)
        s.heap[acc.oid] = c.with_parts(c.parts + (("I", r),))
        return Out(s)

    o = self.iterate(parts, st, body)
    if o.fall is None:
        raise PathDead()
    st.become(o.fall)
    return acc


@method
def bi_filter(self, args, kwargs, st, node):
    from .interp_stmt import Out
    fn = args[0]
    acc = self.alloc(st, Content("list"))

    def body(s, v):
        r = self.call(fn, [v], {}, s, node) if fn != NONE else v
        f = facts(s.pc).simplify(self.truth(r, s))

        def yes(a):
            c = self.content(a, acc)
            a.heap[acc.oid] = c.with_parts(c.parts + (("I", v),))
            return Out(a)

        if f is True:
            return yes(s)
        if f is False:
            return Out(s)
        return self.branch(f, s, yes, lambda a: Out(a))

    o = self.iterate(self.to_parts(args[1], st, node), st, body)
    if o.fall is None:
        raise PathDead()
    st.become(o.fall)
    return acc


def _sort_key(v):
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(_sort_key(x) for x in v.items)
    raise Unsupported("sort key")


@method
def bi_sorted(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    if not kwargs and all(p[0] == "I" and is_const_deep(p[1]) for p in parts):
        return self.alloc(st, Content("list", sorted(parts, key=lambda p: _sort_key(p[1]))))
    if isinstance(args[0], Sym):
        return Sym("sorted", args[0])
    return self.alloc(st, Content("list", parts))


@method
def bi_reversed(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    return self.alloc(st, Content("list", tuple(reversed(parts))))


@method
def _mk(self, kind, args, st, node):
    if not args:
        return self.alloc(st, Content(kind, known=() if kind == "dict" else None))
    a = self.prune(args[0], st)
    if kind == "tuple":
        if isinstance(a, Tup):
            return a
        if isinstance(a, Sym) and (is_cells(a) or is_cell(a) or typ(a) == frozenset(["Point"])):
            return a
        parts = self.to_parts(a, st, node)
        if all(p[0] == "I" for p in parts):
            return Tup(p[1] for p in parts)
        return self.alloc(st, Content("tuple", parts))
    if isinstance(a, Sym) and is_cells(a):
        return Sym("coll", kind, a)
    parts = self.to_parts(a, st, node)
    if kind == "set":
        out = []
        for p in parts:
            if p not in out:
                out.append(p)
        parts = out
    return self.alloc(st, Content(kind, parts))


@method
def bi_list(self, args, kwargs, st, node):
    return self._mk("list", args, st, node)


@method
def bi_tuple(self, args, kwargs, st, node):
    return self._mk("tuple", args, st, node)


@method
def bi_set(self, args, kwargs, st, node):
    return self._mk("set", args, st, node)


@method
def bi_frozenset(self, args, kwargs, st, node):
    return self._mk("set", args, st, node)


@method
def bi_deque(self, args, kwargs, st, node):
    return self._mk("list", args, st, node)


@method
def bi_dict(self, args, kwargs, st, node):
    o = self.alloc(st, Content("dict", known=tuple((Const(k), v) for k, v in kwargs.items())))
    if args:
        self.obj_method(o, "update", [args[0]], {}, st, node)
    return o


@method
def bi_defaultdict(self, args, kwargs, st, node):
    return Sym("ddict", Const(self.fresh()))


@method
def bi_Counter(self, args, kwargs, st, node):
    return Sym("call", "collections.Counter", *[self.freeze(a, st) for a in args])


@method
def bi_str(self, args, kwargs, st, node):
    def one(v):
        if isinstance(v, Const):
            return Const(str(v.v))
        if isinstance(v, Str):
            return v
        if isinstance(v, Sym):
            if typ(v) == frozenset(["str"]):
                return v
            return Sym("str", v)
        return Sym("str", self.freeze(v, st))

    return self.lift(st, one, args[0]) if args else Const("")


bi_repr = bi_str


@method
def bi_int(self, args, kwargs, st, node):
    if len(args) > 1:
        if all(isinstance(a, Const) for a in args):
            return Const(int(args[0].v, args[1].v))
        return Sym("fn_int", "int", *[self.freeze(a, st) for a in args])

    def one(v):
        if isinstance(v, Const):
            try:
                return Const(int(v.v))
            except (TypeError, ValueError):
                self.event("may-raise", ("ValueError", v), node, st)
                raise PathDead()
        ts = self.fact_types(v, st)
        if ts is not None and ts <= {"int"}:
            return v
        if isinstance(v, BoolF):
            return Sym("fn_int", v)
        self.event("int", (v,), node, st)
        return Sym("int", self.freeze(v, st))

    return self.lift(st, one, args[0]) if args else Const(0)


@method
def bi_bool(self, args, kwargs, st, node):
    return fval(self.truth(args[0], st))


@method
def bi_float(self, args, kwargs, st, node):
    return Sym("call", "float", *[self.freeze(a, st) for a in args])


@method
def bi_isinstance(self, args, kwargs, st, node):
    t = args[1]
    names = []

    def add_(t):
        if isinstance(t, Tup):
            for x in t.items:
                add_(x)
        elif isinstance(t, (Builtin, ClassV)):
            names.append(t.name.rsplit(".", 1)[-1])
        else:
            raise Unsupported("isinstance type")

    add_(t)
    nm = "|".join(sorted(names))

    def one(v):
        if isinstance(v, (Const, Str, EnumV, BoolF)):
            ts = typ(v)
            n = next(iter(ts))
            return Const(n in names or (n == "bool" and "int" in names))
        if isinstance(v, Tup):
            return Const("tuple" in names)
        if isinstance(v, Obj):
            return Const(self.content(st, v).kind in names)
        if isinstance(v, Sym) and v.op == "str":
            return Const("str" in names)
        s = Sym("isinst", v, nm)
        r = facts(st.pc).value(s)
        return BoolF(lit(s)) if r is None else Const(r)

    return self.lift(st, one, args[0])


@method
def bi_type(self, args, kwargs, st, node):
    if len(args) != 1:
        raise Unsupported("type() with three arguments")
    return Sym("typeof", args[0])


@method
def bi_any(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    if all(p[0] == "I" for p in parts):
        return fval(f_or([self.truth(p[1], st) for p in parts]))
    return BoolF(lit(Sym("any", tuple(parts))))


@method
def bi_all(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    if all(p[0] == "I" for p in parts):
        return fval(f_and([self.truth(p[1], st) for p in parts]))
    return BoolF(lit(Sym("all", tuple(parts))))


@method
def bi_sum(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    if all(p[0] == "I" for p in parts):
        r = args[1] if len(args) > 1 else Const(0)
        for p in parts:
            r = self.binop(ast.Add, r, p[1], st, node)
        return r
    return Sym("fn_int", "sum", self.freeze(args[0], st))


@method
def _minmax(self, which, args, kwargs, st, node):
    if len(args) > 1:
        vals = args
    else:
        parts = self.to_parts(args[0], st, node)
        vals = [p[1] for p in parts] if all(p[0] == "I" for p in parts) and parts else None
    if vals is not None and all(isinstance(v, Const) for v in vals) and not kwargs:
        return Const((min if which == "min" else max)(v.v for v in vals))
    if vals is not None:
        return Sym("fn_int", which, *sorted((self.freeze(v, st) for v in vals), key=repr))
    return Sym("fn_int", which, self.freeze(args[0], st))


@method
def bi_min(self, args, kwargs, st, node):
    return self._minmax("min", args, kwargs, st, node)


@method
def bi_max(self, args, kwargs, st, node):
    return self._minmax("max", args, kwargs, st, node)


@method
def bi_abs(self, args, kwargs, st, node):
    return self.lift(st, lambda v: Const(abs(v.v)) if isinstance(v, Const) else Sym("fn_int", "abs", self.freeze(v, st)), args[0])


@method
def bi_bin(self, args, kwargs, st, node):
    return Const(bin(args[0].v)) if isinstance(args[0], Const) else Sym("mcall", "replace", Sym("bin_", self.freeze(args[0], st)))


@method
def bi_divmod(self, args, kwargs, st, node):
    a, b = args
    return Tup((self.binop(ast.FloorDiv, a, b, st, node), self.binop(ast.Mod, a, b, st, node)))


@method
def bi_print(self, args, kwargs, st, node):
    return NONE


@method
def bi_iter(self, args, kwargs, st, node):
    return args[0]


@method
def bi_next(self, args, kwargs, st, node):
    a = self.prune(args[0], st)
    parts = self.to_parts(a, st, node)
    if parts and parts[0][0] == "I":
        return parts[0][1]
    self.event("next", (self.freeze(a, st),), node, st)
    if len(parts) == 1 and parts[0][0] == "R" and len(parts[0][2]) == 1 and parts[0][2][0][0] == "I":
        return parts[0][2][0][1]
    return Sym("next", self.freeze(a, st))


@method
def bi_product(self, args, kwargs, st, node):
    pl = [self.to_parts(a, st, node) for a in args]
    if "repeat" in kwargs:
        pl = pl * kwargs["repeat"].v
    if all(p[0] == "I" for q in pl for p in q):
        return self.alloc(st, Content("list", [("I", Tup(x[1] for x in t)) for t in itertools.product(*pl)]))

    def nest(i, pre):
        if i == len(pl):
            return (("I", Tup(pre)),)

        def conv(ps):
            out = []
            for p in ps:
                if p[0] == "I":
                    out += nest(i + 1, pre + (p[1],))
                elif p[0] == "R":
                    out.append(("R", p[1], conv(p[2])))
                elif p[0] == "A":
                    out.append(("A", tuple((f, conv(q)) for f, q in p[1])))
                else:
                    raise Unsupported("product")
            return tuple(out)

        return conv(pl[i])

    return self.alloc(st, Content("list", nest(0, ())))


@method
def bi_combinations(self, args, kwargs, st, node):
    parts = self.to_parts(args[0], st, node)
    n = args[1]
    if all(p[0] == "I" for p in parts) and isinstance(n, Const):
        return self.alloc(st, Content("list", [("I", Tup(x[1] for x in t)) for t in itertools.combinations(parts, n.v)]))
    src = self.freeze(args[0], st)
    lid = self.new_loop("combinations", Sym("combinations", src, n), node)
    k = n.v if isinstance(n, Const) else 2
    return self.alloc(st, Content("list", [("R", lid, (("I", Tup(Sym("celem", lid, Const(i), src) for i in range(k))),))]))


@method
def bi_reduce(self, args, kwargs, st, node):
    parts = self.to_parts(args[1], st, node)
    if all(p[0] == "I" for p in parts):
        acc = args[2] if len(args) > 2 else None
        for p in parts:
            acc = p[1] if acc is None else self.call(args[0], [acc, p[1]], {}, st, node)
        return acc
    return Sym("call", "reduce", *[self.freeze(a, st) for a in args])


@method
def bi_hash(self, args, kwargs, st, node):
    return Sym("fn_int", "hash", self.freeze(args[0], st))


@method
def bi_getattr(self, args, kwargs, st, node):
    n = plain(args[1])
    if n is None:
        raise Unsupported("getattr")
    return self.attr(args[0], n.v, st, node)


@method
def bi_type(self, args, kwargs, st, node):
    return Sym("typeof", self.freeze(args[0], st))


@method
def bi_ord(self, args, kwargs, st, node):
    return Const(ord(args[0].v)) if isinstance(args[0], Const) else Sym("fn_int", "ord", self.freeze(args[0], st))


@method
def bi_chr(self, args, kwargs, st, node):
    return Const(chr(args[0].v)) if isinstance(args[0], Const) else Sym("mcall", "lower", Sym("chr", self.freeze(args[0], st)))


@method
def bi_log2(self, args, kwargs, st, node):
    self.event("log", (self.freeze(args[0], st),), node, st)
    return Const(math.log2(args[0].v)) if isinstance(args[0], Const) else Sym("call", "log2", self.freeze(args[0], st))


# ------------------------------------------------------------------ replacement on symbolic text
def _items(nodes):
    out = []
    for n in nodes:
        if n[0] == "L":
            out.extend(("c", ch, n[2]) for ch in n[1])
        elif n[0] == "H":
            out.append(("H", n[1], n[2]))
        else:
            out.append(("N", n))
    return out


def _unitems(items):
    out = []
    for x in items:
        if x[0] == "c":
            if out and out[-1][0] == "L" and out[-1][2] == x[2]:
                out[-1] = ("L", out[-1][1] + x[1], x[2])
            else:
                out.append(("L", x[1], x[2]))
        elif x[0] == "H":
            out.append(("H", x[1], x[2]))
        else:
            out.append(x[1])
    return tuple(out)


def _replace(nodes, pat, ins, fa):
    items = _items(nodes)
    consts = "".join(x[1] for x in pat if x[0] == "c")
    out, i, k = [], 0, len(pat)
    while i < len(items):
        if len(items) - i >= k and all(items[i + j][0] == pat[j][0] and items[i + j][1] == pat[j][1] for j in range(k)):
            out.extend(_items(ins))
            i += k
            continue
        x = items[i]
        i += 1
        if x[0] == "N":
            n = x[1]
            if n[0] == "A":
                n = ("A", tuple((f, _replace(y, pat, ins, fa)) for f, y in n[1]))
            elif n[0] == "R":
                n = ("R", n[1], _replace(n[2], pat, ins, fa), _replace(n[3], pat, ins, fa))
            elif n[0] == "S":
                n = ("S", _replace(n[1], pat, ins, fa), _replace(n[2], pat, ins, fa))
            elif n[0] == "G":
                n = ("G", n[1], _replace(n[2], pat, ins, fa))
            out.append(("N", n))
        elif x[0] == "H" and all(y[0] == "c" for y in pat):
            t = typ(x[1])
            if t == frozenset(["int"]) and not (len(consts) == 1 and consts in "-0123456789" or consts.lstrip("-").isdigit()):
                out.append(x)
            else:
                v = x[1] if t == frozenset(["str"]) else Sym("str", x[1])
                out.append(("H", Sym("mcall", "replace", v, *fa), x[2]))
        else:
            out.append(x)
    return _unitems(out)
