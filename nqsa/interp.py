"""Abstract interpreter for the Python subset used by noqx (trace partitioning on path formulas)."""
from __future__ import annotations

import ast
import sys

from .arith import add, lin_build, mul_const, to_lin
from .domain import *  # noqa
from .domain import EMPTY, FALSE, NONE, TRUE, UNDEF
from .facts import is_const
from .loader import Repo
from .state import Content, PathDead, State, Unsupported, as_nodes, facts, make_phi, merge_parts, merge_states
from .types_ import coll_name, is_cell, is_cells, typ

sys.setrecursionlimit(20000)
PURE_STR = {
    "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "isdigit", "isspace", "isalpha", "isnumeric", "isdecimal",
    "startswith", "endswith", "lower", "upper", "zfill", "find", "count", "index", "title", "partition", "rpartition",
    "format", "capitalize", "isalnum", "removeprefix", "removesuffix", "ljust", "rjust", "center", "splitlines", "encode",
}
MAXDEPTH = 40
MAXSTEPS = 3_000_000


class Loop:
    __slots__ = ("id", "kind", "source", "loc", "args", "iter")

    def __init__(self, id_, kind, source, loc, args=None):
        self.id, self.kind, self.source, self.loc, self.args = id_, kind, source, loc, args

    def __repr__(self):
        return f"Loop{self.id}({self.kind}, {self.source!r}, {self.args})"


class Event:
    __slots__ = ("kind", "data", "loc", "fn", "pc", "loops", "chain")

    def __init__(self, kind, data, loc, fn, pc, loops, chain):
        self.kind, self.data, self.loc, self.fn, self.pc, self.loops, self.chain = kind, data, loc, fn, pc, loops, chain

    def __repr__(self):
        return f"{self.kind}{self.data} at {self.loc}"


class Interp:
    def __init__(self, repo: Repo, opaque=None):
        self.repo = repo
        self.opaque = opaque if opaque is not None else {"full_bfs"}
        self.globals = {}  # modname -> {name: V}
        self.gheap = {}
        self.loops = {}
        self.events = []
        self.lv_init = {}  # loop-carried variable -> its value before the loop
        self.shared_objs = set()
        self._ev_seen = set()
        self.quiet = 0
        self.nid = 0
        self.stack = []  # (qual, callsite loc)
        self.fstack = []  # (function, frame id)
        self.mod = None
        self.steps = 0
        self.notes = []
        self._classattrs = {}
        self.param_reads = {}  # parameter name -> first place it is read
        self.checked = {}  # loop -> facts about its elements established by earlier loops over the same source

    # ------------------------------------------------------------ plumbing
    def fresh(self):
        self.nid += 1
        return self.nid

    def loc(self, node):
        return (self.repo.modules[self.mod].rel, getattr(node, "lineno", 0))

    def event(self, kind, data, node, st):
        if self.quiet:
            return
        loc = self.loc(node)
        key = (kind, loc, getattr(node, "col_offset", 0), tuple(q for q, _ in self.stack), st.pc)
        if key in self._ev_seen:
            return
        self._ev_seen.add(key)
        self.events.append(Event(kind, data, loc, self.stack[-1][0] if self.stack else "<module>", st.pc, st.loops, tuple(self.stack)))

    def note(self, what, node):
        if not self.quiet:
            n = (what, self.loc(node))
            if n not in self.notes:
                self.notes.append(n)

    def alloc(self, st, content):
        oid = self.fresh()
        st.heap[oid] = content
        return Obj(oid)

    def content(self, st, obj):
        c = st.heap.get(obj.oid)
        if c is None:
            c = self.gheap.get(obj.oid)
        if c is None:
            raise Unsupported(f"dangling object {obj}")
        return c

    def put(self, st, obj, content, node):
        if content.owner is not None:
            self.event("mutate-shared", (content.owner,), node, st)
        st.heap[obj.oid] = content

    # ------------------------------------------------------------ modules
    def module_env(self, modname):
        env = self.globals.get(modname)
        if env is not None:
            return env
        env = self.globals[modname] = {}
        m = self.repo.modules[modname]
        saved = self.mod, self.stack
        self.mod = modname
        self.stack = [(f"{modname}:<module>", (m.rel, 0))]
        st = State()
        st.frames["G:" + modname] = env
        before = set(st.heap)
        for node in m.tree.body:
            try:
                if isinstance(node, (ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    env[node.name] = self.make_func(node, st, None, f"{modname}.{node.name}", owner=f"default argument of {node.name}")
                elif isinstance(node, ast.ClassDef):
                    env[node.name] = ClassV(node.name, modname, node)
                elif isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    self.exec_stmt_simple(node, st, "G:" + modname)
                    env.update(st.frames["G:" + modname])
                elif isinstance(node, ast.Expr):
                    continue
                elif isinstance(node, (ast.If, ast.For, ast.Try, ast.With, ast.While)):
                    # not executed: whatever it binds or may change is unknown afterwards
                    for t in ast.walk(node):
                        nm = None
                        if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                            nm = t.id
                        elif isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name):
                            nm = t.value.id
                        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and isinstance(t.func.value, ast.Name):
                            nm = t.func.value.id if t.func.value.id in env else None
                        if nm is not None and (nm in env or isinstance(t, ast.Name)):
                            env[nm] = Sym("global", f"{modname}.{nm}")
            except (Unsupported, PathDead):
                for t in ast.walk(node):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        env[t.id] = Sym("global", f"{modname}.{t.id}")
        for oid, c in st.heap.items():
            if oid not in before:
                nm = next((k for k, v in env.items() if v == Obj(oid)), "<module object>")
                self.gheap[oid] = Content(c.kind, c.parts, c.attrs, c.cls, c.owner or f"module-level object {modname}.{nm}", c.known)
        self.mod, self.stack = saved
        return env

    def exec_stmt_simple(self, node, st, fid):
        self.frame_id_stack = getattr(self, "frame_id_stack", [])
        self.frame_id_stack.append(fid)
        try:
            self.exec_block([node], st)
        finally:
            self.frame_id_stack.pop()

    def global_lookup(self, modname, name, node=None):
        m = self.repo.modules[modname]
        env = self.module_env(modname)
        if name in env:
            return env[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                return ModV(imp[1])
            sub = f"{imp[1]}.{imp[2]}"
            if sub in self.repo.modules:
                return ModV(sub)
            if imp[1] in self.repo.modules:
                return self.global_lookup(imp[1], imp[2])
            return Builtin(f"{imp[1]}.{imp[2]}")
        return None

    def make_func(self, node, st, frame, qual, cls=None, owner=None):
        defaults, kwd = [], {}
        if not isinstance(node, ast.Lambda) or node.args.defaults:
            before = set(st.heap)
            for d in node.args.defaults:
                defaults.append(self.ev(d, st))
            for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
                if d is not None:
                    kwd[a.arg] = self.ev(d, st)
            if owner:
                for oid in list(st.heap):
                    if oid not in before:
                        c = st.heap[oid]
                        st.heap[oid] = Content(c.kind, c.parts, c.attrs, c.cls, owner, c.known)
                        self.gheap.setdefault(oid, st.heap[oid])
        return Func(node, self.mod, frame, qual, cls, tuple(defaults), tuple(sorted(kwd.items())))

    # ------------------------------------------------------------ classes
    def class_lookup(self, clsv, name):
        """-> ('func', Func) | ('val', V) | None ; follows the MRO."""
        for mname, cnode in self.repo.mro(clsv.mod, clsv.node):
            for st in cnode.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.name == name:
                    saved = self.mod
                    self.mod = mname
                    tmp = State()
                    f = self.make_func(st, tmp, None, f"{mname}.{cnode.name}.{name}", cls=ClassV(cnode.name, mname, cnode),
                                       owner=f"default argument of {cnode.name}.{name}")
                    self.mod = saved
                    return ("func", f)
                tgt = None
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    tgt, val = st.targets[0].id, st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    tgt, val = st.target.id, st.value
                if tgt == name:
                    key = (mname, cnode.name, name)
                    if key not in self._classattrs:
                        saved = self.mod
                        self.mod = mname
                        tmp = State()
                        v = self.ev(val, tmp)
                        for oid, c in tmp.heap.items():
                            self.gheap[oid] = Content(c.kind, c.parts, c.attrs, c.cls, f"class attribute {cnode.name}.{name}", c.known)
                        self.mod = saved
                        self._classattrs[key] = v
                    return ("val", self._classattrs[key])
        return None

    def is_enum(self, clsv):
        for _, c in self.repo.mro(clsv.mod, clsv.node):
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id in ("Enum", "Flag", "IntEnum", "IntFlag"):
                    return b.id
        return None

    def is_namedtuple(self, clsv):
        for b in clsv.node.bases:
            if isinstance(b, ast.Name) and b.id == "NamedTuple":
                return True
        return False

    def enum_members(self, clsv):
        out = []
        for st in clsv.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                val = st.value
                if isinstance(val, ast.Constant):
                    out.append((st.targets[0].id, Const(val.value)))
                elif isinstance(val, ast.Call):
                    out.append((st.targets[0].id, Sym("auto", st.targets[0].id)))
                elif isinstance(val, ast.BinOp) and isinstance(val.op, ast.BitOr):
                    names = [n.id for n in ast.walk(val) if isinstance(n, ast.Name)]
                    out.append((st.targets[0].id, ("union", tuple(names))))
        return out

    def enum_attr(self, clsv, name):
        for n, val in self.enum_members(clsv):
            if n == name:
                if isinstance(val, tuple):
                    return Sym("flags", clsv.name, tuple(EnumV(clsv.name, x) for x in self.flag_expand(clsv, name)))
                return EnumV(clsv.name, n, val)
        return None

    def flag_expand(self, clsv, name):
        d = dict(self.enum_members(clsv))
        if isinstance(d[name], tuple):
            out = []
            for x in d[name][1]:
                for y in self.flag_expand(clsv, x):
                    if y not in out:
                        out.append(y)
            return out
        return [name]

    def namedtuple_fields(self, clsv):
        out = []
        for st in clsv.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.append((st.target.id, st.value))
        return out


from . import interp_expr, interp_stmt, interp_call  # noqa: E402

for _m in (interp_expr, interp_stmt, interp_call):
    for _k, _f in list(vars(_m).items()):
        if getattr(_f, "_method", False):
            setattr(Interp, _k, _f)
