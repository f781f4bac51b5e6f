"""The registry of puzzle types and its published metadata, obtained by interpreting the manager on the files of solver/."""
import ast
import os

from .domain import Builtin, ClassV, Const, ModV, Obj, Phi, Str, Sym, Tup
from .interp import Interp
from .state import Content, PathDead, State, Unsupported

MANAGER = "noqx.manager"


class RegInterp(Interp):
    """Knows which modules the solver directory holds and which classes importing them creates."""

    def __init__(self, repo):
        super().__init__(repo)
        self.imported = []

    def attr(self, v, name, st, node):
        if isinstance(v, ClassV):
            if name == "__module__":
                return Const(v.mod)
            if name in ("__name__", "__qualname__"):
                return Const(v.name)
            if name == "__subclasses__":
                return Builtin("registry.subclasses:" + v.mod + ":" + v.name)
        if isinstance(v, Obj):
            c = self.content(st, v)
            if c.kind == "inst" and c.cls is not None and name == "__class__":
                return c.cls
        return super().attr(v, name, st, node)

    def call_builtin(self, name, args, kwargs, st, node):
        if name in ("pkgutil.iter_modules", "iter_modules"):
            a = args[0] if args else kwargs.get("path")
            dirs = self.strings(a, st)
            infos = []
            for d in dirs:
                base = os.path.join(self.repo.root, d)
                pref = kwargs.get("prefix")
                pref = pref.v if isinstance(pref, Const) else ""
                for f in sorted(os.listdir(base)) if os.path.isdir(base) else ():
                    pkg = os.path.isdir(os.path.join(base, f)) and os.path.exists(os.path.join(base, f, "__init__.py"))
                    if f.endswith(".py") and f != "__init__.py" or pkg:
                        n = Const(pref + (f if pkg else f[:-3]))
                        infos.append(("I", self.alloc(st, Content("inst", (), {"name": n, "ispkg": Const(pkg), "module_finder": Sym("finder")}, None))))
            return self.alloc(st, Content("list", tuple(infos)))
        if name in ("__import__", "importlib.import_module", "import_module"):
            m = args[0]
            if isinstance(m, Str):
                m = fold_str(m)
            if not isinstance(m, Const):
                raise Unsupported("import of an unknown module")
            self.import_(m.v)
            return ModV(m.v)
        if name.startswith("registry.subclasses:"):
            _, mod, cls = name.split(":")
            return self.alloc(st, Content("list", tuple(("I", c) for c in self.subclasses(mod, cls))))
        if name in ("os.listdir", "listdir"):
            d = self.strings(args[0], st)
            return self.alloc(st, Content("list", tuple(("I", Const(f)) for x in d for f in sorted(os.listdir(os.path.join(self.repo.root, x))))))
        return super().call_builtin(name, args, kwargs, st, node)

    def strings(self, v, st):
        if isinstance(v, (Const, Str)):
            v = v if isinstance(v, Const) else fold_str(v)
            return [v.v]
        if isinstance(v, Tup):
            return [x for y in v.items for x in self.strings(y, st)]
        if isinstance(v, Obj):
            return [x for p in self.content(st, v).parts if p[0] == "I" for x in self.strings(p[1], st)]
        raise Unsupported(f"unknown directory {v!r}")

    def import_(self, name, seen=None):
        """Loading a module loads those it imports first."""
        if name in self.imported or name not in self.repo.modules:
            return
        self.imported.append(name)
        for imp in self.repo.modules[name].imports.values():
            self.import_(imp[1])
            if imp[0] == "from":
                self.import_(f"{imp[1]}.{imp[2]}")

    def subclasses(self, mod, cls):
        out = []
        for name in self.imported:
            m = self.repo.modules[name]
            for st in m.tree.body:
                if isinstance(st, ast.ClassDef):
                    chain = list(self.repo.mro(name, st))
                    if any(self.base_is(name, b, mod, cls) for b in st.bases) and len(chain) > 1:
                        out.append(ClassV(st.name, name, st))
        return out

    def base_is(self, modname, base, mod, cls):
        m = self.repo.modules[modname]
        if isinstance(base, ast.Name):
            imp = m.imports.get(base.id)
            if imp and imp[0] == "from":
                return self.resolve(imp[1], imp[2]) == (mod, cls)
            return base.id in m.defs and (modname, base.id) == (mod, cls)
        if isinstance(base, ast.Attribute):
            parts = ast.unparse(base).split(".")
            imp = m.imports.get(parts[0])
            if imp:
                root = imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}"
                return self.resolve(".".join([root] + parts[1:-1]), parts[-1]) == (mod, cls)
        return False

    def resolve(self, modname, name, depth=0):
        m = self.repo.modules.get(modname)
        if m is None or depth > 8:
            return None
        if name in m.defs:
            return (modname, name)
        imp = m.imports.get(name)
        if imp and imp[0] == "from":
            return self.resolve(imp[1], imp[2], depth + 1)
        return None


def fold_str(v):
    if isinstance(v, Str) and all(n[0] == "L" for n in v.nodes):
        return Const("".join(n[1] for n in v.nodes))
    return v


class Registry:
    """types: {puzzle type: ClassV}; metadata: {puzzle type: {key: value}} (plain Python values)."""


def plain(it, st, v, depth=0):
    """Abstract value -> Python value; anything unknown -> Unknown."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Str):
        w = fold_str(v)
        return w.v if isinstance(w, Const) else Unknown
    if isinstance(v, Tup):
        return tuple(plain(it, st, x, depth + 1) for x in v.items)
    if isinstance(v, Obj) and depth < 12:
        c = it.content(st, v)
        if c.kind == "dict":
            if c.parts:
                return Unknown
            return {k: plain(it, st, x, depth + 1) for k, x in ((plain(it, st, a), b) for a, b in c.known or ())}
        if c.kind in ("list", "tuple", "set", "deque", "gen"):
            if any(p[0] != "I" for p in c.parts):
                return Unknown
            return [plain(it, st, p[1], depth + 1) for p in c.parts]
    return Unknown


class _Unknown:
    def __repr__(self):
        return "<unknown>"


Unknown = _Unknown()


def build(repo):
    """Interpret load_solvers("solver") and list_solver_metadata()."""
    it = RegInterp(repo)
    it.mod = MANAGER
    it.frame_id_stack = ["top"]
    it.stack = [("<start>", (repo.modules[MANAGER].rel, 0))]
    it.import_(MANAGER)
    st = State()
    st.frames["top"] = {}
    node = repo.modules[MANAGER].tree
    load = it.global_lookup(MANAGER, "load_solvers")
    lst = it.global_lookup(MANAGER, "list_solver_metadata")
    it.call_func(load, [Const("solver")], {}, st, node)
    mods = it.global_lookup(MANAGER, "modules")
    r = Registry()
    r.it, r.st = it, st
    c = it.content(st, mods)
    r.types, r.odd = {}, list(c.parts)
    for k, v in c.known or ():
        k = plain(it, st, k)
        cls = it.content(st, v).cls if isinstance(v, Obj) else v if isinstance(v, ClassV) else None
        r.types[k] = cls
    r.raw = it.call_func(lst, [], {}, st, node)
    r.metadata = plain(it, st, r.raw)
    r.known = {mods.oid} | {v.oid for _, v in c.known or () if isinstance(v, Obj)}
    return r
