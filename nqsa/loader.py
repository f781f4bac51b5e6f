"""Loads the Python sources of the analysed repository (never imports them)."""
from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("NQSA_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: the check must end with an error exit."""


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=rel)
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                child._parent = node  # type: ignore[attr-defined]
        self.imports = {}  # local name -> ("mod", modname) | ("from", modname, attr)
        self.defs = {}
        for st in ast.walk(self.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[(a.asname or a.name.split(".")[0])] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    is_pkg = os.path.basename(path) == "__init__.py"
                    parts = parts[: len(parts) - st.level + (1 if is_pkg else 0)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
        for st in self.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[st.name] = st


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        for top in ("noqx", "solver"):
            base = os.path.join(self.root, top)
            if not os.path.isdir(base):
                raise AnalysisBroken(f"directory {top}/ not found")
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if f.endswith(".py"):
                        self._add(os.path.join(dp, f))
        for f in ("main.py", "main_deploy.py"):
            p = os.path.join(self.root, f)
            if os.path.exists(p):
                self._add(p)

    def _add(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        self.modules[name] = Module(name, path, rel)

    def digest(self, extra=()):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b"\0" + self.modules[n].source.encode() + b"\0")
        for p in extra:
            fp = os.path.join(self.root, p)
            h.update(p.encode() + b"\0")
            if os.path.exists(fp):
                with open(fp, "rb") as f:
                    h.update(f.read())
        return h.hexdigest()

    def solver_modules(self):
        return sorted(n for n in self.modules if n.startswith("solver.") and n.count(".") == 1)

    # ---- classes
    def resolve(self, modname, name):
        """Resolve a global name to ('class'|'func'|'mod'|'ext', modname, node/None)."""
        seen = set()
        while (modname, name) not in seen:
            seen.add((modname, name))
            m = self.modules.get(modname)
            if m is None:
                return ("ext", modname, name)
            if name in m.defs:
                d = m.defs[name]
                return ("class" if isinstance(d, ast.ClassDef) else "func", modname, d)
            if name in m.imports:
                imp = m.imports[name]
                if imp[0] == "mod":
                    return ("mod", imp[1], None)
                sub = f"{imp[1]}.{imp[2]}"
                if sub in self.modules:
                    return ("mod", sub, None)
                modname, name = imp[1], imp[2]
                continue
            return ("var", modname, name)
        return ("ext", modname, name)

    def bases(self, modname, cls):
        out = []
        for b in cls.bases:
            if isinstance(b, ast.Name):
                k, m, n = self.resolve(modname, b.id)
                if k == "class":
                    out.append((m, n))
                else:
                    out.append((m, b.id))
            elif isinstance(b, ast.Attribute):
                out.append(("?", ast.unparse(b)))
        return out

    def mro(self, modname, cls):
        """Linear list of (module, ClassDef): depth first, good enough for single inheritance."""
        out = [(modname, cls)]
        for m, b in self.bases(modname, cls):
            if isinstance(b, ast.ClassDef):
                out += self.mro(m, b)
        return out

    def base_solver(self):
        m = self.modules.get("noqx.manager")
        if m is None:
            raise AnalysisBroken("noqx/manager.py not found")
        for d in m.defs.values():
            if isinstance(d, ast.ClassDef) and d.name == "Solver":
                return d
        raise AnalysisBroken("class Solver not found in noqx/manager.py")

    def solver_classes(self):
        """All subclasses of the Solver base: [(module name, ClassDef)]."""
        base = self.base_solver()
        out = []
        for n, m in sorted(self.modules.items()):
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef) and node is not base:
                    if any(c is base for _, c in self.mro(n, node)):
                        out.append((n, node))
        return out
