"""Which functions write to state that outlives a request (flow-insensitive alias and effect analysis over the syntax trees).

A value is tracked by its roots: ("shared", description) for module-level objects, classes, functions, class-level and default-argument
objects and results of caching functions; ("param", i) for the function's own parameters.  Summaries (parameters mutated, roots returned)
are propagated through calls until nothing changes.
"""
import ast

MUTATORS = {"append", "add", "update", "setdefault", "pop", "popitem", "clear", "extend", "insert", "remove", "discard", "sort", "reverse",
            "appendleft", "popleft", "extendleft", "rotate", "__setitem__", "__delitem__", "__setattr__", "intersection_update", "difference_update",
            "symmetric_difference_update", "move_to_end", "subtract", "put", "put_nowait", "write", "writelines"}
ELEMENT = {"get", "setdefault", "pop", "values", "items", "keys", "popitem", "__getitem__", "most_common"}
FRESH_CALLS = {"list", "dict", "set", "tuple", "frozenset", "sorted", "str", "int", "float", "bool", "bytes", "deepcopy", "copy", "len", "sum", "min", "max",
               "abs", "range", "repr", "any", "all", "isinstance", "format", "round", "divmod", "ord", "chr", "hash", "id", "type", "deque", "Counter",
               "defaultdict", "OrderedDict", "join", "print", "super"}
PASS_CALLS = {"iter", "reversed", "enumerate", "zip", "filter", "next", "map"}
STATEFUL = {"count", "cycle", "iter"}
CACHES = {"lru_cache", "cache", "cached_property", "cached", "memoize"}


class FnInfo:
    def __init__(self, mod, node, cls, qual):
        self.mod, self.node, self.cls, self.qual = mod, node, cls, qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.mutates = {}  # param index -> description
        self.returns = set()  # roots
        self.writes = []  # (shared description, kind, lineno)
        self.calls = set()  # names referenced
        self.cached = None
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
            if nm in CACHES:
                unb = nm in ("cache", "cached_property")
                if nm == "lru_cache" and isinstance(d, ast.Call):
                    for v in list(d.args[:1]) + [k.value for k in d.keywords if k.arg == "maxsize"]:
                        if isinstance(v, ast.Constant) and v.value is None:
                            unb = True
                self.cached = (nm, unb)


class Effects:
    def __init__(self, repo):
        self.repo = repo
        self.fns = []
        self.by_name = {}
        self.methods = {}
        self.classes = {}
        self.modvars = {}
        for mn, m in repo.modules.items():
            self.modvars[mn] = self.module_vars(m)
            self.collect(mn, m.tree, None, mn)
        solver_cls = {id(c) for _, c in repo.solver_classes()} | {id(repo.base_solver())}
        self.solver_cls = solver_cls
        for _ in range(12):
            if not self.sweep():
                break

    # ---- tables
    def module_vars(self, m):
        out = set()
        todo = list(m.tree.body)
        while todo:
            st = todo.pop()
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(st.name)
                continue
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                continue
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.stmt):
                    todo.append(c)
                elif isinstance(c, ast.ExceptHandler):
                    todo += c.body
            tg = []
            if isinstance(st, ast.Assign):
                tg = st.targets
            elif isinstance(st, (ast.AnnAssign, ast.AugAssign, ast.For)):
                tg = [st.target]
            elif isinstance(st, ast.With):
                tg = [i.optional_vars for i in st.items if i.optional_vars]
            for t in tg:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
        return out

    def collect(self, mn, node, cls, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FnInfo(mn, c, cls, f"{prefix}.{c.name}")
                self.fns.append(f)
                (self.methods if cls is not None else self.by_name).setdefault(c.name, []).append(f)
                self.collect(mn, c, None, f.qual)
            elif isinstance(c, ast.ClassDef):
                self.classes.setdefault(c.name, []).append((mn, c))
                self.collect(mn, c, c, f"{prefix}.{c.name}")
            else:
                self.collect(mn, c, cls, prefix)

    def class_level(self, fn):
        """Names bound at class level and never rebound on the instance by an initialiser."""
        if fn.cls is None:
            return set()
        out, own = set(), set()
        for mn, cn in self.repo.mro(fn.mod, fn.cls):
            if not isinstance(cn, ast.ClassDef):
                continue
            for st in cn.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            out.add(t.id)
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    out.add(st.target.id)
                elif isinstance(st, ast.FunctionDef) and st.name == "__init__":
                    for n in ast.walk(st):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                            own.add(n.attr)
        return out - own

    def immutable(self, fn):
        """Attributes of fn's class that only ever hold strings or numbers (judged by annotation or initial value)."""
        key = id(fn.cls)
        self._imm = getattr(self, "_imm", {})
        if key not in self._imm:
            good, bad = set(), set()
            for _, cn in self.repo.mro(fn.mod, fn.cls):
                if not isinstance(cn, ast.ClassDef):
                    continue
                for n in ast.walk(cn):
                    t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) else None
                    nm = t.attr if isinstance(t, ast.Attribute) and getattr(t.value, "id", "") == "self" else t.id if isinstance(t, ast.Name) and getattr(n, "_parent", None) is cn else None
                    if nm is None:
                        continue
                    v = n.value
                    ann = getattr(n, "annotation", None)
                    if isinstance(ann, ast.Name) and ann.id in ("str", "int", "float", "bool"):
                        good.add(nm)
                    elif isinstance(v, (ast.Constant, ast.JoinedStr)):
                        good.add(nm)
                    elif isinstance(v, ast.BinOp):
                        pass
                    else:
                        bad.add(nm)
            self._imm[key] = good - bad
        return self._imm[key]

    # ---- analysis
    def sweep(self):
        changed = False
        for f in self.fns:
            before = (dict(f.mutates), set(f.returns), list(f.writes))
            Analyser(self, f).run()
            if (f.mutates, f.returns, f.writes) != before:
                changed = True
        return changed

    def targets(self, fn, call):
        """Possible project functions a call may reach: [(FnInfo, offset of explicit args)]."""
        c = call.func
        if isinstance(c, ast.Name):
            loc = [g for g in self.by_name.get(c.id, []) if g.mod == fn.mod]
            if loc:
                return [(g, 0) for g in loc]
            k, m, n = self.repo.resolve(fn.mod, c.id)
            if k == "func":
                return [(g, 0) for g in self.fns if g.node is n]
            if k == "class":
                for mm, cn in self.repo.mro(m, n):
                    if isinstance(cn, ast.ClassDef):
                        got = [(g, 1) for g in self.fns if g.cls is cn and g.node.name == "__init__"]
                        if got:
                            return got
            return []
        if isinstance(c, ast.Attribute):
            if isinstance(c.value, ast.Name):
                k, m, _ = self.repo.resolve(fn.mod, c.value.id)
                if k == "mod" and c.value.id in self.repo.modules[fn.mod].imports:
                    if m in self.repo.modules:
                        return [(g, 0) for g in self.by_name.get(c.attr, []) if g.mod == m]
                    return []
            return [(g, 1) for g in self.methods.get(c.attr, [])]
        return []


class Analyser:
    def __init__(self, eff, fn):
        self.e, self.f = eff, fn
        self.env = {}
        self.globals_ = set()
        self.locals = set(fn.params)
        self.imports = eff.repo.modules[fn.mod].imports
        for n in self.own(fn.node):
            if isinstance(n, (ast.Global,)):
                self.globals_ |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn.node:
                self.locals.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= self.globals_
        # enclosing functions' locals are not module variables
        p = getattr(fn.node, "_parent", None)
        self.outer = set()
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(p):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.outer.add(n.id)
                    if isinstance(n, ast.arg):
                        self.outer.add(n.arg)
            p = getattr(p, "_parent", None)
        self.clslevel = eff.class_level(fn)
        self.is_solver = fn.cls is not None and id(fn.cls) in eff.solver_cls

    def own(self, node):
        """Nodes of the function without nested function bodies (lambdas and comprehensions included)."""
        todo = list(ast.iter_child_nodes(node))
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def run(self):
        f = self.f
        f.writes = []
        f.calls = set()
        self.env = {p: {("param", i)} for i, p in enumerate(f.params)}
        a = f.node.args
        pos = a.posonlyargs + a.args
        for arg, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                isinstance(d, ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) in ("list", "dict", "set", "deque", "defaultdict", "Counter", "OrderedDict")
            ):
                self.env[arg.arg].add(("shared", f"default value of parameter {arg.arg} of {f.node.name}"))
        nodes = sorted(self.own(f.node), key=lambda n: (getattr(n, "lineno", 0), getattr(n, "col_offset", 0)))
        for _ in range(4):
            before = {k: set(v) for k, v in self.env.items()}
            for n in nodes:
                self.flow(n)
            if before == self.env:
                break
        for n in nodes:
            self.effect(n)
        if f.cached:
            f.returns = {("shared", f"cached result of {f.node.name}")}

    def bind(self, t, roots):
        if isinstance(t, ast.Name):
            if t.id not in self.globals_:
                self.env.setdefault(t.id, set()).update(roots)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, roots)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, roots)

    def flow(self, n):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for x, y in zip(t.elts, n.value.elts):
                        self.bind(x, self.roots(y))
                else:
                    self.bind(t, self.roots(n.value))
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self.bind(n.target, self.roots(n.value))
        elif isinstance(n, ast.NamedExpr):
            self.bind(n.target, self.roots(n.value))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            self.bind(n.target, self.roots(n.iter))
        elif isinstance(n, ast.comprehension):
            self.bind(n.target, self.roots(n.iter))
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, self.roots(i.context_expr))
        elif isinstance(n, ast.Return) and n.value is not None and not self.f.cached:
            self.f.returns |= self.roots(n.value)

    def name_root(self, name):
        if name in self.env:
            return set(self.env[name])
        if name in self.locals or name in self.outer:
            return set()
        if name in self.globals_ or name in self.e.modvars[self.f.mod]:
            return {("shared", f"module-level {name} of {self.f.mod}")}
        if name in self.imports:
            imp = self.imports[name]
            if imp[0] == "mod":
                return {("import", imp[1])}
            return {("shared", f"module-level {imp[2]} of {imp[1]}")}
        return set()

    def roots(self, e):
        if isinstance(e, ast.Name):
            return self.name_root(e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and self.f.cls is not None and e.attr in self.clslevel:
                return {("shared", f"class attribute {e.attr} of {self.f.cls.name}")}
            if isinstance(e.value, ast.Name) and e.value.id == "self" and self.f.cls is not None and e.attr in self.e.immutable(self.f):
                return set()
            r = self.roots(e.value)
            if e.attr == "__class__":
                return {("shared", "the class object")}
            return {("shared", f"{x[1]}.{e.attr}") if x[0] == "import" else x for x in r}
        if isinstance(e, ast.Subscript):
            return self.roots(e.value)
        if isinstance(e, ast.Starred):
            return self.roots(e.value)
        if isinstance(e, ast.IfExp):
            return self.roots(e.body) | self.roots(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.roots(v)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.roots(e.value)
        if isinstance(e, ast.Await):
            return self.roots(e.value)
        if isinstance(e, (ast.Tuple,)):
            out = set()
            for v in e.elts:
                out |= self.roots(v)
            return out
        if isinstance(e, ast.Call):
            c = e.func
            nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else ""
            if nm == "type" and e.args:
                return {("shared", "the class object")}
            if isinstance(c, ast.Name) and nm in ("globals", "vars") and not e.args:
                return {("shared", "the module namespace")}
            if isinstance(c, ast.Attribute) and nm in ELEMENT:
                return {x for x in self.roots(c.value) if x[0] != "import"}
            if isinstance(c, ast.Name) and nm in PASS_CALLS:
                out = set()
                for a in e.args:
                    out |= self.roots(a)
                return {x for x in out if x[0] != "import"}
            if nm == "getattr" and e.args:
                return self.roots(e.args[0])
            if nm in FRESH_CALLS:
                return set()
            out = set()
            tg, ambiguous = self.method_targets(e)
            if ambiguous and not all(g.returns for g, _ in tg):
                return set()
            for g, off in tg:
                if g.node.name == "__init__" and isinstance(c, ast.Name):
                    continue
                for r in g.returns:
                    if r[0] == "shared":
                        out.add(r)
                    elif r[0] == "param":
                        out |= self.arg_roots(e, g, off, r[1])
            return {x for x in out if x[0] != "import"}
        return set()

    def arg_roots(self, call, g, off, i):
        """Roots of what the caller passes as g's parameter i."""
        if off == 1 and i == 0:
            c = call.func
            return self.roots(c.value) if isinstance(c, ast.Attribute) else set()
        j = i - off
        if 0 <= j < len(call.args):
            if any(isinstance(a, ast.Starred) for a in call.args[: j + 1]):
                return set()
            return self.roots(call.args[j])
        for k in call.keywords:
            if k.arg == g.params[i]:
                return self.roots(k.value)
        return set()

    def known_receiver(self, e, depth=0):
        """Class name of a receiver that is visibly an instance of a project class, else None."""
        if depth > 4:
            return None
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
            return nm if nm in self.e.classes else None
        if isinstance(e, ast.Name):
            vals = []
            for scope in [self.f.node, self.e.repo.modules[self.f.mod].tree]:
                body = self.own(scope) if scope is self.f.node else scope.body
                for n in body:
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        vals.append(n.value)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                        vals.append(n.value)
                if vals:
                    break
            got = {self.known_receiver(v, depth + 1) for v in vals if isinstance(v, (ast.Call, ast.Name))}
            if len(vals) == 1 and len(got) == 1:
                return next(iter(got))
        return None

    def method_targets(self, n):
        """targets() of a method call, without classes the receiver visibly is not; ambiguous names are flagged."""
        tg = self.e.targets(self.f, n)
        c = n.func
        if not isinstance(c, ast.Attribute) or not tg or tg[0][1] == 0 or tg[0][0].node.name == "__init__":
            return tg, False
        if isinstance(c.value, ast.Name) and c.value.id in ("self", "cls") and self.f.cls is not None:
            fam = [cn for _, cn in self.e.repo.mro(self.f.mod, self.f.cls)]
            own = [x for x in tg if any(x[0].cls is cn for cn in fam)]
            return (own or tg), False
        k = self.known_receiver(c.value)
        if k is not None:
            own = []
            for mn, cn in self.e.classes[k]:
                fam = [x for _, x in self.e.repo.mro(mn, cn)]
                own += [x for x in tg if any(x[0].cls is f for f in fam)]
            return own, False
        # solver classes form one family
        fams = {"solver" if id(g.cls) in self.e.solver_cls else id(g.cls) for g, _ in tg}
        return tg, len(fams) > 1

    def hit(self, roots, what, n):
        for r in roots:
            if r[0] == "shared":
                self.f.writes.append((r[1], what, n.lineno))
            elif r[0] == "param":
                self.f.mutates.setdefault(r[1], what)

    def effect(self, n):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in tg:
                self.store(t, n)
        elif isinstance(n, ast.Call):
            self.call(n)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.f.calls.add(n.id)
        elif isinstance(n, ast.Attribute):
            self.f.calls.add(n.attr)

    def store(self, t, n):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, n)
        elif isinstance(t, ast.Starred):
            self.store(t.value, n)
        elif isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.hit({("shared", f"module-level {t.id} of {self.f.mod}")}, "rebinds a global", n)
        elif isinstance(t, ast.Subscript):
            r = self.roots(t.value)
            self.hit({x for x in r if not self.self_ok(t.value, x)}, "stores an element", n)
        elif isinstance(t, ast.Attribute):
            r = self.roots(t.value)
            r = {("shared", f"{x[1]} module") if x[0] == "import" else x for x in r}
            self.hit({x for x in r if not self.self_ok(t.value, x)}, f"sets attribute {t.attr}", n)

    def self_ok(self, base, root):
        """A Solver's own attributes are judged by abstract interpretation (the leftover analysis), not here."""
        return self.is_solver and root == ("param", 0)

    def call(self, n):
        c = n.func
        if isinstance(c, ast.Attribute) and c.attr in MUTATORS:
            r = self.roots(c.value)
            if c.attr in ("write", "writelines"):
                r = {x for x in r if x[0] == "shared"}
            self.hit({x for x in r if x[0] != "import" and not self.self_ok(c.value, x)}, f"calls .{c.attr}()", n)
        nm = c.id if isinstance(c, ast.Name) else c.attr if isinstance(c, ast.Attribute) else ""
        if nm in ("setattr", "delattr") and n.args:
            self.hit({x for x in self.roots(n.args[0]) if not self.self_ok(n.args[0], x)}, f"{nm}()", n)
        if nm == "next" and n.args and isinstance(n.args[0], ast.Name):
            r = {x for x in self.name_root(n.args[0].id) if x[0] == "shared"}
            self.hit(r, "advances an iterator", n)
        if nm in ("addHandler", "addFilter") or (nm in ("register", "signal") and ast.unparse(c) in ("atexit.register", "signal.signal")):
            self.hit({("shared", f"the process-wide table of {ast.unparse(c)}")}, "registers something", n)
        if nm in ("shuffle", "heappush", "heappop", "heapify", "insort", "insort_left", "insort_right") and n.args:
            self.hit({x for x in self.roots(n.args[0]) if x[0] != "import"}, f"{nm}()", n)
        tg, ambiguous = self.method_targets(n)
        for g, off in tg:
            for i, what in g.mutates.items():
                if ambiguous and not all(i in h.mutates for h, _ in tg):
                    continue
                if off == 1 and i == 0:
                    if isinstance(c, ast.Attribute):
                        # a generic method name on an unknown receiver: believe it only for receivers we know
                        self.hit({x for x in self.roots(c.value) if x[0] == "shared" or (x[0] == "param" and isinstance(c.value, ast.Name))} if not self.self_ok(c.value, ("param", 0)) else set(),
                                 f"calls {g.node.name}() which {what}", n)
                    continue
                self.hit({x for x in self.arg_roots(n, g, off, i) if x[0] != "import"}, f"passes it to {g.node.name}() which {what}", n)


def reachable(eff, entries):
    """Functions reachable by name from the entry functions (an over-approximation)."""
    todo = list(entries)
    seen = {id(f) for f in todo}
    out = list(todo)
    while todo:
        f = todo.pop()
        names = set(f.calls)
        # decorators and nested functions belong to the function
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
        nxt = []
        for nm in names:
            nxt += eff.by_name.get(nm, [])
            nxt += eff.methods.get(nm, [])
            for mn, cn in eff.classes.get(nm, []):
                nxt += [g for g in eff.fns if g.cls is cn and g.node.name.startswith("__")]
        for g in eff.fns:
            p = getattr(g.node, "_parent", None)
            if p is f.node:
                nxt.append(g)
        for g in nxt:
            if id(g) not in seen:
                seen.add(id(g))
                out.append(g)
                todo.append(g)
    return out
