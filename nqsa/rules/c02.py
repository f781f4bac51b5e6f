"""C02: concurrent requests cannot interleave inside shared solver state."""
import ast

from ..loader import AnalysisBroken
from ..server import ANCHORS, call_name, endpoint, handlers, reaches, routes

EXPLANATION = (
    "Starting from the routes whose endpoint reaches the solvers, every function on the way to the shared per-type solver objects is checked: the "
    "endpoint must run on the event loop (a plain function would be run in a worker thread), no function on the way hands the work to a thread, "
    "executor or background task, none is a generator that is suspended half-way, and no suspension point (await, async for, async with) lies "
    "between two accesses to the shared objects; a common lock held across makes any of these acceptable."
)
RULES = ["threaded-endpoint", "handed-off", "suspends-between", "suspended-generator"]

LOCKS = {"Lock", "RLock", "Semaphore", "BoundedSemaphore"}
NEUTRAL = {"Route", "isinstance", "callable", "print", "debug", "info", "warning", "error", "wraps", "partial"}


class Ctx:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep
        self.locks = {}
        for mn, m in repo.modules.items():
            for st in ast.walk(m.tree):
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, ast.Call) and call_name(st.value) in LOCKS:
                    v = st.value
                    if call_name(v).endswith("Semaphore") and v.args and not (isinstance(v.args[0], ast.Constant) and v.args[0].value == 1):
                        continue
                    p = getattr(st, "_parent", None)
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        if isinstance(t, ast.Name) and isinstance(p, (ast.Module, ast.ClassDef)):
                            self.locks.setdefault(t.id, []).append(mn)
        self.seen = set()
        # methods of the server's own classes (engine wrapper, endpoint classes), by name
        self.methods, self.single = {}, {}
        for mn, m in repo.modules.items():
            if mn.split(".")[0] == "solver" or mn.startswith(("noqx.rule", "noqx.puzzle", "noqx.manager")):
                continue
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for f in c.body:
                        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            self.methods.setdefault(f.name, []).append((mn, f))
            for st in m.tree.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, ast.Call) and call_name(st.value) == "ThreadPoolExecutor":
                    n = next((k.value for k in st.value.keywords if k.arg == "max_workers"), st.value.args[0] if st.value.args else None)
                    if isinstance(n, ast.Constant) and n.value == 1:
                        for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                            self.single[(mn, getattr(t, "id", ""))] = 0

    def method(self, name, depth=0, seen=None):
        """(module, function) of the server's methods of that name that reach the solvers."""
        seen = set() if seen is None else seen
        if name in seen or depth > 5:
            return []
        seen.add(name)
        return [(mn, f) for mn, f in self.methods.get(name, []) if reaches(self.repo, mn, f) or any(
            isinstance(n, ast.Attribute) and n.attr != name and self.method(n.attr, depth + 1, seen) for n in ast.walk(f))]

    def one_worker(self, mod, call):
        """The hand-off goes to one common worker thread, which runs its tasks one after the other."""
        for a in ([call.func.value] if isinstance(call.func, ast.Attribute) else []) + list(call.args):
            if isinstance(a, ast.Name) and (mod, a.id) in self.single:
                return True
        return False

    def touching(self, mod, name):
        k, m, d = self.repo.resolve(mod, name)
        if k != "func":
            return None
        if name in ANCHORS or d.name in ANCHORS or reaches(self.repo, m, d):
            return (m, d)
        return None

    def locked(self, node, fn):
        """Is the node inside a with-block on a common lock?"""
        p = node
        while p is not None and p is not fn:
            if isinstance(p, (ast.With, ast.AsyncWith)):
                for i in p.items:
                    e = i.context_expr
                    nm = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else ""
                    if nm in self.locks:
                        return True
            p = getattr(p, "_parent", None)
        return False

    def own(self, fn):
        todo = list(ast.iter_child_nodes(fn))
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def visit(self, mod, fn, guarded):
        """guarded: every caller already holds a lock."""
        if (id(fn), guarded) in self.seen:
            return
        self.seen.add((id(fn), guarded))
        rel = self.repo.modules[mod].rel
        where = f"{mod}.{fn.name}"
        self.rep.count("functions on the request path")
        touches, awaits, handed = [], [], []
        for n in self.own(fn):
            if isinstance(n, ast.Call):
                # a direct call of a function that reaches the solvers
                t = None
                if isinstance(n.func, ast.Name):
                    t = self.touching(mod, n.func.id)
                    local = self.nested(n.func) if t is None else None
                    if local is not None and reaches(self.repo, mod, local):
                        t = (mod, local)
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    k, m2, _ = self.repo.resolve(mod, n.func.value.id)
                    if k == "mod" and m2 in self.repo.modules:
                        t = self.touching(m2, n.func.attr)
                    elif n.func.attr in self.methods and n.func.value.id != "asyncio":
                        t = next(iter(self.method(n.func.attr)), None)
                if t is not None:
                    touches.append((n, t))
                # references handed to something else
                elif call_name(n) not in NEUTRAL:
                    # the engine calls back while the caller waits for it: no other request can run
                    for a in list(n.args) + [k.value for k in n.keywords if k.arg not in ("on_model", "on_finish", "on_unsat", "on_statistics", "logger")]:
                        for ref in self.refs(mod, a):
                            self.rep.count("hand-offs examined")
                            t = self.touching(mod, ref) or (self.nested(a) and (mod, self.nested(a))) or next(iter(self.method(ref)), None)
                            if t is not None:
                                ok = guarded or self.locked(n, fn) or self.process_pool(mod)
                                if not ok and self.one_worker(mod, n):
                                    ok = True
                                handed.append((n, t, ok))
                            if self.one_worker(mod, n) and len({id(x.func) for x, _, _ in handed}) <= 1:
                                continue
                            if not (guarded or self.locked(n, fn)) and not self.process_pool(mod):
                                self.rep.add("handed-off", where, f"{call_name(n)}({ref})", f"{ref} reaches the shared solver objects and is handed to {ast.unparse(n.func)}, which may run it while another request runs", (rel, n.lineno))
            elif isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)):
                awaits.append(n)
                self.rep.count("suspension points")
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                awaits.append(n)
        shared_reads = [n for n in self.own(fn) if isinstance(n, ast.Name) and n.id in self.registries(mod)]
        pts = [n for n, _ in touches] + shared_reads
        for a in awaits:
            inner = None
            if isinstance(a, ast.Await) and isinstance(a.value, ast.Call):
                inner = next((t for c, t in touches if c is a.value), None)
            if inner is not None and isinstance(inner[1], ast.AsyncFunctionDef):
                continue  # judged in that function; still a touch
            if guarded or self.locked(a, fn):
                continue
            pos = (a.lineno, a.col_offset)
            others = [p for p in pts if not self.inside(p, a)]
            before = any((p.lineno, p.col_offset) < pos for p in others)
            after = any((p.lineno, p.col_offset) > pos for p in others)
            loop = self.loop(a, fn)
            if loop is not None and any(self.inside(p, loop) for p in others):
                before = after = True
            if before and after:
                if isinstance(a, (ast.Yield, ast.YieldFrom)):
                    self.rep.add("suspended-generator", where, "yield", f"{fn.name} is suspended between two uses of the shared solver objects", (rel, a.lineno))
                else:
                    txt = ast.unparse(a)[:60].split("\n")[0]
                    self.rep.add("suspends-between", where, txt, f"another request can run at '{txt}', between two uses of the shared solver objects", (rel, a.lineno))
        if isinstance(fn, ast.FunctionDef) and any(isinstance(a, (ast.Yield, ast.YieldFrom)) for a in awaits) and pts and not guarded:
            # a generator over solver work that an asynchronous caller iterates
            self.rep.add("suspended-generator", where, "yield", f"{fn.name} works on the shared solver objects lazily, after its caller has regained control", (rel, fn.lineno))
        for n, (m2, d2), ok in handed:
            self.visit(m2, d2, ok)
        for n, (m2, d2) in touches:
            self.visit(m2, d2, guarded or self.locked(n, fn))

    def nested(self, e):
        """A function defined locally that reaches the solvers."""
        p = getattr(e, "_parent", None)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(p):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not p and n.name == e.id:
                        return n
            p = getattr(p, "_parent", None)
        return None

    def refs(self, mod, e):
        if isinstance(e, ast.Name) and (self.touching(mod, e.id) or (self.nested(e) is not None and reaches(self.repo, mod, self.nested(e)))):
            yield e.id
        elif isinstance(e, ast.Attribute) and (e.attr in ANCHORS or self.method(e.attr)):
            yield e.attr
        elif isinstance(e, ast.Lambda):
            for n in ast.walk(e.body):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and self.touching(mod, n.func.id):
                    yield n.func.id
        elif isinstance(e, ast.Call) and call_name(e) == "partial":
            for a in e.args:
                yield from self.refs(mod, a)
        elif isinstance(e, (ast.Tuple, ast.List)):
            for a in e.elts:
                yield from self.refs(mod, a)

    def registries(self, mod):
        if mod != "noqx.manager":
            return set()
        return {"modules"}

    def process_pool(self, mod):
        names = set(self.repo.modules[mod].imports)
        return "ProcessPoolExecutor" in names and not names & {"ThreadPoolExecutor", "threading", "run_in_threadpool"}

    def inside(self, n, anc):
        while n is not None:
            if n is anc:
                return True
            n = getattr(n, "_parent", None)
        return False

    def loop(self, n, fn):
        out = None
        while n is not None and n is not fn:
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor, ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                out = n
            n = getattr(n, "_parent", None)
        return out


def check(repo, rep, tier):
    mod, fn, path, methods = endpoint(repo)
    ctx = Ctx(repo, rep)
    rs = [r for r in routes(repo) if isinstance(r[1], ast.Name)]
    rep.count("routes", len(rs))
    for p, ep, _, call in rs:
        judge(repo, rep, ctx, p, ep)
    for n in ast.walk(repo.modules["main"].tree):
        if isinstance(n, ast.Call) and call_name(n) == "WSGIMiddleware":
            rep.add("threaded-endpoint", "main", "WSGIMiddleware", "requests are served by worker threads", (repo.modules["main"].rel, n.lineno))
    if rep.counts.get("functions on the request path", 0) < 3:
        raise AnalysisBroken("the request path was not found")


def judge(repo, rep, ctx, p, ep):
    for m, d in handlers(repo, ep):
        if not reaches(repo, m, d):
            continue
        rep.count("routes that reach the solvers")
        if isinstance(d, ast.FunctionDef):
            body_locked = all(ctx.locked(n, d) for n in ast.walk(d) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and ctx.touching(m, n.func.id))
            if not body_locked:
                rep.add("threaded-endpoint", f"{m}.{d.name}", f"route {p}", f"{d.name} is a plain function: the server runs it in a worker thread, so requests run side by side on the shared solver objects", (repo.modules[m].rel, d.lineno))
        for dec in d.decorator_list:
            rep.count("decorators")
            if call_name(dec) not in ("wraps",):
                rep.unknown.append(f"decorator {ast.unparse(dec)} on {d.name}")
        ctx.visit(m, d, False)
