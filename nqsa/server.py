"""Finding the request path in the server sources: endpoint, engine class, entry functions."""
import ast

from .loader import AnalysisBroken


def call_name(c):
    f = c.func if isinstance(c, ast.Call) else c
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def kwarg(call, name, pos=None):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if pos is not None and len(call.args) > pos and not any(isinstance(a, ast.Starred) for a in call.args[: pos + 1]):
        return call.args[pos]
    return None


def fold(e, env=None):
    """Constant value of an expression, None when unknown."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and env and e.id in env:
        return env[e.id]
    if isinstance(e, ast.JoinedStr):
        out = ""
        for p in e.values:
            v = p.value if isinstance(p, ast.Constant) else fold(p.value, env) if isinstance(p, ast.FormattedValue) else None
            if v is None:
                return None
            out += str(v)
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = fold(e.left, env), fold(e.right, env)
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, int) and isinstance(b, int):
            return a + b
        return None
    if isinstance(e, (ast.List, ast.Tuple)):
        v = [fold(x, env) for x in e.elts]
        return None if any(x is None for x in v) else v
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand, env)
        return -v if isinstance(v, (int, float)) else None
    return None


def mod_consts(mod):
    """Names bound once at module level to a foldable value."""
    seen = {}
    for st in mod.tree.body:
        t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and st.value is not None:
            v = fold(st.value, seen)
            seen[t.id] = None if t.id in seen else v
    return {k: v for k, v in seen.items() if v is not None}


def routes(repo, modname="main"):
    """[(path, endpoint expr, methods list|None, call node)] composed through Mounts."""
    m = repo.modules.get(modname)
    if m is None:
        raise AnalysisBroken(f"{modname}.py not found")
    env = mod_consts(m)
    out = []
    lists = {}
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            lists[st.targets[0].id] = st.value

    def walk(e, prefix, depth=0):
        if depth > 8:
            return
        if isinstance(e, ast.Name) and e.id in lists:
            walk(lists[e.id], prefix, depth + 1)
        elif isinstance(e, (ast.List, ast.Tuple)):
            for x in e.elts:
                walk(x, prefix, depth + 1)
        elif isinstance(e, ast.BinOp):
            walk(e.left, prefix, depth + 1)
            walk(e.right, prefix, depth + 1)
        elif isinstance(e, ast.Call):
            nm = call_name(e)
            path = fold(kwarg(e, "path", 0), env) if kwarg(e, "path", 0) is not None else None
            if nm == "Route":
                ms = kwarg(e, "methods", 2)
                out.append(((prefix + path) if isinstance(path, str) and prefix is not None else None, kwarg(e, "endpoint", 1), fold(ms, env) if ms is not None else ["GET"], e))
            elif nm == "Mount":
                sub = kwarg(e, "routes", 2)
                p = (prefix + path.rstrip("/")) if isinstance(path, str) and prefix is not None else None
                if sub is not None:
                    walk(sub, p, depth + 1)
                else:
                    out.append((p, None, None, e))

    apps = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and call_name(n) == "Starlette"]
    if not apps:
        raise AnalysisBroken("no Starlette application in main.py")
    for a in apps:
        r = kwarg(a, "routes", 1)
        if r is not None:
            walk(r, "")
    return out


def handlers(repo, ep):
    """Functions that serve an endpoint expression: the function itself, or the request methods of an endpoint class."""
    if not isinstance(ep, ast.Name):
        return []
    k, m, n = repo.resolve("main", ep.id)
    if k == "func":
        return [(m, n)]
    if k == "class":
        return [(m, f) for f in n.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name in ("get", "post", "put", "dispatch", "__call__")]
    return []


def endpoint(repo):
    """(module, function node, path, methods, other routes) of the route that reaches the solver."""
    rs = routes(repo)
    got = []
    for path, ep, ms, _ in rs:
        if isinstance(ep, ast.Name):
            for m, n in handlers(repo, ep):
                if reaches(repo, m, n):
                    got.append((m, n, path, ms))
    if not got:
        raise AnalysisBroken("no route whose endpoint reaches the solvers")
    return got[0]


ANCHORS = {"run_solver", "generate_program", "store_solution", "prepare_puzzle"}


def reaches(repo, mod, fn, seen=None):
    seen = set() if seen is None else seen
    if id(fn) in seen:
        return False
    seen.add(id(fn))
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm in ANCHORS:
                return True
            if isinstance(n, ast.Name):
                k, m, d = repo.resolve(mod, nm)
                if k == "func" and reaches(repo, m, d, seen):
                    return True
    return False
