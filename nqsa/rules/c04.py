"""C04: failures map to the documented responses; both back ends agree on the API."""
import ast
import re

from ..js import Js
from ..loader import AnalysisBroken
from ..server import call_name, endpoint, fold, kwarg, mod_consts, routes

EXPLANATION = (
    "The endpoint's exception handlers are resolved, in order and by exception class, for the failures a request can have; the response each one "
    "returns is folded to status code, key and the origin of its text. Every explicit raise reachable from a request is checked to be of the class "
    "that the handlers report as a refusal. Keys, path, method, function names, argument counts and result keys are extracted from the front end's "
    "token stream and compared with what the server and the browser entry point define."
)
RULES = ["status", "detail-missing", "internals-disclosed", "unhandled", "refusal-type", "swallowed", "request-key", "argument-order", "route", "response-key", "status-unhandled",
         "browser-function", "browser-param", "browser-arity", "browser-result", "metadata-key", "metadata-file"]

HIER = {
    "ValueError": ["ValueError", "Exception", "BaseException"],
    "TimeoutError": ["TimeoutError", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException"],
    "KeyError": ["KeyError", "LookupError", "Exception", "BaseException"],
    "IndexError": ["IndexError", "LookupError", "Exception", "BaseException"],
    "RuntimeError": ["RuntimeError", "Exception", "BaseException"],
    "TypeError": ["TypeError", "Exception", "BaseException"],
    "binascii.Error": ["Error", "ValueError", "Exception", "BaseException"],
    "JSONDecodeError": ["JSONDecodeError", "ValueError", "Exception", "BaseException"],
    "UnicodeDecodeError": ["UnicodeDecodeError", "UnicodeError", "ValueError", "Exception", "BaseException"],
    "AttributeError": ["AttributeError", "Exception", "BaseException"],
}
HTTP = {"BAD_REQUEST": 400, "GATEWAY_TIMEOUT": 504, "INTERNAL_SERVER_ERROR": 500, "UNPROCESSABLE_ENTITY": 422, "UNPROCESSABLE_CONTENT": 422, "NOT_FOUND": 404, "REQUEST_TIMEOUT": 408,
        "SERVICE_UNAVAILABLE": 503, "BAD_GATEWAY": 502, "OK": 200, "FORBIDDEN": 403, "TEAPOT": 418}
UNKNOWN = object()


def status(e, env):
    if e is None:
        return 200
    v = fold(e, env)
    if isinstance(v, int):
        return v
    if isinstance(e, ast.Attribute):
        m = re.match(r"HTTP_(\d{3})", e.attr)
        if m:
            return int(m.group(1))
        if e.attr == "value":
            return status(e.value, env)
        return HTTP.get(e.attr, UNKNOWN)
    return UNKNOWN


class Origin:
    """Where the text of an expression comes from: const, the caught exception, or a trace of internals."""

    def __init__(self, repo, mod):
        self.repo, self.mod = repo, mod

    def of(self, e, env, exc, depth=0):
        """set of 'const', 'reason' (message of the exception), 'internals', 'unknown'"""
        if e is None:
            return {"const"}
        if isinstance(e, ast.Constant):
            return {"const"} if e.value else {"empty"}
        if isinstance(e, ast.Name):
            if e.id == exc:
                return {"reason"}
            if e.id in env:
                x, ex2, env2 = env[e.id]
                return self.of(x, env2, ex2, depth + 1) if depth < 8 else {"unknown"}
            return {"unknown"}
        if isinstance(e, ast.JoinedStr):
            out = set()
            for p in e.values:
                out |= self.of(p.value if isinstance(p, ast.FormattedValue) else p, env, exc, depth)
            return out - {"empty"} or {"empty"}
        if isinstance(e, ast.Call):
            nm = call_name(e)
            if nm in ("format_exc", "exc_info", "format_exception", "print_exc", "format_tb", "extract_tb", "format_stack"):
                return {"internals"}
            if nm in ("str", "repr", "format", "strip", "capitalize", "join", "title", "type"):
                out = set()
                for a in list(e.args) + ([e.func.value] if isinstance(e.func, ast.Attribute) else []):
                    out |= self.of(a, env, exc, depth)
                return out - {"empty"} or {"empty"}
            return {"unknown"}
        if isinstance(e, ast.Attribute):
            if e.attr in ("__traceback__", "__cause__", "__class__"):
                return {"internals"}
            return self.of(e.value, env, exc, depth)
        if isinstance(e, ast.Subscript):
            return self.of(e.value, env, exc, depth)
        if isinstance(e, ast.BinOp):
            return (self.of(e.left, env, exc, depth) | self.of(e.right, env, exc, depth)) - {"empty"} or {"empty"}
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.of(v, env, exc, depth)
            return out - {"empty", "const"} or out
        if isinstance(e, ast.IfExp):
            return self.of(e.body, env, exc, depth) | self.of(e.orelse, env, exc, depth)
        return {"unknown"}


def response(repo, mod, e, env, exc, depth=0):
    """(status, {key: (value expr, env, exc)}) of an expression that builds a response; None when unknown."""
    consts = mod_consts(repo.modules[mod])
    if isinstance(e, ast.Await):
        return response(repo, mod, e.value, env, exc, depth)
    if isinstance(e, ast.Name) and e.id in env:
        x, ex2, env2 = env[e.id]
        return response(repo, mod, x, env2, ex2, depth + 1) if depth < 6 else None
    if not isinstance(e, ast.Call):
        return None
    nm = call_name(e)
    if nm in ("JSONResponse", "Response", "PlainTextResponse"):
        body = kwarg(e, "content", 0)
        sc = kwarg(e, "status_code", 1)
        senv, hops = env, 0
        while isinstance(sc, ast.Name) and sc.id in senv and hops < 9:
            sc, _, senv = senv[sc.id]
            hops += 1
        keys = {}
        benv, bexc = env, exc
        while isinstance(body, ast.Name) and body.id in benv:
            body, bexc, benv = benv[body.id]
        if isinstance(body, ast.Dict):
            for k, v in zip(body.keys, body.values):
                kk = fold(k, consts) if k is not None else None
                keys[kk] = (v, benv, bexc)
        elif isinstance(body, ast.Call) and call_name(body) == "dict":
            for k in body.keywords:
                keys[k.arg] = (k.value, benv, bexc)
        else:
            keys = None
        return status(sc, consts), keys, body
    if isinstance(e.func, ast.Name) and depth < 4:
        k, m, d = repo.resolve(mod, e.func.id)
        if k == "func":
            ps = [a.arg for a in d.args.args]
            env2 = {}
            for i, p in enumerate(ps):
                a = kwarg(e, p, i)
                if a is None:
                    j = i - (len(ps) - len(d.args.defaults))
                    if j >= 0:
                        env2[p] = (d.args.defaults[j], None, {})
                else:
                    env2[p] = (a, exc, env)
            rets = [n for n in ast.walk(d) if isinstance(n, ast.Return) and n.value is not None]
            for n in ast.walk(d):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    env2.setdefault(n.targets[0].id, (n.value, None, dict(env2)))
            if len(rets) == 1:
                return response(repo, m, rets[0].value, env2, None, depth + 1)
    return None


def names_of(t):
    if t is None:
        return ["BaseException"]
    if isinstance(t, ast.Tuple):
        return [x for y in t.elts for x in names_of(y)]
    return [t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "?"]


def decide(e, name, supers):
    """Truth of a test on the caught exception (isinstance / type comparison); None when it cannot be told."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = decide(e.operand, name, supers)
        return None if v is None else not v
    if isinstance(e, ast.Call) and call_name(e) == "isinstance" and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and e.args[0].id == name:
        return any(x in supers for x in names_of(e.args[1]))
    if isinstance(e, ast.BoolOp):
        vs = [decide(v, name, supers) for v in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and call_name(e.left) == "type" and e.left.args and isinstance(e.left.args[0], ast.Name) and e.left.args[0].id == name:
        if isinstance(e.ops[0], (ast.Is, ast.Eq)) and isinstance(e.comparators[0], ast.Name):
            return e.comparators[0].id == supers[0]
        if isinstance(e.ops[0], ast.In) and isinstance(e.comparators[0], ast.Tuple):
            return supers[0] in names_of(e.comparators[0])
    return None


def pick(e, name, supers):
    """Resolve conditional expressions on the caught exception inside an expression."""
    class T(ast.NodeTransformer):
        def visit_IfExp(self, n):
            self.generic_visit(n)
            v = decide(n.test, name, supers)
            return n if v is None else n.body if v else n.orelse
    import copy
    return T().visit(copy.deepcopy(e)) if e is not None and name and any(isinstance(x, ast.IfExp) for x in ast.walk(e)) else e


def run(stmts, name, supers, env):
    """Ways through statements after a failure: ("return", node, env, exception name) / ("raise", class or None, node) / ("fall", None, env)."""
    env = dict(env)
    for i, st in enumerate(stmts):
        if isinstance(st, ast.Return):
            yield ("return", pick(st.value, name, supers), env, st)
            return
        if isinstance(st, ast.Raise):
            x = st.exc
            if x is None or isinstance(x, ast.Name) and x.id == name:
                yield ("raise", supers[0], env, st)
            else:
                yield ("raise", call_name(x) if isinstance(x, ast.Call) else getattr(x, "id", None), env, st)
            return
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            env[st.targets[0].id] = (pick(st.value, name, supers), name, dict(env))
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) and len(st.value.elts) == len(st.targets[0].elts):
            old = dict(env)
            for t, v in zip(st.targets[0].elts, st.value.elts):
                if isinstance(t, ast.Name):
                    env[t.id] = (pick(v, name, supers), name, old)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            env[st.target.id] = (pick(st.value, name, supers), name, dict(env))
        elif isinstance(st, ast.If):
            v = decide(st.test, name, supers)
            for take in ([True, False] if v is None else [v]):
                for o in run(st.body if take else st.orelse, name, supers, env):
                    if o[0] == "fall":
                        yield from run(stmts[i + 1:], name, supers, o[2])
                    else:
                        yield o
            return
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for o in run(st.body, name, supers, env):
                if o[0] == "fall":
                    yield from run(stmts[i + 1:], name, supers, o[2])
                else:
                    yield o
            return
        elif isinstance(st, (ast.Try, ast.For, ast.While, ast.Match)):
            yield ("unknown", None, env, st)
            return
    yield ("fall", None, env, None)


def follow(node, fn):
    """Statements executed after a compound statement has been left, outwards to the end of the function."""
    out = []
    prev, p = node, getattr(node, "_parent", None)
    while True:
        for f in ("body", "orelse", "finalbody"):
            lst = getattr(p, f, None)
            if isinstance(lst, list) and any(x is prev for x in lst):
                k = next(j for j, x in enumerate(lst) if x is prev)
                if not isinstance(p, (ast.For, ast.While)):
                    out += lst[k + 1:]
        if p is fn or p is None:
            return out
        prev, p = p, getattr(p, "_parent", None)


def failing(fn, c, exc, env):
    """What happens in fn when the call c raises exc: outcomes as in run(), ("escape", exc) when fn lets it through."""
    supers = HIER.get(exc, [exc, "Exception", "BaseException"])
    chain = []
    p, prev = getattr(c, "_parent", None), c
    while p is not None and p is not fn:
        if isinstance(p, ast.Try) and any(prev is s or within(prev, s) for s in p.body):
            chain.append(p)
        prev, p = p, getattr(p, "_parent", None)
    for k, t in enumerate(chain):
        h = next((hh for hh in t.handlers if any(x in supers for x in names_of(hh.type))), None)
        if h is None:
            continue
        for o in run(h.body, h.name, supers, env):
            if o[0] == "fall":
                yield from run(follow(t, fn), h.name, supers, o[2])
            elif o[0] == "raise" and o[1] == exc:
                # raised again: only an outer try statement can catch it
                inner = t
                yield from failing(fn, inner, exc, o[2])
            else:
                yield o
        return
    yield ("escape", exc, env, None)


def outcomes(repo, mod, fn, exc, depth=0, seen=()):
    """Outcomes of the endpoint when the solver call behind it fails with exc."""
    near = reaching(repo, mod)
    for c in [n for n in walk_own(fn.body) if isinstance(n, ast.Call)]:
        callee = None
        if isinstance(c.func, ast.Name) and c.func.id in near:
            _, m, d = repo.resolve(mod, c.func.id)
            callee = (m, d)
        elif call_name(c) == "run_solver" or call_name(c) in ("run_in_executor", "to_thread", "run_in_threadpool") and any(isinstance(a, ast.Name) and a.id in near for a in c.args):
            callee = ("", None)
        if callee is None:
            continue
        m, d = callee
        if m == mod and d is not None and d not in seen and depth < 5:
            inner = list(outcomes(repo, m, d, exc, depth + 1, seen + (fn,)))
        else:
            inner = [("escape", exc, {}, None, m)]
        for o in inner:
            if o[0] == "escape":
                for q in failing(fn, c, exc, {}):
                    yield q + (c,) if len(q) == 4 else q
            else:
                yield o


def handlers(repo, rep):
    mod, fn, path, methods = endpoint(repo)
    rel = repo.modules[mod].rel
    where = f"{mod}.{fn.name}"
    app = next((n for n in ast.walk(repo.modules["main"].tree) if isinstance(n, ast.Call) and call_name(n) == "Starlette"), None)
    registered = app is not None and kwarg(app, "exception_handlers") is not None
    org = Origin(repo, mod)
    rep.failure_keys = set()
    for exc in HIER:
        want = 400 if "ValueError" in HIER[exc] else 504 if exc == "TimeoutError" else 500
        for kind, node, env, st, c in outcomes(repo, mod, fn, exc):
            rep.count("failure outcomes")
            line = getattr(st, "lineno", getattr(c, "lineno", fn.lineno))
            if kind == "escape" or kind == "raise" and node == exc:
                if registered:
                    rep.unknown.append(f"{exc}: handled by the application's exception_handlers")
                else:
                    rep.add("unhandled", where, exc, f"a {exc} while solving is not answered with the documented response", (rel, line))
                continue
            rep.count("exception classes resolved")
            if kind == "raise" and node == "HTTPException" and st.exc is not None:
                s0 = status(kwarg(st.exc, "status_code", 0), mod_consts(repo.modules[mod]))
                if s0 is not UNKNOWN and s0 != want:
                    rep.add("status", where, f"{exc} -> {s0}", f"a {exc} is answered with status {s0}, documented is {want}", (rel, line))
                elif not registered:
                    rep.add("detail-missing", where, exc, "an HTTPException is answered as plain text, without the 'detail' key the front end shows", (rel, line))
                continue
            if kind != "return" or node is None:
                rep.unknown.append(f"{exc}: the handler does not lead to a return")
                continue
            name = next((h.name for h in parents_of(st) if isinstance(h, ast.ExceptHandler)), None)
            r = response(repo, mod, node, env, name)
            if r is None:
                rep.unknown.append(f"{exc}: response not recognised")
                continue
            code, keys, _ = r
            if code is UNKNOWN:
                rep.unknown.append(f"{exc}: status not recognised")
            elif code != want:
                rep.add("status", where, f"{exc} -> {code}", f"a {exc} is answered with status {code}, documented is {want}", (rel, line))
            if keys is None:
                rep.failure_keys = None
                if isinstance(node, ast.Call) and call_name(node) == "PlainTextResponse":
                    rep.add("detail-missing", where, exc, "the failure response is plain text, the front end reads 'detail' of a JSON object", (rel, line))
                continue
            if rep.failure_keys is not None:
                rep.failure_keys |= set(keys)
            if "detail" not in keys:
                if None not in keys:
                    rep.add("detail-missing", where, exc, "the failure response has no 'detail', which the front end shows", (rel, line))
                continue
            v, venv, vexc = keys["detail"]
            o = org.of(v, venv, vexc)
            for k2, val in keys.items():
                if k2 != "detail" and val:
                    o2 = org.of(*val)
                    if "internals" in o2 or want == 500 and "reason" in o2:
                        rep.add("internals-disclosed", where, f"{exc}: {k2}", f"the answer to a failure carries internals under '{k2}'", (rel, line))
            if want == 500:
                if o & {"reason", "internals"}:
                    rep.add("internals-disclosed", where, exc, "the answer to an internal failure carries text from the exception itself", (rel, line))
            elif want == 400:
                if "internals" in o:
                    rep.add("internals-disclosed", where, exc, "the answer to a refused puzzle carries a stack trace", (rel, line))
                elif "reason" not in o and "unknown" not in o:
                    rep.add("detail-missing", where, exc, "the answer to a refused puzzle does not carry the reason", (rel, line))
            elif "internals" in o:
                rep.add("internals-disclosed", where, exc, "the answer carries a stack trace", (rel, line))
    return mod, fn, path, methods


def parents_of(n):
    while n is not None:
        yield n
        n = getattr(n, "_parent", None)


def within(n, anc):
    while n is not None:
        if n is anc:
            return True
        n = getattr(n, "_parent", None)
    return False


def walk_own(body):
    todo = list(body)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def reaching(repo, mod):
    from ..server import ANCHORS, reaches
    out = set()
    for nm in set(repo.modules[mod].imports) | set(repo.modules[mod].defs):
        k, m, d = repo.resolve(mod, nm)
        if k == "func" and (d.name in ANCHORS or reaches(repo, m, d)):
            out.add(nm)
    return out


def exc_class(repo, mod, name, depth=0):
    """Builtin ancestors of an exception class name."""
    import builtins
    b = getattr(builtins, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return {c.__name__ for c in b.__mro__}
    k, m, d = repo.resolve(mod, name)
    if k == "class" and depth < 5:
        out = {d.name}
        for x in d.bases:
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
            out |= exc_class(repo, m, nm, depth + 1) or set()
        return out
    return None


ABSTRACT = {"NotImplementedError"}


def raises(repo, rep):
    """Every explicit refusal must be of a class that is reported as a refusal; nothing on the way may swallow it."""
    for mn, m in repo.modules.items():
        if mn in ("main", "main_deploy"):
            continue
        for n in ast.walk(m.tree):
            fn = n
            while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = getattr(fn, "_parent", None)
            fname = f"{mn}.{fn.name}" if fn is not None else mn
            if isinstance(n, ast.Raise) and n.exc is not None and fn is not None:
                nm = call_name(n.exc) if isinstance(n.exc, ast.Call) else n.exc.id if isinstance(n.exc, ast.Name) else n.exc.attr if isinstance(n.exc, ast.Attribute) else ""
                cls = exc_class(repo, mn, nm)
                rep.count("raise statements")
                if cls is None:
                    continue
                cd = fn
                while cd is not None and not isinstance(cd, ast.ClassDef):
                    cd = getattr(cd, "_parent", None)
                abstract = nm in ABSTRACT and len([s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]) == 1
                if not (cls & {"ValueError", "TimeoutError"}) and not abstract:
                    rep.add("refusal-type", fname, nm, f"{fn.name} refuses with {nm}, which is reported as an internal error without the reason", (m.rel, n.lineno))
            elif isinstance(n, ast.Assert) and fn is not None:
                rep.add("refusal-type", fname, "assert", f"{fn.name} refuses with an assertion, which is reported as an internal error without the reason (and not at all under -O)", (m.rel, n.lineno))
            elif isinstance(n, ast.Try) and fn is not None:
                calls = {call_name(c) for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call)}
                solving = calls & {"run_solver", "prepare_puzzle", "generate_program", "store_solution", "validate_direction", "validate_type", "fail_false", "decode"} or (mn in ("noqx.manager", "noqx.clingo") and calls & {"solve"})
                for h in n.handlers:
                    if not solving or not set(names_of(h.type)) & {"ValueError", "TimeoutError", "Exception", "BaseException"}:
                        continue
                    rs = [x for x in walk_own(h.body) if isinstance(x, ast.Raise)]
                    if not rs:
                        rep.add("swallowed", fname, ast.unparse(h.type) if h.type else "except", f"{fn.name} swallows a refusal, so the puzzle is answered as if it had been accepted", (m.rel, h.lineno))
                    for r in rs:
                        if r.exc is None:
                            continue
                        nm = call_name(r.exc) if isinstance(r.exc, ast.Call) else getattr(r.exc, "id", "")
                        if nm == h.name:
                            continue
                        cls = exc_class(repo, mn, nm)
                        if cls is not None and "ValueError" in names_of(h.type) + (["ValueError"] if set(names_of(h.type)) & {"Exception", "BaseException"} else []) and "ValueError" not in cls:
                            rep.add("refusal-type", fname, nm, f"{fn.name} turns a refusal into {nm}", (m.rel, r.lineno))


def body_keys(fn):
    """Keys the endpoint reads from the request body: {key: [name it is bound to or None]}"""
    bodies = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Await) and isinstance(n.value.value, ast.Call) and call_name(n.value.value) == "json":
            bodies |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        elif isinstance(n, ast.AnnAssign) and isinstance(n.value, ast.Await) and isinstance(n.target, ast.Name):
            bodies.add(n.target.id)
    out = {}
    for n in ast.walk(fn):
        k = None
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in bodies:
            k = fold(n.slice)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and isinstance(n.func.value, ast.Name) and n.func.value.id in bodies and n.args:
            k = fold(n.args[0])
        if isinstance(k, str):
            out.setdefault(k, []).append(n)
    return bodies, out


def trace_args(repo, rep, mod, fn, keys, rel):
    """Each body value must arrive at the puzzle constructor's matching parameter."""
    # symbolic value of an expression: the body key it came from
    def val(e, env):
        for k, ns in keys.items():
            if any(e is n for n in ns):
                return k
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Call) and call_name(e) in ("str", "dict") and e.args:
            return val(e.args[0], env)
        if isinstance(e, ast.Call) and call_name(e) == "to_py":
            return val(e.func.value, env)
        return None

    want = {"puzzle_name": 0, "puzzle": 1, "param": 2}
    seen = set()

    def visit(m, f, env, depth):
        if depth > 6:
            return
        for n in sorted([x for x in ast.walk(f) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None], key=lambda x: x.lineno):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    v = val(n.value, env)
                    if v:
                        env[t.id] = v
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        if isinstance(a, ast.Name) and val(b, env):
                            env[a.id] = val(b, env)
        for c in ast.walk(f):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name)):
                continue
            k, m2, d = repo.resolve(m, c.func.id)
            if k == "func" and d.name in ("run_solver", "prepare_puzzle") or (k == "func" and c.func.id in reaching(repo, m)):
                ps = [a.arg for a in d.args.args]
                env2 = {}
                for i, p in enumerate(ps):
                    a = kwarg(c, p, i)
                    if a is not None:
                        v = val(a, env)
                        if v:
                            env2[p] = v
                visit(m2, d, env2, depth + 1)
            elif k == "class":
                init = next((x for mm, cn in repo.mro(m2, d) if isinstance(cn, ast.ClassDef) for x in cn.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
                if init is None or not any(p.arg == "content" for p in init.args.args):
                    continue
                ps = [a.arg for a in init.args.args][1:]
                for i, p in enumerate(ps[:3]):
                    a = kwarg(c, p, i)
                    v = val(a, env) if a is not None else None
                    if v is not None:
                        seen.add(v)
                        rep.count("request values traced")
                        if want.get(v) is not None and want[v] != i:
                            rep.add("argument-order", f"{m}.{f.name}", f"{v} -> {p}", f"the request's {v!r} arrives as the puzzle's {p}", (repo.modules[m].rel, c.lineno))

    visit(mod, fn, {}, 0)


def kind_of(e, fn, depth=0):
    """list / text / number / object / None (unknown) of an expression, following single local assignments."""
    if depth > 5 or e is None:
        return None
    if isinstance(e, (ast.List, ast.ListComp, ast.Tuple)):
        return "list"
    if isinstance(e, (ast.JoinedStr,)) or isinstance(e, ast.Constant) and isinstance(e.value, str):
        return "text"
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return "object"
    if isinstance(e, ast.Call):
        nm = call_name(e)
        return {"join": "text", "str": "text", "dumps": "text", "len": "number", "list": "list", "sorted": "list", "tuple": "list", "dict": "object", "encode": "text"}.get(nm)
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, ast.Slice):
            return kind_of(e.value, fn, depth + 1)
        if isinstance(e.slice, (ast.Constant, ast.UnaryOp)) and kind_of(e.value, fn, depth + 1) == "list":
            return "single element"
        return None
    if isinstance(e, ast.Name):
        ks = set()
        for n in ast.walk(fn):
            t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
            if any(isinstance(x, ast.Name) and x.id == e.id for x in t) and n.value is not None:
                ks.add(kind_of(n.value, fn, depth + 1))
        return ks.pop() if len(ks) == 1 else None
    return None


def dict_keys(repo, mod, fn, e, depth=0):
    """{key: kind} of a JSON body; None when it cannot be told."""
    if depth > 6:
        return None
    if isinstance(e, ast.Await):
        return dict_keys(repo, mod, fn, e.value, depth)
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = dict_keys(repo, mod, fn, v, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
            else:
                kk = fold(k, mod_consts(repo.modules[mod]))
                if kk is None:
                    return None
                out[kk] = kind_of(v, fn)
        return out
    if isinstance(e, ast.Name):
        vals = []
        for n in ast.walk(fn):
            t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
            if any(isinstance(x, ast.Name) and x.id == e.id for x in t) and n.value is not None:
                vals.append(n.value)
            if any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == e.id for x in t):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault") and getattr(n.func.value, "id", "") == e.id:
                return None
        return dict_keys(repo, mod, fn, vals[0], depth + 1) if len(vals) == 1 else None
    if isinstance(e, ast.Call):
        if call_name(e) == "dict" and not e.args:
            return {k.arg: kind_of(k.value, fn) for k in e.keywords}
        target = None
        if isinstance(e.func, ast.Name):
            k, m, d = repo.resolve(mod, e.func.id)
            target = (m, d) if k == "func" else None
        if call_name(e) in ("to_thread", "run_in_threadpool", "run_in_executor"):
            for a in e.args:
                if isinstance(a, ast.Name):
                    k, m, d = repo.resolve(mod, a.id)
                    if k == "func":
                        target = (m, d)
        if target is not None:
            out = {}
            rets = [n for n in walk_own(target[1].body) if isinstance(n, ast.Return) and n.value is not None]
            for r in rets:
                sub = dict_keys(repo, target[0], target[1], r.value, depth + 1)
                if sub is None:
                    return None
                out.update(sub)
            return out if rets else None
    return None


def successes(repo, mod, fn, depth=0):
    """(node, {key: kind} or None, line) of the responses sent when nothing failed."""
    near = reaching(repo, mod)
    calls = [n for n in walk_own(fn.body) if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in near or call_name(n) == "run_solver")]
    first = min((c.lineno for c in calls), default=0)
    for r in [n for n in walk_own(fn.body) if isinstance(n, ast.Return) and n.value is not None]:
        if any(isinstance(p, ast.ExceptHandler) for p in parents_of(r)) or r.lineno < first:
            continue
        v = r.value.value if isinstance(r.value, ast.Await) else r.value
        if isinstance(v, ast.Name):
            vals = [n.value for n in walk_own(fn.body) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
            v = vals[0] if len(vals) == 1 else v
            v = v.value if isinstance(v, ast.Await) else v
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in near and depth < 4:
            _, m, d = repo.resolve(mod, v.func.id)
            if m == mod:
                yield from successes(repo, m, d, depth + 1)
                continue
        if isinstance(v, ast.Call) and call_name(v) == "JSONResponse":
            code = status(kwarg(v, "status_code", 1), mod_consts(repo.modules[mod]))
            if code is UNKNOWN or code >= 400:
                continue
            yield v, dict_keys(repo, mod, fn, kwarg(v, "content", 0)), r.lineno
        else:
            yield v, None, r.lineno


def frontend(repo, rep, mod, fn, path, methods):
    js = Js(repo.root, "penpa-edit/app.js")
    rel = repo.modules[mod].rel
    where = f"{mod}.{fn.name}"
    fetches = js.find("fetch", "(")
    if not fetches:
        raise AnalysisBroken("app.js: no fetch call")
    sent = None
    for i in fetches:
        a = js.args(i + 1)
        url = js.value(*a[0]) if a else None
        line = js.toks[i][2]
        rep.count("fetch calls")
        if url is not None and path is not None and url.split("?")[0] != path:
            rep.add("route", where, f"{url} vs {path}", f"the front end posts to {url}, the server answers at {path}", (js.rel, line))
        if len(a) > 1 and js.toks[a[1][0]][1] == "{":
            o = js.keys(a[1][0])
            if "method" in o:
                mt = js.value(*o["method"])
                if mt is not None and methods is not None and mt.upper() not in [x.upper() for x in methods]:
                    rep.add("route", where, f"method {mt}", f"the front end uses {mt}, the route accepts {methods}", (js.rel, line))
            if "body" in o:
                s, e = o["body"]
                for j in range(s, e):
                    if js.toks[j][1] == "stringify" and js.toks[j + 1][1] == "(" and js.toks[j + 2][1] == "{":
                        sent = set(js.keys(j + 2))
    bodies, keys = body_keys(fn)
    if sent is not None and keys:
        rep.count("request keys", len(keys))
        for k in sorted(set(keys) - sent):
            rep.add("request-key", where, k, f"the server reads {k!r} from the request, the front end sends {sorted(sent)}", (rel, fn.lineno))
    trace_args(repo, rep, mod, fn, keys, rel)
    # response keys
    used = set()
    names = set()
    for i in js.find("=", "await", "response", ".", "json"):
        names.add(js.toks[i - 1][1])
    for nm in names or {"body"}:
        for i in js.find(nm, ".", "<id>"):
            if i == 0 or js.toks[i - 1][1] != ".":
                used.add((js.toks[i + 2][1], js.toks[i][2]))
    success = set()
    got = list(successes(repo, mod, fn))
    for node, keys, line in got:
        rep.count("success responses")
        if keys is None:
            success = None
        elif success is not None:
            success |= set(keys)
        for k, kind in (keys or {}).items():
            if k == "url" and kind not in ("list", None):
                rep.add("response-key", where, "url", f"the answers are sent as a {kind}, the front end walks a list", (rel, line))
    if rep.failure_keys is None or not rep.failure_keys:
        success = None
    elif success:
        success |= rep.failure_keys
    if not success:
        rep.unknown.append("keys of the success response not recognised")
    else:
        for k, line in used:
            rep.count("response keys read by the front end")
            if k not in success and k not in ("length",):
                rep.add("response-key", "app.js", k, f"the front end reads {k!r} from the response, the server sends {sorted(x for x in success if x)}", (js.rel, line))
    # status codes
    handled = {int(js.toks[i + 4][1]) for i in js.find("response", ".", "status", "===", "<num>")} | {int(js.toks[i + 4][1]) for i in js.find("response", ".", "status", "==", "<num>")}
    general = bool(js.find("response", ".", "ok")) or bool(js.find("response", ".", "status", ">=")) or bool(js.find("response", ".", "status", "!=="))
    if handled and not general:
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and call_name(n) == "JSONResponse":
                s = status(kwarg(n, "status_code", 1), mod_consts(repo.modules[mod]))
                if isinstance(s, int) and s >= 300 and s not in handled:
                    rep.add("status-unhandled", where, str(s), f"status {s} is taken for a success by the front end", (rel, n.lineno))
    return js


def converted(rep, m, d):
    """The parameters arrive as a JavaScript object and must be turned into a dictionary before Python code subscripts them."""
    for c in ast.walk(d):
        if not (isinstance(c, ast.Call) and call_name(c) in ("prepare_puzzle", "PenpaPuzzle")):
            continue
        v = kwarg(c, "param", 2)
        ps = [a.arg for a in d.args.args]
        if isinstance(v, ast.Name) and v.id in ps and not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == v.id for n in ast.walk(d)):
            rep.add("browser-param", f"main_deploy.{d.name}", v.id, "the front end's parameter object is passed on as it is; it is no dictionary, so every puzzle type with parameters fails", (m.rel, c.lineno))
        elif v is not None:
            rep.count("browser parameters")


def browser(repo, rep, js):
    m = repo.modules.get("main_deploy")
    if m is None:
        raise AnalysisBroken("main_deploy.py not found")
    exported = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "window":
                    exported[t.attr] = n.value
        elif isinstance(n, ast.Call) and call_name(n) == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "window":
            k = fold(n.args[1])
            if k is None:
                rep.unknown.append("main_deploy exports by computed name")
                return
            exported[k] = n.args[2]
    if not exported:
        raise AnalysisBroken("main_deploy.py exports nothing to the window")
    provided = set(repo.modules["noqx.manager"].defs)
    results = {}
    for nm in ("prepare_puzzle", "generate_program", "store_solution"):
        for i in js.find(nm, "("):
            if js.toks[i - 1][1] in (".", "function"):
                continue
            nargs = len(js.args(i + 1))
            rep.count("browser function calls")
            if nm not in exported:
                rep.add("browser-function", "main_deploy", nm, f"the front end calls {nm}, the browser back end does not provide it", (js.rel, js.toks[i][2]))
                continue
            v = exported[nm]
            if isinstance(v, ast.Name):
                k, mm, d = repo.resolve("main_deploy", v.id)
                if k == "func":
                    req = len(d.args.args) - len(d.args.defaults)
                    if not (req <= nargs <= len(d.args.args)) and d.args.vararg is None:
                        rep.add("browser-arity", f"main_deploy.{d.name}", f"{nargs} arguments", f"the front end passes {nargs} arguments, {d.name} takes {len(d.args.args)}", (js.rel, js.toks[i][2]))
                    # which manager function does it stand for?
                    inner = {c.func.id for c in ast.walk(d) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("prepare_puzzle", "generate_program", "store_solution")}
                    if inner and nm not in inner and d.name.lstrip("_") not in (nm,):
                        rep.add("browser-function", "main_deploy", nm, f"window.{nm} runs {sorted(inner)}", (m.rel, d.lineno))
                    results[nm] = d
                    if nm == "prepare_puzzle":
                        converted(rep, m, d)
            # keys read from the result
            j = i
            if js.toks[i - 1][1] == "=":
                results.setdefault(("js", nm), js.toks[i - 2][1])
    for nm, d in [(k, v) for k, v in results.items() if isinstance(k, str)]:
        var = results.get(("js", nm))
        keys = set()
        for i in js.find(var, ".", "get", "(", "<str>") if var else []:
            pass
        for i in js.find(var, ".", "get", "(") if var else []:
            if js.toks[i + 4][0] == "str":
                keys.add(js.toks[i + 4][1])
        rets = [n for n in ast.walk(d) if isinstance(n, ast.Return) and n.value is not None]
        for r in rets:
            v = r.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                continue  # a helper builds the result
            if not isinstance(v, ast.Dict):
                continue
            got = {fold(k): x for k, x in zip(v.keys, v.values) if k is not None}
            rep.count("browser results")
            for k in sorted(keys - set(got)):
                rep.add("browser-result", f"main_deploy.{d.name}", k, f"the front end reads {k!r} from the result, which is missing here", (m.rel, r.lineno))
            h = r
            inexc = None
            while h is not None and h is not d:
                if isinstance(h, ast.ExceptHandler):
                    inexc = h
                h = getattr(h, "_parent", None)
            s = got.get("success")
            if isinstance(s, ast.Constant):
                if bool(s.value) != (inexc is None):
                    rep.add("browser-result", f"main_deploy.{d.name}", "success", "a failure is reported as a success" if inexc is not None else "a success is reported as a failure", (m.rel, r.lineno))
            if inexc is None and isinstance(got.get("result"), (ast.List, ast.Tuple, ast.Dict, ast.Set)) and "result" in keys:
                rep.add("browser-result", f"main_deploy.{d.name}", "form of the result", "the front end uses the result as it is, here it is wrapped", (m.rel, r.lineno))
            if inexc is not None and "result" in got:
                o = Origin(repo, "main_deploy").of(got["result"], {}, inexc.name)
                if "reason" not in o and "unknown" not in o:
                    rep.add("browser-result", f"main_deploy.{d.name}", "reason", "a refusal is reported without its reason", (m.rel, r.lineno))
        tries = [n for n in ast.walk(d) if isinstance(n, ast.Try)]
        for c in ast.walk(d):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("prepare_puzzle", "generate_program", "store_solution"):
                ok = False
                for t in tries:
                    if any(within(c, s) for s in t.body):
                        for hh in t.handlers:
                            if set(names_of(hh.type)) & {"Exception", "BaseException"}:
                                ok = True
                if tries and not ok:
                    rep.add("unhandled", f"main_deploy.{d.name}", c.func.id, "a refusal is not caught and reported to the front end", (m.rel, c.lineno))


def metadata(repo, rep, js):
    """Keys of the metadata the front end reads against those the server dumps."""
    mg = repo.modules["noqx.manager"]
    fn = mg.defs.get("list_solver_metadata")
    if fn is None:
        raise AnalysisBroken("list_solver_metadata not found")
    keys = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Dict):
            keys |= {fold(k) for k in n.keys if k is not None}
        elif isinstance(n, ast.Call) and call_name(n) == "dict":
            keys |= {k.arg for k in n.keywords}
        elif isinstance(n, (ast.Tuple, ast.List)) and n.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n.elts):
            keys |= {x.value for x in n.elts}
    used = {}
    for i in js.find("solver_metadata", "["):
        e = js.close(i + 1)
        if js.toks[e + 1][1] == "." and js.toks[e + 2][0] == "id":
            used[js.toks[e + 2][1]] = js.toks[i][2]
    for i in js.find("of", "Object", ".", "entries", "(", "solver_metadata", ")"):
        # for (const [k, v] of Object.entries(solver_metadata))
        if js.toks[i - 1][1] == "]":
            var = js.toks[i - 2][1]
            for j in js.find(var, ".", "<id>"):
                if j > i and js.toks[j + 2][1] not in used and js.toks[j + 3][1] != "(":
                    if j < i + 400 and js.toks[j - 1][1] != ".":
                        used[js.toks[j + 2][1]] = js.toks[j][2]
            break
    for k, line in used.items():
        rep.count("metadata keys read by the front end")
        if keys and k not in keys:
            rep.add("metadata-key", "noqx.manager.list_solver_metadata", k, f"the front end reads {k!r} of a puzzle type, which is not dumped", (js.rel, line))
    # each dumped entry is the attribute of the same name
    for n in ast.walk(fn):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                kk = fold(k) if k is not None else None
                if isinstance(kk, str) and isinstance(v, ast.Attribute) and v.attr != kk and v.attr in keys:
                    rep.add("metadata-key", "noqx.manager.list_solver_metadata", f"{kk} = .{v.attr}", f"the metadata's {kk!r} carries the {v.attr}", (mg.rel, n.lineno))
    main = repo.modules["main"]
    texts = [x for n in ast.walk(main.tree) if isinstance(n, ast.JoinedStr) for x in [n.values[0]] if isinstance(x, ast.Constant) and isinstance(x.value, str) and "solver_metadata" in x.value]
    texts += [n for n in ast.walk(main.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r"(const|var|let) solver_metadata", n.value)]
    if not texts:
        rep.add("metadata-file", "main", "solver_metadata", "the metadata is not written under the name the front end reads", (main.rel, 1))
    with open(f"{repo.root}/penpa-edit/index.html", encoding="utf-8") as f:
        html = f.read()
    srcs = re.findall(r"<script[^>]*\ssrc=\"\./([^\"]+)\"", html)
    files = [n.value for n in ast.walk(main.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith(".js")]
    if any("solver_metadata" in s for s in srcs):
        name = next(s for s in srcs if "solver_metadata" in s)
        rep.count("metadata file references")
        if not any(f.endswith("penpa-edit/" + name) or f.endswith("/" + name) or f == name for f in files):
            rep.add("metadata-file", "main", name, f"index.html loads {name}, which the server does not write", (main.rel, 1))


def check(repo, rep, tier):
    mod, fn, path, methods = handlers(repo, rep)
    raises(repo, rep)
    js = frontend(repo, rep, mod, fn, path, methods)
    browser(repo, rep, js)
    metadata(repo, rep, js)
    if not rep.counts.get("exception classes resolved") and not rep.unknown and not rep.findings:
        raise AnalysisBroken("the endpoint's failure handling was not found")
