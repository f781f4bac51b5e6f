"""C03: every search is bounded by the time limit and the answer cap."""
import ast
import re

from ..js import Js
from ..loader import AnalysisBroken
from ..server import call_name, fold, kwarg, mod_consts

EXPLANATION = (
    "The engine call is located in the server sources (a solve call on a clingo Control). Checked on every path by dominance on the syntax tree: the "
    "search is started asynchronously, waited for with the configured limit as bound, never waited for otherwise before it is cancelled or its "
    "handle closed; the elapsed time, measured from before the search to after it, is compared with the same limit and leads to TimeoutError before "
    "any answer is returned; the answer cap, thread count and limit that reach the engine are the configured options, read at request time, and "
    "every command-line option with such a default is stored back; the browser back end's option string sets the same options and cap."
)
RULES = ["not-asynchronous", "unbounded-wait", "wrong-limit", "not-stopped", "timeout-not-reported", "timeout-window", "answer-before-check", "cap-not-configured",
         "threads-not-configured", "captured-early", "option-not-wired", "engine-options-differ", "cap-differs", "order"]


def own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def parents(n, stop):
    n = getattr(n, "_parent", None)
    while n is not None and n is not stop:
        yield n
        n = getattr(n, "_parent", None)


class Engine:
    def __init__(self, repo):
        self.repo = repo
        self.calls = []  # (mod, fn, call)
        self.fns = []
        for mn, m in repo.modules.items():
            if mn.startswith("solver") or mn.startswith("noqx.rule") or mn.startswith("noqx.puzzle"):
                continue
            if not any(i[1].split(".")[0] == "clingo" for i in m.imports.values()):
                continue
            for fn in ast.walk(m.tree):
                if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.fns.append((mn, fn))
                    for n in own(fn):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "solve" and self.is_engine(n, fn, m):
                            self.calls.append((mn, fn, n))
        if not self.calls:
            raise AnalysisBroken("no engine solve call found")

    def is_engine(self, call, fn, m):
        kws = {k.arg for k in call.keywords}
        if kws & {"on_model", "async_", "yield_", "on_finish", "on_unsat", "on_statistics", "on_core"}:
            return True
        r = call.func.value
        txt = ast.unparse(r)
        # receiver bound to Control(...) somewhere in the module
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and call_name(n.value) == "Control":
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if ast.unparse(t) == txt:
                        return True
        return False


def cfg_attr(e, fn, cls, env=None, depth=0):
    """Name of the option an expression denotes (attribute of the configuration class), following local names; None otherwise."""
    if isinstance(e, ast.Attribute) and e.attr in cls["opts"]:
        base = e.value
        if isinstance(base, ast.Name) and (base.id == cls["name"] or base.id in cls["aliases"]):
            return e.attr
        return None
    if isinstance(e, ast.Call) and call_name(e) in ("int", "float", "str") and len(e.args) == 1:
        return cfg_attr(e.args[0], fn, cls, env, depth)
    if isinstance(e, ast.FormattedValue):
        return cfg_attr(e.value, fn, cls, env, depth)
    if isinstance(e, ast.Name) and fn is not None and depth < 5:
        vals = [n.value for n in own(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        vals += [n.value for n in own(fn) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None]
        if len(vals) == 1:
            return cfg_attr(vals[0], fn, cls, env, depth + 1)
        if env and e.id in env:
            return env[e.id]
    return None


def config(repo):
    """The configuration class: the class whose attributes main.py sets from the command line, or that holds time_limit."""
    for mn, m in repo.modules.items():
        for d in m.defs.values():
            if isinstance(d, ast.ClassDef):
                names = {}
                for st in d.body:
                    t = st.target if isinstance(st, ast.AnnAssign) else st.targets[0] if isinstance(st, ast.Assign) else None
                    if isinstance(t, ast.Name):
                        names[t.id] = getattr(st, "value", None)
                if "time_limit" in names and "max_solutions_to_find" in names:
                    return {"name": d.name, "opts": names, "mod": mn, "node": d, "aliases": set()}
    raise AnalysisBroken("configuration class not found")


def callers_env(repo, eng, cls):
    """Parameters of engine-module functions that every caller binds to one configuration option: {fn: {param: option}}."""
    out = {}
    for mn, fn in eng.fns:
        names = [a.arg for a in fn.args.args]
        got = {}
        for mn2, fn2 in eng.fns:
            for c in own(fn2):
                if isinstance(c, ast.Call) and call_name(c) in ((fn.name,) if fn.name != "__init__" else tuple(x.name for x in ast.walk(repo.modules[mn].tree) if isinstance(x, ast.ClassDef) and fn in x.body)):
                    off = 1 if names[:1] == ["self"] else 0
                    for i, p in enumerate(names[off:]):
                        a = kwarg(c, p, i)
                        if a is not None:
                            got.setdefault(p, set()).add(cfg_attr(a, fn2, cls))
        out[fn] = {p: next(iter(v)) for p, v in got.items() if len(v) == 1 and next(iter(v)) is not None}
        # self attributes bound from such parameters are not followed
    return out


def bounded(e, fn, cls, env):
    """'limit' when the expression is the configured limit, 'less' when smaller, 'more' when provably larger/other, None unknown."""
    if e is None:
        return "more"
    o = cfg_attr(e, fn, cls, env)
    if o == "time_limit":
        return "limit"
    if o is not None:
        return "more"
    if isinstance(e, ast.Constant):
        return "more"
    if isinstance(e, ast.BinOp):
        l, r = bounded(e.left, fn, cls, env), bounded(e.right, fn, cls, env)
        if l == "limit":
            if isinstance(e.op, ast.Sub):
                return "less"
            if isinstance(e.op, (ast.Add, ast.Mult, ast.Pow)):
                k = fold(e.right)
                if isinstance(e.op, ast.Mult) and isinstance(k, (int, float)) and k <= 1:
                    return "limit" if k == 1 else "less"
                if isinstance(e.op, ast.Add) and k == 0:
                    return "limit"
                return "more"
            if isinstance(e.op, (ast.Div, ast.FloorDiv)):
                k = fold(e.right)
                return "limit" if k == 1 else "less" if isinstance(k, (int, float)) and k > 1 else "more"
        if r == "limit" and isinstance(e.op, (ast.Add, ast.Mult)):
            return "more"
        return None
    if isinstance(e, ast.Call) and call_name(e) == "min":
        v = [bounded(a, fn, cls, env) for a in e.args]
        return "less" if "limit" in v or "less" in v else None
    if isinstance(e, ast.Call) and call_name(e) == "max":
        v = [bounded(a, fn, cls, env) for a in e.args]
        return "more" if "more" in v and any(fold(a) not in (0, None) for a in e.args) else ("limit" if "limit" in v else "less" if "less" in v else None)
    if isinstance(e, ast.Name):
        for n in own(fn):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                return bounded(n.value, fn, cls, env)
    return None


def engine_search(repo, eng, cls, rep, envs):
    for mn, fn, call in eng.calls:
        rep.count("engine searches")
        rel = repo.modules[mn].rel
        where = f"{mn}.{fn.name}"
        env = envs.get(fn, {})
        a = kwarg(call, "async_")
        if not (isinstance(a, ast.Constant) and a.value is True):
            if a is None or (isinstance(a, ast.Constant) and not a.value):
                rep.add("not-asynchronous", where, "solve", "the search is run in the foreground: nothing can stop it at the time limit", (rel, call.lineno))
                continue
            rep.unknown.append(f"{where}: async_ is not constant")
        # the handle
        p = getattr(call, "_parent", None)
        handle, scope, closes = None, fn, False
        if isinstance(p, ast.withitem):
            handle = p.optional_vars.id if isinstance(p.optional_vars, ast.Name) else None
            scope, closes = getattr(p, "_parent"), True
        elif isinstance(p, (ast.Assign, ast.AnnAssign)):
            t = p.targets[0] if isinstance(p, ast.Assign) else p.target
            handle = t.id if isinstance(t, ast.Name) else ast.unparse(t)
            for n in own(fn):
                if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == handle for i in n.items):
                    scope, closes = n, True
        if handle is None:
            rep.add("not-stopped", where, "solve", "the search's handle is dropped, so nothing waits for it or stops it", (rel, call.lineno))
            continue
        uses = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == handle]
        waits = [u for u in uses if u.func.attr == "wait"]
        cancels = [u for u in uses if u.func.attr == "cancel"]
        closers = [u for u in uses if u.func.attr == "__exit__"]
        escapes = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == handle and isinstance(n.ctx, ast.Load)
                   and not isinstance(getattr(n, "_parent", None), ast.Attribute) and not isinstance(getattr(n, "_parent", None), ast.withitem)
                   and not (isinstance(getattr(n, "_parent", None), (ast.For, ast.comprehension)) and n._parent.iter is n)]
        if escapes:
            rep.unknown.append(f"{where}: the handle is passed on")
            if not waits:
                continue
        rep.count("waits", len(waits))
        first_cancel = min([(c.lineno, c.col_offset) for c in cancels], default=None)
        for u in uses:
            pos = (u.lineno, u.col_offset)
            if u.func.attr in ("get", "model", "resume", "core", "last") and u.func.attr != "resume" and (first_cancel is None or pos < first_cancel):
                rep.add("unbounded-wait", where, f"handle.{u.func.attr}()", f"{u.func.attr}() blocks until the search has ended, however long that takes", (rel, u.lineno))
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.comprehension)) and ast.unparse(n.iter) == handle:
                rep.add("unbounded-wait", where, "for model in handle", "iterating over the handle blocks until the next model, however long that takes", (rel, n.iter.lineno))
        if not waits:
            rep.add("wrong-limit", where, "no wait", "the search is not given the configured time: it is stopped at once", (rel, call.lineno))
        full = []
        for w in sorted(waits, key=lambda u: (u.lineno, u.col_offset)):
            t = kwarg(w, "timeout", 0)
            b = bounded(t, fn, cls, env)
            if b is None:
                # an attribute of self bound in the initialiser
                b = self_attr_bound(repo, mn, fn, t, cls, envs)
            looped = any(isinstance(x, (ast.While, ast.For)) for x in parents(w, scope))
            if looped:
                loop = next(x for x in parents(w, scope) if isinstance(x, (ast.While, ast.For)))
                if b == "limit" and not left(loop, w, cancels):
                    rep.add("unbounded-wait", where, "wait in a loop", "the whole time limit is waited for again in every turn of a loop", (rel, w.lineno))
                elif not mentions(loop, fn, cls, env) and isinstance(loop, ast.While):
                    rep.add("unbounded-wait", where, "wait in a loop", "a loop waits for the search again and again, and nothing in it is compared with the configured time limit", (rel, w.lineno))
                else:
                    rep.unknown.append(f"{where}: waits in a loop")
                continue
            again = [x for x in full if not exclusive(x, w, fn)]
            if b == "limit" and again and not any((again[0].lineno, again[0].col_offset) < (c.lineno, c.col_offset) < (w.lineno, w.col_offset) and not conditional(c, scope) for c in cancels):
                rep.add("unbounded-wait", where, "second wait", "the whole time limit is waited for a second time", (rel, w.lineno))
            if b == "limit":
                full.append(w)
            if b == "more":
                rep.add("unbounded-wait", where, f"wait({ast.unparse(t) if t is not None else ''})", "the wait is not bounded by the configured time limit", (rel, w.lineno))
            elif b == "less":
                rep.add("wrong-limit", where, f"wait({ast.unparse(t)})", "the wait ends before the configured limit, so a search that is cut off is not seen as timed out", (rel, w.lineno))
            elif b is None:
                rep.unknown.append(f"{where}: bound of the wait not recognised: {ast.unparse(t)}")
        if not closes and not closers:
            good = False
            for c in cancels:
                conds = [x for x in parents(c, fn) if isinstance(x, (ast.If, ast.IfExp, ast.ExceptHandler, ast.While, ast.For))]
                if not conds:
                    good = True
                for x in conds:
                    if isinstance(x, ast.If) and any(w in list(ast.walk(x.test)) for w in waits):
                        good = True
                    elif isinstance(x, ast.If):
                        # a flag assigned from the wait
                        nm = {n.id for n in ast.walk(x.test) if isinstance(n, ast.Name)}
                        if any(isinstance(n, ast.Assign) and any(w in list(ast.walk(n.value)) for w in waits) and {t.id for t in n.targets if isinstance(t, ast.Name)} & nm for n in own(fn)):
                            good = True
            if not good:
                rep.add("not-stopped", where, "cancel", "a search that is still running after the wait is not stopped on every path", (rel, call.lineno))
        # the program must be complete before the search
        rep.sample(f"{where}: {ast.unparse(call)[:90]}")


def conditional(n, scope):
    return any(isinstance(x, (ast.If, ast.While, ast.For, ast.IfExp, ast.ExceptHandler)) for x in parents(n, scope))


def exclusive(a, b, fn):
    """a and b lie in different branches of one if statement."""
    for x in parents(a, fn):
        if isinstance(x, ast.If):
            ina = [any(a is y for st in br for y in ast.walk(st)) for br in (x.body, x.orelse)]
            inb = [any(b is y for st in br for y in ast.walk(st)) for br in (x.body, x.orelse)]
            if ina != inb and any(ina) and any(inb):
                return True
    return False


def left(loop, w, cancels):
    """The loop is certainly left (or the search stopped) before its wait is reached a second time."""
    body = loop.body
    for st in body:
        if isinstance(st, (ast.Break, ast.Return, ast.Raise)):
            return True
        if isinstance(st, ast.Expr) and any(c is st.value for c in cancels):
            return True
    return any(c is x for c in cancels for x in ast.walk(loop))


def mentions(loop, fn, cls, env):
    """The loop, or a value it uses, refers to the configured limit."""
    seen, todo = set(), [loop]
    while todo:
        n = todo.pop()
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and x.attr in cls["opts"] or isinstance(x, ast.Name) and env.get(x.id):
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and not isinstance(getattr(x, "_parent", None), ast.Call):
                if re.search("limit|deadline|time|budget", x.attr):
                    return True
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                if any(a.arg == x.id for a in fn.args.args if a.arg != "self"):
                    return True
                for y in own(fn):
                    if isinstance(y, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and y.value is not None and any(isinstance(t, ast.Name) and t.id == x.id for t in (y.targets if isinstance(y, ast.Assign) else [y.target])):
                        todo.append(y.value)
    return False


def repeated(repo, eng, cls, rep):
    """One request searches once."""
    names = {fn.name for _, fn, _ in eng.calls}
    for mn, fn in eng.fns:
        for n in own(fn):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in names or any(n is c for _, _, c in eng.calls)):
                for x in parents(n, fn):
                    if isinstance(x, (ast.For, ast.While)) and not any(isinstance(st, (ast.Break, ast.Return)) for st in x.body):
                        if isinstance(x, ast.For) and any(n is y for y in ast.walk(x.iter)):
                            continue
                        rep.add("unbounded-wait", f"{mn}.{fn.name}", f"{ast.unparse(n.func)} in a loop", "the search is run again in a loop, each time with the whole time limit", (repo.modules[mn].rel, n.lineno))
                        break


def cap_shift(e):
    """len(answers) < cap + k (the condition under which answers go on being kept): k; None when it is something else; "fixed" against a number."""
    neg = False
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e, neg = e.operand, not neg
    if not isinstance(e, ast.Compare) or len(e.ops) != 1:
        return None
    a, op, b = e.left, type(e.ops[0]), e.comparators[0]

    def side(x):
        """(number of times len, number of times cap, constant)"""
        if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool):
            return (0, 0, x.value)
        if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "len" and len(x.args) == 1:
            return (1, 0, 0)
        if isinstance(x, ast.Attribute) and x.attr == "max_solutions_to_find":
            return (0, 1, 0)
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
            l, r = side(x.left), side(x.right)
            if l is None or r is None:
                return None
            f = 1 if isinstance(x.op, ast.Add) else -1
            return tuple(p + f * q for p, q in zip(l, r))
        return None
    l, r = side(a), side(b)
    if l is None or r is None:
        return None
    d = tuple(p - q for p, q in zip(l, r))  # d op 0
    if d[0] == -1:
        d = tuple(-v for v in d)
        op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op, op)
    if neg:
        op = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.NotEq: ast.Eq, ast.Eq: ast.NotEq}.get(op, op)
    if d[0] != 1 or op not in (ast.Lt, ast.LtE, ast.NotEq):
        return None
    k = -d[2] + (1 if op is ast.LtE else 0)
    return k if d[1] == -1 else ("fixed" if d[1] == 0 else None)


def negated(e):
    return ast.UnaryOp(op=ast.Not(), operand=e)


def kept(repo, eng, cls, rep):
    """Every answer the engine found is returned: none is cut off by a fixed number, and the engine is not told to stop early."""
    classes = {}
    for mn, fn in eng.fns:
        p = getattr(fn, "_parent", None)
        if isinstance(p, ast.ClassDef):
            classes.setdefault(fn.name, (mn, fn))
    for mn, fn in eng.fns:
        rel = repo.modules[mn].rel
        where = f"{mn}.{fn.name}"

        def answers(e, depth=0):
            """The expression is the list of answers found."""
            if depth > 5:
                return False
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr in classes and any(isinstance(x, ast.Return) and x.value is not None and "List" in ast.unparse(classes[e.func.attr][1].returns or ast.Constant("")) for x in own(classes[e.func.attr][1])):
                    return True
                return call_name(e) in ("enumerate", "list", "sorted", "reversed", "tuple", "islice") and bool(e.args) and answers(e.args[0], depth + 1)
            if isinstance(e, ast.Attribute):
                return e.attr in lists
            if isinstance(e, ast.Name):
                vals = [x.value for x in own(fn) if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(isinstance(t, ast.Name) and t.id == e.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
                return e.id in returned or any(answers(v, depth + 1) for v in vals)
            return False

        lists = {t.attr for c in ast.walk(repo.modules[mn].tree) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Attribute) for t in [c.func.value]}
        returned = set()
        for x in own(fn):
            if isinstance(x, ast.Return) and x.value is not None:
                for v in ast.walk(x.value):
                    if isinstance(v, ast.Name):
                        for c in own(fn):
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and getattr(c.func.value, "id", "") == v.id:
                                returned.add(v.id)
        for n in own(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and answers(n.value):
                rep.count("slices of the answers")
                for b in (n.slice.lower, n.slice.upper):
                    if b is not None and isinstance(fold(b), int) and fold(b) != 0:
                        rep.add("cap-not-configured", where, ast.unparse(n), "answers are cut off by a fixed number instead of the configured cap", (rel, n.lineno))
                        break
            elif isinstance(n, ast.Call) and call_name(n) == "islice" and n.args and answers(n.args[0]) and any(isinstance(fold(a), int) for a in n.args[1:]):
                rep.add("cap-not-configured", where, ast.unparse(n)[:60], "answers are cut off by a fixed number instead of the configured cap", (rel, n.lineno))
            elif isinstance(n, (ast.Break, ast.Return, ast.Continue)):
                loop = next((x for x in parents(n, fn) if isinstance(x, (ast.For, ast.While))), None)
                cond = next((x for x in parents(n, fn) if isinstance(x, ast.If)), None)
                if isinstance(loop, ast.For) and answers(loop.iter) and cond is not None and not mentions(cond, fn, cls, {}):
                    for c in ast.walk(cond.test):
                        if isinstance(c, ast.Compare) and any(isinstance(fold(v), int) and not isinstance(fold(v), bool) and fold(v) > 0 for v in [c.left] + c.comparators):
                            rep.add("cap-not-configured", where, f"if {ast.unparse(cond.test)}", "answers are cut off by a fixed number instead of the configured cap", (rel, n.lineno))
                            break
    for mn, fn, call in eng.calls:
        cb = kwarg(call, "on_model")
        if isinstance(cb, ast.Attribute) or isinstance(cb, ast.Name):
            nm = cb.attr if isinstance(cb, ast.Attribute) else cb.id
            for mn2, f2 in eng.fns:
                if f2.name == nm and mn2 == mn:
                    for c in own(f2):
                        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "add", "put")):
                            continue
                        child = c
                        for x in parents(c, f2):
                            if isinstance(x, ast.If):
                                rep.count("conditions on keeping an answer")
                                inbody = any(child is y or any(child is z for z in ast.walk(y)) for y in x.body)
                                for t in x.test.values if isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And) and inbody else [x.test]:
                                    k = cap_shift(t if inbody else negated(t))
                                    if k == "fixed" or isinstance(k, int) and k < 0:
                                        rep.add("cap-not-configured", f"{mn}.{nm}", f"if {ast.unparse(x.test)}", "an answer the engine found is dropped before the configured cap is reached", (repo.modules[mn].rel, x.lineno))
                            child = x
                    for st in f2.body:  # an early return
                        if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], ast.Return) and not st.orelse:
                            k = cap_shift(negated(st.test))
                            if isinstance(st.test, ast.BoolOp) and any(cap_shift(negated(t)) == "fixed" for t in st.test.values):
                                k = "fixed"
                            if k == "fixed" or isinstance(k, int) and k < 0:
                                rep.add("cap-not-configured", f"{mn}.{nm}", f"if {ast.unparse(st.test)}", "an answer the engine found is dropped before the configured cap is reached", (repo.modules[mn].rel, st.lineno))
                    for r in own(f2):
                        if isinstance(r, ast.Return) and r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value in (None, True)):
                            rep.count("values returned to the engine")
                            if isinstance(cap_shift(r.value), int) and cap_shift(r.value) < 0:
                                rep.add("cap-not-configured", f"{mn}.{nm}", f"return {ast.unparse(r.value)}", "the callback tells the engine to stop before the configured cap is reached", (repo.modules[mn].rel, r.lineno))
                                continue
                            opts = {x.attr for x in ast.walk(r.value) if isinstance(x, ast.Attribute) and x.attr in cls["opts"]}
                            if "max_solutions_to_find" in opts or "time_limit" in opts:
                                continue
                            if any(isinstance(x, ast.Constant) and isinstance(x.value, (int, bool)) for x in ast.walk(r.value)):
                                rep.add("cap-not-configured", f"{mn}.{nm}", f"return {ast.unparse(r.value)}", "the callback tells the engine to stop after a number of answers that is not the configured cap", (repo.modules[mn].rel, r.lineno))


def self_attr_bound(repo, mn, fn, t, cls, envs):
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
        for c in ast.walk(repo.modules[mn].tree):
            if isinstance(c, ast.ClassDef) and fn in c.body:
                vals = []
                for f2 in c.body:
                    if isinstance(f2, ast.FunctionDef):
                        for n in own(f2):
                            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                            if any(isinstance(x, ast.Attribute) and x.attr == t.attr and getattr(x.value, "id", "") == "self" for x in tg):
                                vals.append(bounded(n.value, f2, cls, envs.get(f2, {})))
                if len(vals) == 1:
                    return vals[0]
    return None


def timeout_report(repo, eng, cls, rep, envs):
    """TimeoutError must be raised when the elapsed time reached the limit (or the wait said so), before answers are returned."""
    found = False
    engine_names = {fn.name for _, fn, _ in eng.calls}
    raises = []
    for mn, fn in eng.fns:
        for n in own(fn):
            if isinstance(n, ast.Raise) and n.exc is not None and call_name(n.exc if isinstance(n.exc, ast.Call) else ast.Call(func=n.exc, args=[], keywords=[])) == "TimeoutError":
                raises.append((mn, fn, n))
    for mn, fn, r in raises:
        rel = repo.modules[mn].rel
        where = f"{mn}.{fn.name}"
        cond = next((x for x in parents(r, fn) if isinstance(x, ast.If)), None)
        if cond is None:
            rep.unknown.append(f"{where}: TimeoutError is raised unconditionally here")
            found = True
            continue
        in_else = any(r is y or any(r is z for z in ast.walk(y)) for y in cond.orelse)
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "wait" for x in ast.walk(cond.test)):
            neg = isinstance(cond.test, ast.UnaryOp) and isinstance(cond.test.op, ast.Not)
            if neg == in_else:
                rep.add("timeout-not-reported", where, ast.unparse(cond.test), "the time-out is reported when the search ended in time", (rel, cond.lineno))
            found = True
            continue
        v = elapsed_cond(cond.test, fn, cls, envs.get(fn, {}), mn, repo)
        if v is None:
            rep.unknown.append(f"{where}: condition of TimeoutError not recognised: {ast.unparse(cond.test)}")
            found = True
            continue
        ok, msg, start, stop = v
        if in_else:
            ok = not ok
        rep.count("time-limit comparisons")
        if not ok:
            rep.add("timeout-not-reported", where, ast.unparse(cond.test), msg, (rel, cond.lineno))
        found = True
        # the measured window covers the search
        if start is not None and stop is not None:
            if call_name(start) != call_name(stop):
                rep.add("timeout-window", where, f"{call_name(start)} / {call_name(stop)}", "the two ends of the measured time are read from different clocks", (rel, stop.lineno))
            elif call_name(start).startswith(("process_time", "thread_time")):
                rep.add("timeout-window", where, call_name(start), "processor time is measured instead of the time the search was waited for", (rel, start.lineno))
        searches = [n for n in own(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in engine_names or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in engine_names]
        searches = [s for s in searches if s not in [c for _, _, c in eng.calls]] + [c for _, f, c in eng.calls if f is fn]
        for s in searches:
            if start is not None and (start.lineno, start.col_offset) > (s.lineno, s.col_offset):
                rep.add("timeout-window", where, "start", "the clock is started after the search, so a search that used up its time is answered as if it had not", (rel, start.lineno))
            if stop is not None and (stop.lineno, stop.col_offset) < (s.lineno, s.col_offset):
                rep.add("timeout-window", where, "stop", "the clock is read before the search has run, so a search that used up its time is answered as if it had not", (rel, stop.lineno))
            for n in own(fn):
                if isinstance(n, ast.Return) and n.value is not None and (s.lineno, s.col_offset) < (n.lineno, n.col_offset) < (cond.lineno, cond.col_offset):
                    rep.add("answer-before-check", where, ast.unparse(n)[:60], "an answer is returned before the elapsed time is compared with the limit", (rel, n.lineno))
            outer = [x for x in parents(cond, fn) if isinstance(x, ast.If)]
            for o in outer:
                rep.add("timeout-not-reported", where, f"only if {ast.unparse(o.test)}", "the elapsed time is compared with the limit only under a further condition", (rel, o.lineno))
    if not found:
        mn, fn, c = eng.calls[0]
        rep.add("timeout-not-reported", f"{mn}.{fn.name}", "TimeoutError", "no path reports that the time was used up", (repo.modules[mn].rel, c.lineno))


CLOCKS = {"perf_counter", "time", "monotonic", "perf_counter_ns", "monotonic_ns", "time_ns", "process_time", "process_time_ns", "thread_time", "thread_time_ns"}


def clock(e, fn, depth=0):
    """The assignment or call at which a clock value is read: (node, wall?)"""
    if isinstance(e, ast.Call) and call_name(e) in CLOCKS:
        return e
    if isinstance(e, ast.Name) and depth < 4:
        vals = [n.value for n in own(fn) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(t, ast.Name) and t.id == e.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        if len(vals) == 1:
            return clock(vals[0], fn, depth + 1)
    return None


def elapsed(e, fn, depth=0):
    """(start, stop) clock reads of an elapsed-time expression."""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub):
        a, b = clock(e.left, fn), clock(e.right, fn)
        if a is not None and b is not None:
            return b, a
    if isinstance(e, ast.Name) and depth < 4:
        vals = [n.value for n in own(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(vals) == 1:
            return elapsed(vals[0], fn, depth + 1)
    if isinstance(e, ast.Call) and call_name(e) in ("abs", "float") and e.args:
        return elapsed(e.args[0], fn, depth)
    return None


def elapsed_cond(test, fn, cls, env, mn, repo):
    """-> (is the condition 'elapsed >= limit', message, start, stop) or None."""
    neg = False
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, neg = test.operand, not neg
    if isinstance(test, ast.Name):
        vals = [n.value for n in own(fn) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == test.id for t in n.targets)]
        if len(vals) == 1:
            r = elapsed_cond(vals[0], fn, cls, env, mn, repo)
            return (r[0] != neg,) + r[1:] if r else None
        return None
    if isinstance(test, ast.BoolOp):
        rs = [elapsed_cond(v, fn, cls, env, mn, repo) for v in test.values]
        got = [r for r in rs if r]
        if not got:
            return None
        if isinstance(test.op, ast.And) and len(rs) > 1:
            return (False, "the time-out is reported only when a further condition holds", got[0][2], got[0][3])
        return got[0]
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, r, op = test.left, test.comparators[0], test.ops[0]
    le, re_ = elapsed(l, fn), elapsed(r, fn)
    lb, rb = bounded(l, fn, cls, env), bounded(r, fn, cls, env)
    flip = {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}
    if le is None and re_ is not None:
        le, rb, op = re_, lb, flip.get(type(op), type(op))()
    if le is None:
        # start + limit <= now
        if isinstance(l, ast.BinOp) and isinstance(l.op, ast.Add) or isinstance(r, ast.BinOp) and isinstance(r.op, ast.Add):
            return None
        return None
    if rb is None:
        return None
    right = isinstance(op, (ast.Gt, ast.GtE))
    if neg:
        right = isinstance(op, (ast.Lt, ast.LtE))
    if rb != "limit":
        return (False, "the elapsed time is compared with something other than the configured limit the search was given", le[0], le[1])
    return (right, "the comparison with the limit is the wrong way round", le[0], le[1])


def options(repo, eng, cls, rep, envs):
    """The cap and the thread count reach the engine before the search starts."""
    want = {"models": ("max_solutions_to_find", "cap-not-configured"), "parallel_mode": ("parallel_threads", "threads-not-configured")}
    for opt, (attr, rule) in want.items():
        if attr not in cls["opts"]:
            continue
        sets = []
        for mn, fn in eng.fns:
            for n in own(fn):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == opt for t in n.targets):
                    sets.append((mn, fn, n, n.value))
                elif isinstance(n, ast.Call) and call_name(n) == "setattr" and len(n.args) == 3 and fold(n.args[1]) == opt:
                    sets.append((mn, fn, n, n.args[2]))
                elif isinstance(n, ast.Call) and call_name(n) == "Control":
                    for x in ast.walk(n):
                        if isinstance(x, ast.JoinedStr):
                            txt = "".join(p.value if isinstance(p, ast.Constant) else "\0" for p in x.values)
                            if re.match(r"(--models=?|-n ?)\0|\0$" if opt == "models" else r"(--parallel-mode=?|-t ?)\0", txt):
                                v = next(p for p in x.values if isinstance(p, ast.FormattedValue)).value
                                sets.append((mn, fn, n, v))
        mn0, fn0, c0 = eng.calls[0]
        rel0 = repo.modules[mn0].rel
        if not sets:
            # set by some other construct (a loop over a table of options)?
            reads = [n for mn, fn in eng.fns for n in own(fn) if isinstance(n, ast.Attribute) and n.attr == attr]
            if reads:
                rep.unknown.append(f"option {attr} reaches the engine in a way that is not recognised")
            else:
                rep.add(rule, f"{mn0}.{fn0.name}", opt, f"the configured {attr} never reaches the engine", (rel0, c0.lineno))
            continue
        for mn, fn, n, v in sets:
            rep.count("engine options")
            o = cfg_attr(v, fn, cls, envs.get(fn, {}))
            arms = branches(v)
            if o == attr:
                pass
            elif len(arms) > 1 and any(fold(x) is not None or cfg_attr(x, fn, cls, envs.get(fn, {})) not in (None, attr) for x in arms) or any(altered(x) for x in arms):
                rep.add(rule, f"{mn}.{fn.name}", f"{opt} = {ast.unparse(v)}", f"the engine's {opt} is not always the configured {attr}", (repo.modules[mn].rel, n.lineno))
            elif o is not None or isinstance(v, ast.Constant):
                rep.add(rule, f"{mn}.{fn.name}", f"{opt} = {ast.unparse(v)}", f"the engine's {opt} is not the configured {attr}", (repo.modules[mn].rel, n.lineno))
            elif isinstance(v, ast.BinOp) and any(cfg_attr(x, fn, cls, envs.get(fn, {})) == attr for x in (v.left, v.right)) and fold(v.right) not in (0, None):
                rep.add(rule, f"{mn}.{fn.name}", f"{opt} = {ast.unparse(v)}", f"the engine's {opt} differs from the configured {attr}", (repo.modules[mn].rel, n.lineno))
            else:
                rep.unknown.append(f"{mn}.{fn.name}: value of {opt} not recognised: {ast.unparse(v)}")
            if fn is fn0 and (n.lineno, n.col_offset) > (c0.lineno, c0.col_offset):
                rep.add("order", f"{mn}.{fn.name}", opt, f"{opt} is set after the search has been started", (repo.modules[mn].rel, n.lineno))
            if any(isinstance(x, ast.If) for x in parents(n, fn)) :
                rep.unknown.append(f"{mn}.{fn.name}: {opt} is set conditionally")


def early(repo, cls, rep):
    """No option may be read when a module is loaded: the command line is applied later."""
    for mn, m in repo.modules.items():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == cls["name"] and n.attr in cls["opts"]:
                rep.count("option reads")
                f, prev = getattr(n, "_parent", None), n
                in_fn = False
                while f is not None:
                    if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                        dflt = f.args.defaults + [d for d in f.args.kw_defaults if d is not None]
                        deco = getattr(f, "decorator_list", [])
                        if prev is not f.args and prev not in deco and not any(n in list(ast.walk(d)) for d in dflt):
                            in_fn = True
                            break
                    prev, f = f, getattr(f, "_parent", None)
                if not in_fn and mn != "main":
                    rep.add("captured-early", mn, f"{cls['name']}.{n.attr}", f"{cls['name']}.{n.attr} is read when the module is loaded, before the command line is applied", (m.rel, n.lineno))


def branches(v):
    """The values a conditional expression can have."""
    if isinstance(v, ast.IfExp):
        return branches(v.body) + branches(v.orelse)
    return [v]


def altered(v):
    """An expression that changes an ordinary positive value given on the command line."""
    if isinstance(v, ast.BinOp):
        k = fold(v.right) if fold(v.right) is not None else fold(v.left)
        if isinstance(k, (int, float)):
            return not (k == 0 and isinstance(v.op, (ast.Add, ast.Sub)) or k == 1 and isinstance(v.op, (ast.Mult, ast.Div, ast.FloorDiv, ast.Pow)))
    if isinstance(v, ast.Call) and call_name(v) in ("min", "max") and len(v.args) > 1:
        ks = [fold(a) for a in v.args]
        return call_name(v) == "min" and any(isinstance(k, (int, float)) for k in ks) or any(isinstance(k, (int, float)) and k > 1 for k in ks)
    return False


def wiring(repo, cls, rep):
    m = repo.modules.get("main")
    if m is None:
        raise AnalysisBroken("main.py not found")
    dests = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and call_name(n) == "add_argument":
            d = kwarg(n, "default")
            names = [fold(a) for a in n.args if isinstance(fold(a), str)]
            dest = fold(kwarg(n, "dest")) if kwarg(n, "dest") is not None else None
            if dest is None:
                longs = [x for x in names if x.startswith("--")]
                dest = (longs or names or [""])[0].lstrip("-").replace("-", "_")
            o = d.attr if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == cls["name"] else None
            t = kwarg(n, "type")
            dests[dest] = (o, n, t)
    sets = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == cls["name"]:
                    sets.setdefault(t.attr, []).append((n.value, n))
        elif isinstance(n, ast.Call) and call_name(n) == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == cls["name"]:
            k = fold(n.args[1])
            if k is None:
                for o in cls["opts"]:
                    sets.setdefault(o, []).append((None, n))
            else:
                sets.setdefault(k, []).append((n.args[2], n))
    for dest, (o, n, t) in dests.items():
        cand = o or (dest if dest in cls["opts"] else None)
        if cand is None:
            continue
        rep.count("command-line options")
        if t is None or (isinstance(t, ast.Name) and t.id == "str"):
            rep.add("option-not-wired", "main", f"--{dest} type", f"--{dest} stays text, so it cannot bound the search", (m.rel, n.lineno))
        if cand not in sets:
            rep.add("option-not-wired", "main", f"{cls['name']}.{cand}", f"the command-line value of --{dest} never reaches {cls['name']}.{cand}", (m.rel, n.lineno))
            continue
        for v, st in sets[cand]:
            if v is None:
                continue
            if isinstance(v, ast.Attribute) and v.attr in dests and v.attr != dest and dests[v.attr][0] != cand:
                rep.add("option-not-wired", "main", f"{cls['name']}.{cand} = {ast.unparse(v)}", f"{cls['name']}.{cand} is set from the wrong command-line option", (m.rel, st.lineno))
            elif isinstance(v, ast.Constant) or (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == cls["name"]):
                rep.add("option-not-wired", "main", f"{cls['name']}.{cand} = {ast.unparse(v)}", f"the command-line value of --{dest} never reaches {cls['name']}.{cand}", (m.rel, st.lineno))
            elif altered(v):
                rep.add("option-not-wired", "main", f"{cls['name']}.{cand} = {ast.unparse(v)}", f"{cls['name']}.{cand} is not the value given for --{dest}", (m.rel, st.lineno))
            conds = [x for x in parents(st, m.tree) if isinstance(x, ast.If) and "__name__" in ast.unparse(x.test)]
            if conds:
                rep.add("option-not-wired", "main", f"{cls['name']}.{cand} under {ast.unparse(conds[0].test)}", "the option is applied only in the starting process, not in the process that serves requests when reloading", (m.rel, st.lineno))


def browser(repo, eng, cls, rep):
    js = Js(repo.root, "penpa-edit/app.js")
    got = []
    for i in js.find("clingo", ".", "run", "("):
        a = js.args(i + 3)
        if len(a) > 1:
            got.append((js.value(*a[1]), js.toks[i][2]))
        else:
            got.append(("", js.toks[i][2]))
    if not got:
        raise AnalysisBroken("app.js: clingo.run not found")
    mn, fn, c = eng.calls[0]
    server = {}
    for mn2, fn2 in eng.fns:
        for n in own(fn2):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr in COMPARED:
                        server[t.attr] = fold(n.value, mod_consts(repo.modules[mn2]))
    for mn2, fn2 in eng.fns:  # options set in another form: as text, by name, from a table
        for n in ast.walk(repo.modules[mn2].tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                for k in COMPARED:
                    if re.search(rf"\b{k}\b", n.value.replace("-", "_")) and not docstring(n, repo.modules[mn2].tree):
                        server.setdefault(k, None)
    defaults = {k: fold(v) if v is not None else None for k, v in cls["opts"].items()}
    for text, line in got:
        rep.count("browser engine calls")
        if text is None:
            rep.unknown.append("app.js: engine options not constant")
            continue
        opts = {}
        words = re.split(r"[\s,]+", text.strip())
        for w in words:
            if not w:
                continue
            k, _, v = w.lstrip("-").partition("=")
            opts[k.replace("-", "_")] = v
        if words and words[-1].isdigit():
            opts["models"] = words[-1]
        loc = (js.rel, line)
        cap = opts.get("models", opts.get("n"))
        if cap is None or str(defaults.get("max_solutions_to_find")) != cap:
            rep.add("cap-differs", "app.js", f"--models={cap}", f"the browser asks for {cap} answers, the server for {defaults.get('max_solutions_to_find')}", loc)
        for k, dflt in COMPARED.items():
            s = server.get(k)
            if k in server and s is None:
                continue
            b = opts.get(k)
            if b == "" and dflt is not None:
                b = dflt
            if (None if s is None else str(s)) != b:
                rep.add("engine-options-differ", "app.js", f"--{k.replace('_', '-')}", f"the browser's engine option {k} is {b!r}, the server's {s!r}", loc)
    # the cap shown to the user
    for mt in re.finditer(r'length\s*(?:===?|>=)\s*(\d+)\s*\?\s*["\'](\d+)\+["\']', js.src):
        rep.count("cap labels")
        for v in mt.groups():
            if v != str(defaults.get("max_solutions_to_find")):
                rep.add("cap-differs", "app.js", f"label {v}+", f"the list of answers is marked as cut off at {v}, the cap is {defaults.get('max_solutions_to_find')}", (js.rel, js.src[:mt.start()].count("\n") + 1))
    for k, v in defaults.items():
        if k in ("time_limit", "max_solutions_to_find", "parallel_threads") and isinstance(v, (int, float)) and v <= 0:
            rep.add("wrong-limit", cls["name"], f"{k} = {v}", f"a default {k} of {v} means no bound", (repo.modules[cls["mod"]].rel, cls["node"].lineno))


COMPARED = {"trans_ext": None, "eq": None, "sat_prepro": "2", "project": "auto"}  # option: what it means without a value


def docstring(c, tree):
    return any(isinstance(n, ast.Expr) and n.value is c for n in ast.walk(tree))


def check(repo, rep, tier):
    eng = Engine(repo)
    cls = config(repo)
    for mn, m in repo.modules.items():
        for k, i in m.imports.items():
            if i[0] == "from" and i[2] == cls["name"]:
                cls["aliases"].add(k)
    envs = callers_env(repo, eng, cls)
    engine_search(repo, eng, cls, rep, envs)
    repeated(repo, eng, cls, rep)
    kept(repo, eng, cls, rep)
    timeout_report(repo, eng, cls, rep, envs)
    options(repo, eng, cls, rep, envs)
    early(repo, cls, rep)
    wiring(repo, cls, rep)
    browser(repo, eng, cls, rep)
