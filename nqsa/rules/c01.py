"""C01: a request's answer depends on that request alone."""
import ast

from ..domain import Sym, f_lits, walk, walk_nodes
from ..effects import CACHES, MUTATORS, Effects, reachable
from ..framework import per_solver
from ..loader import AnalysisBroken
from ..prog import program
from ..solve import stored_attrs

EXPLANATION = (
    "Two analyses. (1) Every solver is interpreted abstractly with all instance attributes that are ever assigned outside an initialiser set to an "
    "unknown leftover of earlier (possibly failed) requests; no rule template, and no condition deciding whether a rule is emitted, may depend on a "
    "leftover, and nothing owned by a module, a class, a default argument or the solver instance may be mutated. (2) A flow-insensitive alias and "
    "effect analysis of every function reachable from the request entry points: no write to a module-level object, class attribute, default "
    "argument or cached result, and no unbounded cache. The answer path must rebuild its puzzle and must not mutate the request's puzzle."
)
RULES = ["leftover-in-program", "leftover-in-condition", "mutates-shared", "writes-shared", "unbounded-cache", "answer-mutates-puzzle", "clear-incomplete",
         "leftover-in-refine", "engine-shared", "ambient"]


def leftover(values):
    for v in values:
        if isinstance(v, Sym) and v.op == "leftover":
            return v.args[0] if v.args else "program"
    return None


def solver(repo, res, rep):
    rules, _ = program(res)
    name = res.name
    rep.count("rule templates", len(rules))
    where = f"solver {name}"
    for r in rules:
        a = leftover(walk_nodes(r.nodes))
        if a:
            rep.add("leftover-in-program", where, f"self.{a}", f"the generated program contains what an earlier request left in self.{a}: {r.text()[:100]}", r.loc)
        for f in r.pc:
            if f is True or f is False:
                continue
            for lit in f_lits(f):
                a = leftover(walk(lit[1]))
                if a:
                    rep.add("leftover-in-condition", where, f"self.{a}", f"whether a rule is emitted depends on what an earlier request left in self.{a}: {r.text()[:100]}", r.loc)
    a = leftover(walk_nodes(res.program.nodes))
    if a and not any(f.rule.startswith("leftover") for f in rep.findings):
        rep.add("leftover-in-program", where, f"self.{a}", f"the generated program contains what an earlier request left in self.{a}", (repo.modules[res.mod].rel, res.line))
    for e in res.events:
        if e.kind == "mutate-shared":
            rep.add("mutates-shared", where, f"{e.fn}: {e.data[0]}", f"{e.fn} changes {e.data[0]}, which outlives the request", e.loc)
    # attributes read by refine
    stored = stored_attrs(repo, res.mod, res.cls)
    for m in res.cls.body:
        if isinstance(m, ast.FunctionDef) and m.name == "refine" and m.args.args:
            me = m.args.args[0].arg
            rep.count("refine methods")
            own = {n.attr for st in m.body for n in ast.walk(st) if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(n, ast.Attribute)
                   and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me}
            inrefine = {n.attr for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me}
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me and n.attr in stored:
                    if n.attr in own and n.attr not in ():
                        continue
                    at = res.state.heap[res.selfobj.oid].attrs.get(n.attr)
                    if n.attr in inrefine or leftover(walk(at) if at is not None else [Sym("leftover", n.attr)]):
                        rep.add("leftover-in-refine", where, f"self.{n.attr}", f"refine reads self.{n.attr}, which an earlier request or answer may have left behind", (repo.modules[res.mod].rel, n.lineno))


ENTRY = {"solver_api", "_prepare_puzzle", "_generate_program", "_store_solution", "run_solver", "prepare_puzzle", "generate_program", "store_solution"}


def effects(repo, rep):
    eff = Effects(repo)
    entries = [f for f in eff.fns if (f.cls is None and f.node.name in ENTRY) or (f.cls is not None and id(f.cls) in eff.solver_cls and f.node.name in ("solve", "refine"))]
    if not any(f.node.name == "store_solution" for f in entries):
        raise AnalysisBroken("store_solution not found")
    reach = reachable(eff, entries)
    # load_solvers and main run once, before any request; they are reached only through name over-approximation
    rep.count("functions", len(eff.fns))
    rep.count("functions reachable from a request", len(reach))
    setup = {"load_solvers", "main"}
    for f in reach:
        if f.node.name in setup and f.cls is None:
            continue
        rel = repo.modules[f.mod].rel
        for desc, what, line in f.writes:
            rep.add("writes-shared", f.qual, desc, f"{f.qual} {what} on {desc}, which outlives the request", (rel, line))
        if f.cached and f.cached[1] and (f.params or f.cached[0] == "cached_property"):
            if f.cached[0] == "cached_property" and not (f.cls is not None and id(f.cls) in eff.solver_cls):
                continue
            rep.add("unbounded-cache", f.qual, f.cached[0], f"{f.qual} keeps one entry per distinct argument for ever", (rel, f.node.lineno))
    engine_shared(repo, eff, rep)
    shared_parts(repo, eff, rep)
    ambient(repo, eff, reach, rep)
    # the answer path
    for f in eff.fns:
        if f.node.name in ("store_solution", "_store_solution") and f.cls is None:
            rep.count("answer functions")
            for i, what in f.mutates.items():
                rep.add("answer-mutates-puzzle", f.qual, f"parameter {f.params[i]}", f"storing one answer {what} of the request's own {f.params[i]}: the next answer starts from this one", (repo.modules[f.mod].rel, f.node.lineno))


def content_writes(repo, mod, cls):
    """method name -> attributes of self whose contents it (or a method it calls on self) changes in place, without having bound them afresh first."""
    fam = {}
    for _, cn in reversed(repo.mro(mod, cls)):
        if isinstance(cn, ast.ClassDef):
            fam.update({m.name: m for m in cn.body if isinstance(m, ast.FunctionDef) and m.args.args})
    direct, bound, calls = {}, {}, {}
    for nm, m in fam.items():
        me = m.args.args[0].arg
        direct[nm], bound[nm], calls[nm] = set(), set(), set()
        for n in ast.walk(m):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                bound[nm].add(n.attr)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                a = own_attr(n.value, me)
                if a:
                    direct[nm].add(a)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                    calls[nm].add(n.func.attr)
                elif n.func.attr in MUTATORS:
                    a = own_attr(n.func.value, me)
                    if a:
                        direct[nm].add(a)
    out = {nm: direct[nm] - bound[nm] for nm in fam}
    for _ in range(len(fam)):
        for nm in fam:
            for k in calls[nm]:
                out[nm] |= out.get(k, set()) - bound[nm]
    return out


def own_attr(e, me):
    """x of self.x, self.x[...], self.x.y...; None of anything else."""
    last = None
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        last = e.attr if isinstance(e, ast.Attribute) else last
        e = e.value
    return last if isinstance(e, ast.Name) and e.id == me else None


def shared_parts(repo, eff, rep):
    """The answer's puzzle must not be built from parts of the request's puzzle that writing an answer changes in place."""
    deep = {}
    for mn, m in repo.modules.items():
        for c in m.defs.values() if isinstance(m.defs, dict) else ():
            if isinstance(c, ast.ClassDef) and any(isinstance(x, ast.ClassDef) and x.name == "Puzzle" for _, x in repo.mro(mn, c)):
                for k, v in content_writes(repo, mn, c).items():
                    deep.setdefault(k, set()).update(v)
    later = deep.get("encode", set()) | deep.get("clear", set())
    for f in eff.fns:
        if f.cls is not None or f.node.name not in ("store_solution", "_store_solution") or not f.params:
            continue
        src = {f.params[0]}
        whole, part, fresh, local = set(), {}, {}, set()
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or n.value is None:
                continue
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                pairs = list(zip(t.elts, n.value.elts)) if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts) else [(t, n.value)]
                for x, v in pairs:
                    if isinstance(x, ast.Name):
                        local.add(x.id)
                        if isinstance(v, ast.Name) and v.id in src:
                            src.add(x.id)
                        elif isinstance(v, ast.Call) and getattr(v.func, "attr", getattr(v.func, "id", "")) == "copy" and len(v.args) == 1 and isinstance(v.args[0], ast.Name) and v.args[0].id in src:
                            whole.add((x.id, n.lineno))
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in src:
                            part[(x.value.id, x.attr)] = n.lineno
                        else:
                            fresh.setdefault(x.value.id, {})[x.attr] = n.lineno
        rel = repo.modules[f.mod].rel
        for (v, a), line in part.items():
            rep.count("attributes an answer takes from the request's puzzle")
            if v not in src and a in later and fresh.get(v, {}).get(a, 0) <= line:
                rep.add("answer-mutates-puzzle", f.qual, f"{v}.{a}", f"the answer's {a} is the request's own: writing this answer changes what the next answer starts from", (rel, line))
        for v, line in whole:
            rep.count("attributes an answer takes from the request's puzzle")
            bad = sorted(a for a in later if fresh.get(v, {}).get(a, 0) <= line and fresh.get(v, {}).get("__dict__") is None)
            used = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == v}
            if "decode" in used:  # reads its own parts again
                bad = [a for a in bad if a != "parts"]
            if bad:
                rep.add("answer-mutates-puzzle", f.qual, f"shallow copy {v}", f"the answer's {', '.join(bad)} are the request's own: writing this answer changes what the next answer starts from", (rel, line))


def nested(fn):
    """A function defined inside a function: its body still runs per request."""
    p = getattr(fn, "_parent", None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return True
        p = getattr(p, "_parent", None)
    return False


def long_lived(call):
    """Where an expression is evaluated once and kept (module level, class body, default argument, caching function); None when evaluated per call."""
    n, p = call, getattr(call, "_parent", None)
    while p is not None:
        if isinstance(p, ast.Lambda):
            if n is p.args or any(n is d for d in p.args.defaults):
                n, p = p, getattr(p, "_parent", None)
                continue
            return None
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n is p.args:
                if nested(p):
                    return None
                return f"a default argument of {p.name}"
            if n in p.decorator_list:
                n, p = p, getattr(p, "_parent", None)
                continue
            for d in p.decorator_list:
                t = d.func if isinstance(d, ast.Call) else d
                nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                if nm in CACHES:
                    return f"the cached function {p.name}"
            return None
        if isinstance(p, ast.ClassDef):
            if nested(p):
                return None
            return f"the body of class {p.name}"
        n, p = p, getattr(p, "_parent", None)
    return "module level"


def engine_classes(repo, eff):
    """Project classes that own an engine (a clingo Control), and how a module names one."""
    out = set()  # ids of ClassDef

    def makes(mod, call):
        c = call.func
        if isinstance(c, ast.Name):
            imp = repo.modules[mod].imports.get(c.id)
            if imp and imp[0] != "mod" and imp[1].split(".")[0] == "clingo" and imp[2] == "Control":
                return "Control"
            k, m, n = repo.resolve(mod, c.id)
            if k == "class" and any(id(cn) in out for _, cn in repo.mro(m, n) if isinstance(cn, ast.ClassDef)):
                return c.id
        elif isinstance(c, ast.Attribute) and c.attr == "Control":
            root = c.value
            while isinstance(root, ast.Attribute):
                root = root.value
            imp = repo.modules[mod].imports.get(getattr(root, "id", ""))
            if imp and imp[1].split(".")[0] == "clingo":
                return "Control"
        elif isinstance(c, ast.Attribute):
            for mn, cn in eff.classes.get(c.attr, []):
                if id(cn) in out:
                    return c.attr
        return None

    for _ in range(3):
        for mn, m in repo.modules.items():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    for f in n.body:
                        if isinstance(f, ast.FunctionDef) and f.name in ("__init__", "__new__", "__post_init__") and any(isinstance(x, ast.Call) and makes(mn, x) for x in ast.walk(f)):
                            out.add(id(n))
    return makes


def engine_shared(repo, eff, rep):
    makes = engine_classes(repo, eff)
    n = 0
    for mn, m in repo.modules.items():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call):
                k = makes(mn, c)
                if k is None:
                    continue
                n += 1
                at = long_lived(c)
                if at is not None:
                    rep.add("engine-shared", mn, k, f"{ast.unparse(c)[:60]} at {at}: one engine for all requests, so a request's program is added to those of the requests before it", (m.rel, c.lineno))
    rep.count("engine constructions", n)


AMBIENT_MODULES = {"random": None, "secrets": None, "uuid": None, "time": {"time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns", "process_time", "localtime", "gmtime", "strftime", "ctime"},
                   "os": {"urandom", "getenv", "environ", "getpid", "times", "getloadavg", "cpu_count"}, "datetime": {"now", "today", "utcnow"}, "threading": {"get_ident", "active_count"},
                   "sys": {"argv"}, "gc": None, "psutil": None, "socket": None, "platform": None}
QUIET = {"debug", "info", "warning", "error", "exception", "critical", "log", "print"}


def ambient_source(mod, n):
    """What an expression reads besides its inputs: the clock, a random generator, the environment, addresses of objects."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash", "input") and n.func.id not in mod.defs and n.func.id not in mod.imports:
        return f"{n.func.id}()"
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
        imp = mod.imports.get(n.id)
        if imp and imp[0] != "mod" and imp[1] in AMBIENT_MODULES:
            names = AMBIENT_MODULES[imp[1]]
            if names is None or imp[2] in names:
                return f"{imp[1]}.{imp[2]}"
    if isinstance(n, ast.Attribute):
        root = n.value
        first = n.attr
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name):
            imp = mod.imports.get(root.id)
            if imp and imp[1] in AMBIENT_MODULES and isinstance(n.ctx, ast.Load):
                names = AMBIENT_MODULES[imp[1]]
                if names is None or first in names:
                    return f"{imp[1]}.{first}"
    return None


def quiet(n, fn, clock):
    """The value read at n only reaches a log line, or (a clock) a test that logs or raises."""
    p, c = getattr(n, "_parent", None), n
    while p is not None and p is not fn:
        if isinstance(p, ast.Call) and c is not p.func:
            nm = p.func.id if isinstance(p.func, ast.Name) else getattr(p.func, "attr", "")
            if nm in QUIET:
                return True
        if isinstance(p, (ast.Assign, ast.AnnAssign)) and c is p.value:
            t = p.targets if isinstance(p, ast.Assign) else [p.target]
            if all(isinstance(x, ast.Name) for x in t):
                names = {x.id for x in t}
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names]
                return all(quiet(u, fn, clock) for u in uses if not inside(u, p))
            return False
        if clock and isinstance(p, (ast.If, ast.Assert)) and c is p.test:
            return isinstance(p, ast.Assert) or not p.orelse and all(isinstance(s, (ast.Raise, ast.Expr, ast.Pass)) for s in p.body)
        if isinstance(p, ast.Expr):
            return True
        if isinstance(p, ast.Return):
            return False
        c, p = p, getattr(p, "_parent", None)
    return False


def inside(n, anc):
    while n is not None:
        if n is anc:
            return True
        n = getattr(n, "_parent", None)
    return False


def ambient(repo, eff, reach, rep):
    """The request path reads nothing but the request (and the options): no clock, random generator, environment, object address."""
    n = 0
    for f in reach:
        if f.cls is None and f.node.name in ("load_solvers", "main"):
            continue
        mod = repo.modules[f.mod]
        if f.mod == "main" and f.node.name not in ENTRY:
            continue
        for x in ast.walk(f.node):
            src = ambient_source(mod, x)
            if src is None:
                continue
            n += 1
            clock = src.split(".")[0] in ("time", "datetime")
            if f.node.name == "__hash__" and src in ("hash()", "id()"):
                continue
            if not quiet(x, f.node, clock):
                rep.add("ambient", f.qual, src, f"{f.qual} uses {src}: the answer depends on something other than the request", (mod.rel, x.lineno))
    rep.count("ambient reads", n)


COLLS = ["surface", "text", "symbol", "edge", "line"]


def clear_complete(repo, rep):
    """Every collection that decoding fills must be emptied by clear()."""
    cls = None
    for mn, m in repo.modules.items():
        if "Puzzle" in m.defs and isinstance(m.defs["Puzzle"], ast.ClassDef) and mn.startswith("noqx.puzzle"):
            cls = (mn, m.defs["Puzzle"])
    if cls is None:
        raise AnalysisBroken("class Puzzle not found")
    mn, cn = cls
    done = set()
    clear = next((x for x in cn.body if isinstance(x, ast.FunctionDef) and x.name == "clear"), None)
    if clear is None:
        return
    todo, seen = [clear], set()
    while todo:
        f = todo.pop()
        seen.add(f.name)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute):
                done.add(n.attr)
                if n.attr not in seen:
                    todo += [x for x in cn.body if isinstance(x, ast.FunctionDef) and x.name == n.attr]
            if (isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("setattr", "getattr", "vars")) or (isinstance(n, ast.Attribute) and n.attr == "__dict__"):
                rep.unknown.append("Puzzle.clear works by attribute name")
                return
    filled = set()
    for mm in repo.modules.values():
        if not mm.rel.startswith("noqx/puzzle"):
            continue
        for n in ast.walk(mm.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and getattr(n.value.value, "id", "") == "self" and n.value.attr in COLLS:
                filled.add(n.value.attr)
    rep.count("collections filled by decoding", len(filled))
    for c in sorted(filled - done):
        rep.add("clear-incomplete", f"{mn}.Puzzle.clear", c, f"clear() leaves {c} as decoded, so clues or the previous answer reappear as answer elements", (repo.modules[mn].rel, clear.lineno))


def check(repo, rep, tier):
    effects(repo, rep)
    clear_complete(repo, rep)
    per_solver(repo, solver, rep)
