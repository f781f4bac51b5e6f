"""C17: every puzzle type is registered once with complete, consistent metadata."""
import os

from ..clues import PUZZLE, ClueInterp, seen_f, seen_nodes
from ..domain import ClassV, Const, Sym, V, walk
from ..framework import per_solver
from ..js import Js
from ..linear import infeasible
from ..loader import AnalysisBroken
from ..prog import program
from ..registry import MANAGER, Unknown, build
from ..state import Content, PathDead, State
from ..types_ import typ

EXPLANATION = (
    "The manager's loading and listing functions are interpreted on the modules found in solver/, which yields the registry and the very metadata the front "
    "end receives; names, categories, aliases and examples are checked on it against the front end's own tables. Each solver is interpreted on an arbitrary "
    "board to find the parameters it reads and those that reach the program, and again for every value the front end can send for a declared parameter "
    "(its default, each option, the configuration of each example) to see that some board is accepted."
)
RULES = ["not-registered", "registered-twice", "registry-key", "metadata-mismatch", "missing-metadata", "unknown-category", "ambiguous-alias", "ambiguous-name", "example-malformed", "undeclared-parameter",
         "parameter-never-read", "parameter-without-effect", "parameter-kind", "default-refused", "example-config", "unknown-type-name"]

APP = "penpa-edit/app.js"
KINDS = {"number", "checkbox", "select", "text"}
KEYS = ("name", "category", "aliases", "examples", "parameters")
BASE = {"name": "Unknown", "category": "unk"}


# ------------------------------------------------------------------ the front end's tables
def categories(js):
    """Keys of the table of category labels."""
    best = None
    for i, (k, t, _) in enumerate(js.toks):
        if k == "op" and t == "{" and i and js.toks[i - 1][1] in ("=", "(", ","):
            try:
                ks = js.keys(i)
            except AnalysisBroken:
                continue
            if {"shade", "loop"} <= set(ks):
                best = ks
    if best is None:
        raise AnalysisBroken(f"{js.rel}: no table of categories")
    return set(best)


def own(cls, name):
    """The class sets this attribute itself (rather than inheriting the placeholder of the base class)."""
    return cls is not None and name in cls


# ------------------------------------------------------------------ registry and metadata
def registry(repo, rep):
    mgr = (repo.modules[MANAGER].rel, 1) if MANAGER in repo.modules else None
    if mgr is None:
        raise AnalysisBroken("noqx.manager not found")
    try:
        reg = build(repo)
    except PathDead:
        rep.add("registered-twice", "load_solvers", "the list of solvers", "loading the solvers always ends in an exception", mgr)
        return None
    except RecursionError:
        raise
    except Exception as e:
        raise AnalysisBroken(f"the registry could not be interpreted: {type(e).__name__}: {str(e)[:200]}")
    if not reg.types:
        raise AnalysisBroken("the registry is filled in a way the analysis does not follow")
    files = sorted(m for m in repo.modules if m.startswith("solver.") and m.count(".") == 1)
    by_mod = {}
    for k, cls in reg.types.items():
        if cls is None:
            rep.unknown.append(f"registry entry {k}")
            continue
        by_mod.setdefault(cls.mod, []).append((k, cls))
    for m in files:
        rep.count("modules")
        got = by_mod.get(m, [])
        loc = (repo.modules[m].rel, 1)
        if not got and not reg.odd:
            rep.add("not-registered", m, "no puzzle type", "loading this solver module registers no puzzle type, so its puzzles cannot be chosen", loc)
        if len(got) > 1:
            rep.add("registered-twice", m, ", ".join(sorted(c.name for _, c in got)), "this solver module registers more than one puzzle type", loc)
        for k, cls in got:
            if k != m.split(".")[-1].lower():
                rep.add("registry-key", m, str(k), f"the puzzle type of {m} is registered as {k!r}, not under the name of its module", loc)
    return reg


def metadata(repo, reg, rep, js):
    mgr = (repo.modules[MANAGER].rel, 1)
    md = reg.metadata
    if md is Unknown or not isinstance(md, dict):
        raise AnalysisBroken("the published metadata could not be interpreted")
    cats = categories(js)
    front = front_keys(js)
    for key in sorted(front):
        rep.count("metadata keys the front end reads")
        miss = [t for t, v in md.items() if isinstance(v, dict) and key not in v]
        if miss:
            rep.add("metadata-mismatch", "list_solver_metadata", key, f"the front end reads {key!r} of a puzzle type, which the published metadata lacks ({len(miss)} types)", mgr)
    for t in reg.types:
        if t not in md:
            rep.add("metadata-mismatch", "list_solver_metadata", str(t), f"puzzle type {t} is registered but not listed", mgr)
    names, ali = {}, {}
    for t, v in sorted(md.items(), key=lambda x: str(x[0])):
        cls = reg.types.get(t)
        if cls is None:
            if not reg.odd:
                rep.add("metadata-mismatch", "list_solver_metadata", str(t), f"{t!r} is listed but is no registered puzzle type", mgr)
            continue
        loc = (repo.modules[cls.mod].rel, cls.node.lineno)
        where = f"solver {t}"
        if not isinstance(v, dict):
            rep.unknown.append(f"{t}: metadata")
            continue
        rep.count("puzzle types")
        for key in KEYS:
            if key not in v:
                continue
            rep.count("obligations")
            r = reg.it.class_lookup(cls, key)
            if r is None or r[0] != "val":
                rep.unknown.append(f"{t}: {key}")
                continue
            from ..registry import plain
            want = plain(reg.it, reg.st, r[1])
            if want is not Unknown and v[key] is not Unknown and want != v[key]:
                rep.add("metadata-mismatch", "list_solver_metadata", key, f"the published {key!r} of a puzzle type is not its {key} (e.g. {t})", mgr)
        name, cat, al, ex = v.get("name"), v.get("category"), v.get("aliases"), v.get("examples")
        if name is not Unknown:
            if not isinstance(name, str) or not name.strip() or name == BASE["name"]:
                rep.add("missing-metadata", where, "name", f"puzzle type {t} has no name", loc)
            else:
                names.setdefault(name.strip().lower(), []).append((t, loc))
        if cat is not Unknown:
            if cat not in cats:
                rep.add("unknown-category", where, repr(cat), f"category {cat!r} of {t} is unknown to the front end ({', '.join(sorted(cats))}), which fails while building its menu", loc)
            elif cat == BASE["category"]:
                rep.add("missing-metadata", where, "category", f"puzzle type {t} has no category", loc)
        if al is not Unknown:
            if not isinstance(al, (list, tuple)) or not all(isinstance(a, str) and a.strip() for a in al):
                rep.add("missing-metadata", where, "aliases", f"aliases of {t} are not a list of words", loc)
            else:
                for a in al:
                    ali.setdefault(a.lower(), []).append((t, loc))
        if ex is not Unknown:
            examples(t, where, v, ex, rep, loc)
    for a, ts in sorted(ali.items()):
        rep.count("aliases")
        if len(ts) > 1:
            rep.add("ambiguous-alias", f"solver {ts[1][0]}", a, f"alias {a!r} is given to {', '.join(t for t, _ in ts)}", ts[1][1])
        for t, loc in ts:
            if a in md and a != t:
                rep.add("ambiguous-alias", f"solver {t}", a, f"alias {a!r} of {t} is the name of another puzzle type", loc)
    for n, ts in sorted(names.items()):
        if len(ts) > 1:
            rep.add("ambiguous-name", f"solver {ts[1][0]}", n, f"the name {n!r} is given to {', '.join(t for t, _ in ts)}", ts[1][1])
        for t, loc in ali.get(n, ()):
            if t not in {x for x, _ in ts}:
                rep.add("ambiguous-alias", f"solver {t}", n, f"alias {n!r} of {t} is the displayed name of {ts[0][0]}", loc)
    return md


def front_keys(js):
    """Properties of a puzzle type's metadata that the front end reads."""
    out = set()
    for i in js.find("solver_metadata", "["):
        e = js.close(i + 1)
        if e + 2 < len(js.toks) and js.toks[e + 1][1] == ".":
            out.add(js.toks[e + 2][1])
    for i in js.find("Object", ".", "entries", "(", "solver_metadata", ")"):
        b = i
        while b > 0 and js.toks[b][1] != "[":
            b -= 1
        names = [t for k, t, _ in js.toks[b:js.close(b)] if k == "id"]
        if len(names) == 2:
            v = names[1]
            for j in js.find(v, "."):
                if js.toks[j - 1][1] != "." and js.toks[j + 2][1] in KEYS:
                    out.add(js.toks[j + 2][1])
    return out


def examples(t, where, v, ex, rep, loc):
    if not isinstance(ex, (list, tuple)) or not ex:
        rep.add("missing-metadata", where, "examples", f"puzzle type {t} has no example", loc)
        return
    params = v.get("parameters")
    params = params if isinstance(params, dict) else {}
    for i, e in enumerate(ex, 1):
        rep.count("examples")
        if e is Unknown:
            continue
        if not isinstance(e, dict):
            rep.add("example-malformed", where, f"example {i}", f"example {i} of {t} is not a table", loc)
            continue
        src = [k for k in ("data", "url") if isinstance(e.get(k), str) and e[k].strip()]
        if not src:
            rep.add("example-malformed", where, f"example {i}", f"example {i} of {t} has neither data nor url", loc)
        for k in sorted(set(e) - {"config"}):
            if isinstance(e[k], dict):
                rep.add("example-malformed", where, f"example {i}", f"example {i} of {t} has its settings under {k!r}, which nothing reads", loc)
        cfg = e.get("config", {})
        if not isinstance(cfg, dict):
            rep.add("example-config", where, f"example {i}", f"the configuration of example {i} is not a table", loc)
            continue
        for k, x in cfg.items():
            rep.count("obligations")
            if k not in params:
                rep.add("example-config", where, f"example {i}: {k}", f"example {i} of {t} sets {k!r}, which is no declared parameter of it", loc)
            elif isinstance(params[k], dict) and not fits(params[k], x):
                rep.add("example-config", where, f"example {i}: {k}", f"example {i} of {t} sets {k!r} to {x!r}, which a parameter of kind {params[k].get('type')!r} cannot hold", loc)
        for k, p in params.items():
            if isinstance(p, dict) and p.get("type") == "select" and k not in cfg:
                rep.add("example-config", where, f"example {i}: {k}", f"example {i} of {t} does not choose {k!r}: the front end has no default to select", loc)


def fits(p, x):
    k = p.get("type")
    if x is Unknown:
        return True
    if k == "checkbox":
        return isinstance(x, bool)
    if k == "number":
        return not isinstance(x, bool) and (isinstance(x, int) and x >= 0 or isinstance(x, str) and (x == "" or x.isdigit()))
    if k == "text":
        return isinstance(x, str)
    if k == "select":
        return isinstance(p.get("default"), dict) and x in p["default"]
    return True


def kinds(t, where, params, rep, loc):
    for k, p in params.items():
        rep.count("parameters")
        if not isinstance(p, dict) or any(p.get(x) is Unknown for x in ("type", "default", "name")):
            if not isinstance(p, dict) and p is not Unknown:
                rep.add("parameter-kind", where, str(k), f"parameter {k!r} of {t} is not described by a table", loc)
            continue
        if not isinstance(p.get("name"), str) or not p["name"].strip():
            rep.add("parameter-kind", where, str(k), f"parameter {k!r} of {t} has no name to show", loc)
        if p.get("type") not in KINDS:
            rep.add("parameter-kind", where, str(k), f"parameter {k!r} of {t} has kind {p.get('type')!r}, which the front end does not draw", loc)
        elif "default" not in p:
            rep.add("parameter-kind", where, str(k), f"parameter {k!r} of {t} has no default", loc)
        elif p["type"] == "select":
            d = p["default"]
            if not isinstance(d, dict) or not d or not all(isinstance(x, str) and isinstance(y, str) for x, y in d.items()):
                rep.add("parameter-kind", where, str(k), f"the options of {k!r} of {t} are not a table of labels", loc)
        elif not fits(p, p["default"]):
            rep.add("parameter-kind", where, str(k), f"the default {p['default']!r} of {k!r} of {t} does not fit its kind {p['type']!r}", loc)


# ------------------------------------------------------------------ parameters in the solvers
def sent(p):
    """Values the front end sends for a parameter, the first being what it starts with."""
    d, k = p.get("default"), p.get("type")
    if k == "checkbox":
        return [bool(d), not d]
    if k == "select":
        return list(d) if isinstance(d, dict) else []
    if k == "number":
        return [str(d)]
    return [d if isinstance(d, str) else str(d)]


class ParamInterp(ClueInterp):
    """The request carries known parameters."""

    def __init__(self, repo, params):
        super().__init__(repo, {})
        self.given = {"param": params}


def accepted(repo, mod, cls, params):
    """Is some board accepted with these parameters? (None: not known)"""
    it = ParamInterp(repo, params)
    it.mod = mod
    it.frame_id_stack = ["top"]
    it.stack = [("<request>", (repo.modules[mod].rel, 0))]
    st = State()
    st.frames["top"] = {}
    it.objs["param"] = it.alloc(st, Content("dict", (), known=tuple((Const(k), Const(v)) for k, v in params.items())))
    cv = ClassV(cls.name, mod, cls)
    obj = it.alloc(st, Content("inst", (), {"program": Const("")}, cv, None))
    try:
        it.call_func(it.class_lookup(cv, "solve")[1], [obj, PUZZLE], {}, st, cls)
    except PathDead:
        return False
    r = infeasible(tuple(st.pc), typ)
    return None if r is None else not r


def reads(repo, res):
    """(parameters read, parameters that reach the program or the refinement, some read is not by a known name)."""
    it = res.interp
    got = dict(it.param_reads)
    rules, _ = program(res)
    used, names = set(), {Sym("param", k) for k in got}
    for x in rules:
        seen_nodes(x.nodes, names, used)
        for f in x.pc:
            seen_f(f, names, used)
    for f in res.state.pc:
        seen_f(f, names, used)
    for lp in it.loops.values():
        for part in (lp.source, lp.args):
            if isinstance(part, V):
                used |= {y for y in walk(part) if y in names}
    for e in it.events:  # what the program is checked for
        if e.kind in ("raise", "refuse"):
            for f in e.pc:
                seen_f(f, names, used)
    cv = ClassV(res.cls.name, res.mod, res.cls)
    r = it.class_lookup(cv, "refine")
    if r and r[0] == "func" and r[1].cls is not None and r[1].cls.mod == res.mod:
        before = set(it.param_reads)
        it.param_reads.clear()
        it.mod = res.mod
        st = State()
        st.frames["top"] = {}
        st.heap = dict(res.state.heap)
        try:
            it.call_func(r[1], [res.selfobj, PUZZLE], {}, st, res.cls)
        except PathDead:
            pass
        for k, loc in it.param_reads.items():
            got.setdefault(k, loc)
            if k not in before:
                used.add(Sym("param", k))
    odd = [k for k in got if not isinstance(k, str)] or whole(res)
    return got, used, bool(odd)


def whole(res):
    """The parameters are handed on or looped over as a whole."""
    want = Sym("attr", PUZZLE, "param")
    for lp in res.interp.loops.values():
        if isinstance(lp.source, V) and want in set(walk(lp.source)):
            return True
    return False


def solver(repo, res, rep):
    name = res.name
    reg = REG
    v = reg.metadata.get(next((t for t, c in reg.types.items() if c is not None and c.mod == res.mod), None))
    loc = (repo.modules[res.mod].rel, res.cls.lineno)
    where = f"solver {name}"
    params = v.get("parameters") if isinstance(v, dict) else None
    if not isinstance(params, dict):
        if isinstance(v, dict):
            rep.unknown.append(f"{name}: parameters")
        return
    kinds(name, where, params, rep, loc)
    got, used, odd = reads(repo, res)
    for k, at in got.items():
        rep.count("parameter reads")
        if isinstance(k, str) and k not in params:
            rep.add("undeclared-parameter", where, k, f"the solver reads parameter {k!r}, which {name} does not declare: the front end never sends it", at)
    for k in params:
        rep.count("obligations")
        if k not in got and not odd:
            rep.add("parameter-never-read", where, k, f"parameter {k!r} of {name} is offered to the user but never read", loc)
        elif k in got and Sym("param", k) not in used and not odd:
            rep.add("parameter-without-effect", where, k, f"parameter {k!r} of {name} is read but reaches neither the program nor a refusal", got[k])
    good = {k: p for k, p in params.items() if isinstance(p, dict) and p.get("type") in KINDS and sent(p)}
    if not params or len(good) != len(params):
        return
    base = {k: sent(p)[0] for k, p in good.items()}
    tries = [("the defaults", base)]
    for k, p in good.items():
        for x in sent(p)[1:]:
            tries.append((f"{k} = {x!r}", {**base, k: x}))
    for i, e in enumerate(v.get("examples") or (), 1):
        if isinstance(e, dict) and isinstance(e.get("config"), dict):
            cfg = {k: (x if isinstance(x, bool) else str(x)) for k, x in e["config"].items()}
            tries.append((f"the configuration of example {i}", {**base, **cfg}))
    for what, ps in tries:
        if set(ps) != set(params):
            continue
        rep.count("settings tried")
        try:
            ok = accepted(repo, res.mod, res.cls, ps)
        except RecursionError:
            raise
        except Exception as e:
            rep.unknown.append(f"{name}: {what}: {type(e).__name__}")
            continue
        if ok is False:
            rep.add("default-refused", where, what, f"with {what} every board of {name} is refused", loc)
        elif ok is None:
            rep.count("undecided settings")


def type_names(repo, reg, rep, js):
    """Puzzle types that code outside the solvers singles out exist."""
    import ast
    known = set(reg.types)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare):
                sides = [n.left] + n.comparators
                if any(isinstance(s, ast.Attribute) and s.attr == "puzzle_name" for s in sides):
                    for s in sides:
                        for c in ast.walk(s):
                            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                                rep.count("puzzle types named in the code")
                                if c.value not in known:
                                    rep.add("unknown-type-name", m.rel, c.value, f"{c.value!r} is compared with the puzzle type but is no registered type", (m.rel, n.lineno))
    for i in js.find("puzzleName"):
        if i + 2 < len(js.toks) and js.toks[i + 1][1] in ("===", "!==", "==", "!=") and js.toks[i + 2][0] == "str" and js.toks[i + 2][1]:
            rep.count("puzzle types named in the code")
            if js.toks[i + 2][1] not in known:
                rep.add("unknown-type-name", js.rel, js.toks[i + 2][1], f"{js.toks[i + 2][1]!r} is compared with the puzzle type but is no registered type", (js.rel, js.toks[i][2]))


REG = None


def check(repo, rep, tier):
    global REG
    js = Js(repo.root, APP)
    reg = registry(repo, rep)
    if reg is None:
        return
    metadata(repo, reg, rep, js)
    type_names(repo, reg, rep, js)
    REG = reg
    if not os.environ.get("NQSA_ONLY"):
        rep.sample({"puzzle types": len(reg.types), "first": sorted(map(str, reg.types))[:5]})
    per_solver(repo, solver, rep)
