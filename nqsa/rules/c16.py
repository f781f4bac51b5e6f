"""C16: the browser deployment ships everything the shipped code needs."""
import ast
import os
import posixpath
import re
import sys

from ..loader import AnalysisBroken
from ..script import UNKNOWN, Script

EXPLANATION = (
    "The start-up script is evaluated by constant propagation in deployment mode (loops over known lists unrolled, helpers expanded, directory listings "
    "taken from the source tree), which yields the files copied, the file map written for the browser and the successive contents of the flag file. "
    "The import graph of every shipped module (imports at any depth, except under TYPE_CHECKING or guarded by ImportError) is then closed against "
    "that set; external imports must be part of the browser's Python. The flag must read true when the front end is copied and false afterwards."
)
RULES = ["module-not-shipped", "not-in-file-map", "unavailable-import", "file-not-shipped", "flag-not-on", "flag-left-on", "missing-directory", "map-target", "written-after-copy", "read-at-runtime"]

ABSENT = {"_curses", "curses", "dbm", "grp", "idlelib", "lib2to3", "msvcrt", "nis", "ossaudiodev", "pwd", "readline", "resource", "spwd", "syslog", "termios", "tkinter", "turtle",
          "turtledemo", "venv", "ensurepip", "winreg", "winsound", "ssl", "sqlite3", "lzma", "test", "distutils", "fcntl", "pty", "tty", "_winapi", "nt"}
BROWSER = {"pyscript", "js", "pyodide", "pyodide_js", "micropip", "polyscript", "_pyodide"}
FLAG = "penpa-edit/prepare_deployment.js"
FLAG_RE = re.compile(r"\bENABLE_DEPLOYMENT\s*=\s*(true|false)")


def guarded(n):
    """Under TYPE_CHECKING, or an import whose failure is caught."""
    p, prev = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, ast.If) and "TYPE_CHECKING" in ast.unparse(p.test) and prev in p.body:
            return True
        if isinstance(p, ast.Try) and prev in p.body:
            for h in p.handlers:
                if h.type is None or any(x in ast.unparse(h.type) for x in ("ImportError", "ModuleNotFoundError", "Exception")):
                    return True
        prev, p = p, getattr(p, "_parent", None)
    return False


def imports(mod, is_pkg):
    """[(absolute module name, attribute or None, node)]"""
    out = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out.append((a.name, None, n))
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = mod.name.split(".")
                parts = parts[: len(parts) - n.level + (1 if is_pkg else 0)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                out.append((base, a.name, n))
        elif isinstance(n, ast.Call) and (getattr(n.func, "id", "") == "__import__" or getattr(n.func, "attr", "") == "import_module") and n.args and isinstance(n.args[0], ast.Constant):
            out.append((n.args[0].value, None, n))
    return out


def flag_of(text):
    if not isinstance(text, str):
        return None
    m = FLAG_RE.findall(text)
    return m[-1] if m else None


def check(repo, rep, tier):
    if "main" not in repo.modules or "main_deploy" not in repo.modules:
        raise AnalysisBroken("main.py or main_deploy.py not found")
    main = repo.modules["main"]
    start = Script(repo, "main", "x", {}).read(FLAG)
    if flag_of(start) is None:
        raise AnalysisBroken("the deployment flag was not found in prepare_deployment.js")
    s = Script(repo, "main", "__main__", {"enable_deployment": True, "debug": False, "time_limit": 30, "parallel_threads": 1, "host": "", "port": 8000}).run()
    eff = s.effects
    copies = [e for e in eff if e.kind == "copy"]
    rep.count("file effects", len(eff))
    rep.count("copies", len(copies))
    if s.unknown:
        rep.unknown += [f"main.py {u}" for u in s.unknown]
    if len(copies) < 5:
        if s.unknown:
            raise AnalysisBroken(f"the deployment steps could not be followed: {s.unknown[:3]}")
        raise AnalysisBroken("no deployment copies found in main.py")
    complete = not s.unknown
    # where the page lives: the directory main_deploy.py / index.html are copied to
    dst = {e.b: e.a for e in copies if isinstance(e.b, str)}
    page = None
    for b, a in dst.items():
        if a == "penpa-edit/index.html":
            page = posixpath.dirname(b)
    if page is None:
        page = next((posixpath.dirname(b) for b, a in dst.items() if a == "main_deploy.py"), None)
    if page is None:
        raise AnalysisBroken("the deployed page was not found among the copies")
    rep.sample(f"deployed page directory: {page}")
    # directories must exist
    made = s.dirs()
    for e in copies:
        if isinstance(e.b, str) and complete:
            d = posixpath.dirname(e.b)
            if d not in made and not any(x.kind == "copy" and x.b and x.line < e.line and posixpath.dirname(x.b) == d and d in made for x in eff):
                rep.add("missing-directory", "main", d, f"files are copied into {d}, which is not created first", (main.rel, e.line))
    for i, e in enumerate(eff):
        if e.kind == "rmtree":
            for x in eff[:i]:
                if x.kind in ("copy", "mkdir") and str(x.b or x.a).startswith(str(e.a)):
                    rep.add("missing-directory", "main", f"rmtree {e.a}", "the deployment directory is removed after it has been filled", (main.rel, e.line))
                    break
    # the file map
    fmap = None
    cfg = None
    for e in eff:
        if e.kind == "write" and isinstance(e.a, str) and e.a.endswith(".json") and isinstance(e.text, tuple) and e.text[0] == "json" and isinstance(e.text[1], dict) and "files" in e.text[1]:
            fmap, cfg = e.text[1]["files"], e
    if cfg is None:
        raise AnalysisBroken("the browser's file map (pyscript.json) was not found")
    rep.count("file map entries", len(fmap) if isinstance(fmap, dict) else 0)
    conf_dst = [b for b, a in dst.items() if a == cfg.a]
    first_copy = [e for e in copies if e.a == cfg.a]
    if not conf_dst:
        rep.add("file-not-shipped", "main", cfg.a, f"{cfg.a} is written but not copied next to the page", (main.rel, cfg.line))
    elif first_copy and eff.index(first_copy[0]) < eff.index(cfg):
        rep.add("written-after-copy", "main", cfg.a, f"{cfg.a} is copied before it is written, so a stale file map is shipped", (main.rel, first_copy[0].line))
    # shipped modules: present on the virtual file system of the browser
    vfs = {}
    for k, v in (fmap.items() if isinstance(fmap, dict) else []):
        if not isinstance(k, str) or not isinstance(v, str):
            continue
        src = posixpath.normpath(posixpath.join(page, k))
        target = posixpath.normpath(v)
        if src not in dst:
            rep.add("file-not-shipped", "main", k, f"the file map names {k}, which is not copied", (main.rel, cfg.line))
            continue
        origin = dst[src]
        vfs[target] = origin
        if origin != target and origin.endswith(".py"):
            rep.add("map-target", "main", v, f"{origin} is placed at {v}, where importing it fails", (main.rel, cfg.line))
    shipped = {}
    rels = {m.rel: n for n, m in repo.modules.items()}
    for target, origin in vfs.items():
        if origin in rels:
            shipped[rels[origin]] = target
    # the entry
    entry = [b for b, a in dst.items() if a == "main_deploy.py"]
    jsrc = Script(repo, "main", "x", {}).read(FLAG)
    refs = re.findall(r"""(?:src\s*=\s*|setAttribute\(\s*["']config["']\s*,\s*)["'](\./[^"']+)["']""", jsrc) + re.findall(r"""["'](\./[\w.\-/]+\.(?:js|py|json))["']""", jsrc)
    for r in sorted(set(refs)):
        rep.count("front-end file references")
        if posixpath.normpath(posixpath.join(page, r)) not in dst:
            if complete:
                rep.add("file-not-shipped", "prepare_deployment.js", r, f"the deployed page loads {r}, which is not copied there", (FLAG, 1))
    if not entry:
        rep.add("file-not-shipped", "main", "main_deploy.py", "the browser's entry point is not copied", (main.rel, cfg.line))
    # index.html's own references
    with open(os.path.join(repo.root, "penpa-edit/index.html"), encoding="utf-8") as f:
        html = f.read()
    for r in re.findall(r"""(?:src|href)=["'](\./[^"'#?]+)["']""", html):
        rep.count("page references")
        p = posixpath.normpath(posixpath.join(page, r))
        if r.endswith("/") or p in dst or not complete:
            continue
        if not os.path.splitext(r)[1]:
            continue
        rep.add("file-not-shipped", "index.html", r, f"the deployed page refers to {r}, which is not copied", ("penpa-edit/index.html", 1))
    # import closure
    todo = ["main_deploy"] + sorted(shipped)
    done = set()
    std = set(sys.stdlib_module_names)
    while todo:
        mn = todo.pop(0)
        if mn in done or mn not in repo.modules:
            continue
        done.add(mn)
        m = repo.modules[mn]
        rep.count("shipped modules")
        for base, attr, n in imports(m, m.rel.endswith("__init__.py")):
            top = base.split(".")[0]
            g = guarded(n)
            is_project = os.path.isdir(os.path.join(repo.root, top)) and os.path.exists(os.path.join(repo.root, top)) and any(x == top or x.startswith(top + ".") for x in repo.modules) or os.path.exists(os.path.join(repo.root, top + ".py"))
            rep.count("imports")
            if is_project:
                need = []
                parts = base.split(".")
                for i in range(1, len(parts) + 1):
                    need.append(".".join(parts[:i]))
                if attr and f"{base}.{attr}" in repo.modules:
                    need.append(f"{base}.{attr}")
                for x in need:
                    if x in repo.modules:
                        if x not in shipped and x != "main_deploy" and not g:
                            why = "copied but missing from the file map" if any(a == repo.modules[x].rel for a in dst.values()) else "not shipped"
                            rule = "not-in-file-map" if "copied" in why else "module-not-shipped"
                            rep.add(rule, mn, x, f"{m.rel} imports {x}, which is {why}", (m.rel, n.lineno))
                        if x not in done:
                            todo.append(x) if x in shipped else None
                    elif not os.path.isdir(os.path.join(repo.root, x.replace(".", "/"))) and not g:
                        pass
            elif top in BROWSER or g:
                continue
            elif top == "__future__" or (top in std and top not in ABSENT):
                continue
            else:
                rep.add("unavailable-import", mn, base, f"{m.rel} imports {base}, which the browser's Python does not have", (m.rel, n.lineno))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "open":
                a = n.args[0] if n.args else None
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and posixpath.normpath(a.value) not in vfs:
                    rep.add("read-at-runtime", mn, a.value, f"{m.rel} opens {a.value}, which is not shipped", (m.rel, n.lineno))
    # the directory the browser looks for solvers in
    for n in ast.walk(repo.modules["main_deploy"].tree):
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) == "load_solvers":
            a = n.args[0] if n.args else n.keywords[0].value if n.keywords else None
            if isinstance(a, ast.Name):
                vals = [st.value for st in repo.modules["main_deploy"].tree.body if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in st.targets)]
                a = vals[0] if len(vals) == 1 else None
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                rep.count("solver directories")
                if not any(repo.modules[mn].rel.startswith(a.value + "/") for mn, _ in repo.solver_classes() if mn in shipped) and complete:
                    rep.add("module-not-shipped", "main_deploy", a.value, f"the browser loads its solvers from {a.value}, where none are shipped", ("main_deploy.py", n.lineno))
    # every solver is shipped
    for mn, _ in repo.solver_classes():
        if mn not in shipped and complete:
            rep.add("module-not-shipped", "main", mn, f"{repo.modules[mn].rel} is not shipped", (main.rel, cfg.line))
    # the flag
    cur = flag_of(start)
    copied_flag = None
    writes = [e for e in eff if e.kind == "write" and e.a == FLAG]
    rep.count("flag writes", len(writes))
    known = True
    for e in eff:
        if e.kind == "write" and e.a == FLAG:
            f = flag_of(e.text)
            if f is None:
                if isinstance(e.text, str):
                    rep.add("flag-left-on", "main", "flag", "the flag file is overwritten with something that has no flag", (main.rel, e.line))
                else:
                    known = False
                    rep.unknown.append(f"main.py line {e.line}: content written to the flag file is unknown")
            cur = f or cur
        elif e.kind == "exit" and cur == "true" and e is not eff[-1]:
            rep.add("flag-left-on", "main", "early exit", "the deployment can end here, after the flag of the development copy has been switched on and before it is switched off again", (main.rel, e.line))
        elif e.kind == "copy" and e.a == FLAG:
            copied_flag = (flag_of(e.text) if isinstance(e.text, str) else cur, e)
    # a flag changed in the copy itself
    for e in eff:
        if e.kind == "write" and copied_flag and e.a == copied_flag[1].b:
            copied_flag = (flag_of(e.text), copied_flag[1])
    if known:
        if copied_flag is None:
            rep.add("file-not-shipped", "main", FLAG, "the flag file is not shipped", (main.rel, cfg.line))
        elif copied_flag[0] == "false":
            rep.add("flag-not-on", "main", "shipped copy", "the shipped copy still has the deployment flag switched off", (main.rel, copied_flag[1].line))
        later = []
        for e in writes:
            later = [] if flag_of(e.text) == "true" and not e.maybe else later + [e]
        if cur == "false" and len(later) == 1 and later[0].maybe and flag_of(later[0].text) == "false" and any(flag_of(e.text) == "true" for e in writes):
            rep.add("flag-left-on", "main", "development copy, condition", "the flag of the development copy is switched off again only under a condition that need not hold", (main.rel, later[0].line))
        if cur == "true":
            rep.add("flag-left-on", "main", "development copy", "after a deployment the development copy still has the flag switched on", (main.rel, writes[-1].line if writes else 1))
    # starting the server resets a flag left on
    s2 = Script(repo, "main", "main", {"enable_deployment": False, "debug": False, "time_limit": 30, "parallel_threads": 1, "host": "", "port": 8000}, fs={FLAG: start.replace("ENABLE_DEPLOYMENT = false", "ENABLE_DEPLOYMENT = true")}).run()
    f2 = flag_of(s2.read(FLAG))
    if f2 == "true" and not [u for u in s2.unknown]:
        rep.add("flag-left-on", "main", "server start", "starting the development server does not switch off a flag that an aborted deployment left on", (main.rel, 1))
    if flag_of(start) != "false":
        rep.add("flag-left-on", FLAG, "committed", "the committed development copy has the flag switched on", (FLAG, 1))
    if not s.ended and complete:
        rep.count("deployment falls through to the server", 1)
    # users of the flag agree on its name
    for f in ("penpa-edit/app.js",):
        with open(os.path.join(repo.root, f), encoding="utf-8") as h:
            if "ENABLE_DEPLOYMENT" not in h.read():
                rep.add("flag-not-on", f, "ENABLE_DEPLOYMENT", "the front end does not look at the deployment flag", (f, 1))
