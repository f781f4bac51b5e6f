"""Constant propagation over the start-up script: which files it writes and copies in deployment mode.

Loops over known lists are unrolled, project functions are expanded at their call sites, and conditions are folded; whatever cannot be
folded is UNKNOWN and both branches of an unknown condition are taken (their effects are marked as possible only).
"""
import ast
import os
import posixpath

from .server import call_name


class _U:
    def __repr__(self):
        return "?"

    def __bool__(self):
        raise TypeError("unknown truth value")


UNKNOWN = _U()


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Handle:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode


class PathV(str):
    """A pathlib path with known text."""


class Obj(dict):
    pass


class Effect:
    __slots__ = ("kind", "a", "b", "line", "maybe", "text")

    def __init__(self, kind, a, b, line, maybe, text=None):
        self.kind, self.a, self.b, self.line, self.maybe, self.text = kind, a, b, line, maybe, text

    def __repr__(self):
        return f"{self.kind}({self.a!r}, {self.b!r})@{self.line}"


def norm(p):
    return posixpath.normpath(p) if isinstance(p, str) else p


class Script:
    """mode: values of names ('__name__') and of attributes of the parsed arguments."""

    def __init__(self, repo, modname, name, args, fs=None):
        self.repo, self.mod = repo, modname
        self.m = repo.modules[modname]
        self.root = repo.root
        self.args = args
        self.env = {"__name__": name}
        self.effects = []
        self.files = dict(fs or {})  # written text by path
        self.maybe = 0
        self.protected = 0
        self.unknown = []
        self.depth = 0
        self.ended = False

    # ---- files
    def read(self, path):
        path = norm(path)
        if path in self.files:
            return self.files[path]
        p = os.path.join(self.root, path)
        if os.path.isfile(p):
            try:
                with open(p, encoding="utf-8", newline="") as f:
                    return f.read()
            except (OSError, UnicodeDecodeError):
                return UNKNOWN
        return UNKNOWN

    def listdir(self, path):
        path = norm(path)
        p = os.path.join(self.root, path)
        out = set()
        if os.path.isdir(p):
            out |= {x for x in os.listdir(p) if x != "__pycache__"}
        for f in self.files:
            if posixpath.dirname(f) == path:
                out.add(posixpath.basename(f))
        if not out:
            return UNKNOWN
        return sorted(out)

    def effect(self, kind, a, b, node, text=None):
        self.effects.append(Effect(kind, norm(a), norm(b) if isinstance(b, str) else b, node.lineno, bool(self.maybe), text))

    # ---- running
    def run(self):
        try:
            self.block(self.m.tree.body)
        except Stop:
            self.ended = True
        except Ret:
            pass
        return self

    def block(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)):
            return
        if isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.bind(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            a, b = self.ev(st.target), self.ev(st.value)
            self.bind(st.target, self.binop(st.op, a, b))
        elif isinstance(st, ast.If):
            c = self.truth(self.ev(st.test))
            if c is True:
                self.block(st.body)
            elif c is False:
                self.block(st.orelse)
            else:
                self.maybe += 1
                for b in (st.body, st.orelse):
                    try:
                        self.block(b)
                    except Stop:
                        pass
                self.maybe -= 1
        elif isinstance(st, ast.For):
            it = self.ev(st.iter)
            if isinstance(it, dict):
                it = list(it)
            if isinstance(it, (list, tuple, str)):
                for x in list(it):
                    self.bind(st.target, x)
                    try:
                        self.block(st.body)
                    except Brk as b:
                        if b.kind == "break":
                            break
            else:
                self.unknown.append(f"line {st.lineno}: loop over an unknown list")
                self.bind(st.target, UNKNOWN)
                self.maybe += 1
                try:
                    self.block(st.body)
                except (Brk, Stop):
                    pass
                self.maybe -= 1
        elif isinstance(st, ast.While):
            self.maybe += 1
            try:
                self.block(st.body)
            except (Brk, Stop):
                pass
            self.maybe -= 1
        elif isinstance(st, ast.With):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.protected += 1
            try:
                self.block(st.body)
                self.block(st.orelse)
            finally:
                self.protected -= 1
                self.block(st.finalbody)
        elif isinstance(st, ast.Return):
            raise Ret(self.ev(st.value) if st.value is not None else None)
        elif isinstance(st, ast.Break):
            raise Brk("break")
        elif isinstance(st, ast.Continue):
            raise Brk("continue")
        elif isinstance(st, ast.Raise):
            if not self.protected:
                self.effect("exit", None, None, st)
            raise Stop()
        elif isinstance(st, ast.Delete):
            pass

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v if not self.maybe or t.id not in self.env or self.same(self.env[t.id], v) else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v) if isinstance(v, (list, tuple)) and len(v) == len(t.elts) else [UNKNOWN] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.bind(x, y)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            if isinstance(o, dict) and not isinstance(k, _U):
                try:
                    o[k] = v
                except TypeError:
                    pass
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)

    def same(self, a, b):
        return a is b or (not isinstance(a, _U) and not isinstance(b, _U) and a == b)

    def truth(self, v):
        if isinstance(v, _U):
            return None
        return bool(v)

    def binop(self, op, a, b):
        if isinstance(a, _U) or isinstance(b, _U):
            return UNKNOWN
        try:
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Div) and isinstance(a, (PathV, str)) and isinstance(b, str):
                return PathV(posixpath.join(a, b))
            if isinstance(op, ast.Mod) and isinstance(a, str):
                return a % b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.Sub):
                return a - b
        except Exception:
            pass
        return UNKNOWN

    def ev(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return {"True": True, "False": False, "None": None}.get(e.id, UNKNOWN)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                if isinstance(x, ast.Starred):
                    if isinstance(v, (list, tuple)):
                        out += list(v)
                    else:
                        return UNKNOWN
                else:
                    out.append(v)
            return out if isinstance(e, ast.List) else tuple(out)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                vv = self.ev(v)
                if k is None:
                    if isinstance(vv, dict):
                        d.update(vv)
                    continue
                kk = self.ev(k)
                if not isinstance(kk, _U):
                    try:
                        d[kk] = vv
                    except TypeError:
                        pass
            return d
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                v = self.ev(p.value) if isinstance(p, ast.FormattedValue) else p.value
                if isinstance(v, _U) or not isinstance(v, (str, int)):
                    out = UNKNOWN
                    # still evaluate the rest for effects
                elif not isinstance(out, _U):
                    out += str(v)
            return out
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left), self.ev(e.right))
        if isinstance(e, ast.BoolOp):
            vals = [self.ev(v) for v in e.values]
            ts = [self.truth(v) for v in vals]
            if isinstance(e.op, ast.And):
                return False if False in ts else (vals[-1] if all(t is True for t in ts) else UNKNOWN)
            return next((v for v, t in zip(vals, ts) if t is True), UNKNOWN if None in ts else vals[-1])
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                t = self.truth(v)
                return UNKNOWN if t is None else not t
            return UNKNOWN
        if isinstance(e, ast.Compare):
            l = self.ev(e.left)
            res = True
            for op, c in zip(e.ops, e.comparators):
                r = self.ev(c)
                v = self.compare(op, l, r)
                if v is None:
                    res = None
                elif v is False:
                    return False
                l = r
            return UNKNOWN if res is None else True
        if isinstance(e, ast.IfExp):
            t = self.truth(self.ev(e.test))
            if t is None:
                self.ev(e.body), self.ev(e.orelse)
                return UNKNOWN
            return self.ev(e.body if t else e.orelse)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                lo = self.ev(e.slice.lower) if e.slice.lower else None
                hi = self.ev(e.slice.upper) if e.slice.upper else None
                if isinstance(o, (str, list, tuple)) and not isinstance(lo, _U) and not isinstance(hi, _U):
                    return o[lo:hi]
                return UNKNOWN
            k = self.ev(e.slice)
            try:
                return o[k] if not isinstance(o, _U) and not isinstance(k, _U) else UNKNOWN
            except Exception:
                return UNKNOWN
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value)
            if isinstance(o, Obj):
                return o.get(e.attr, UNKNOWN)
            if isinstance(o, PathV):
                return {"name": posixpath.basename(o), "stem": posixpath.splitext(posixpath.basename(o))[0], "suffix": posixpath.splitext(o)[1], "parent": PathV(posixpath.dirname(o))}.get(e.attr, UNKNOWN)
            return UNKNOWN
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, ast.Await):
            return self.ev(e.value)
        return UNKNOWN

    def compare(self, op, l, r):
        if isinstance(l, _U) or isinstance(r, _U):
            return None
        try:
            if isinstance(op, ast.Eq):
                return l == r
            if isinstance(op, ast.NotEq):
                return l != r
            if isinstance(op, ast.In):
                return None if any(isinstance(x, _U) for x in r) else l in r
            if isinstance(op, ast.NotIn):
                return None if any(isinstance(x, _U) for x in r) else l not in r
            if isinstance(op, ast.Is):
                return l is r
            if isinstance(op, ast.IsNot):
                return l is not r
        except Exception:
            pass
        return None

    def comp(self, e):
        out = []
        ok = [True]

        def go(i):
            if i == len(e.generators):
                out.append((self.ev(e.key), self.ev(e.value)) if isinstance(e, ast.DictComp) else self.ev(e.elt))
                return
            g = e.generators[i]
            it = self.ev(g.iter)
            if isinstance(it, dict):
                it = list(it)
            if not isinstance(it, (list, tuple, str)):
                ok[0] = False
                return
            for x in list(it):
                self.bind(g.target, x)
                ts = [self.truth(self.ev(c)) for c in g.ifs]
                if None in ts:
                    ok[0] = False
                elif all(ts):
                    go(i + 1)

        go(0)
        if not ok[0]:
            return UNKNOWN
        return dict(out) if isinstance(e, ast.DictComp) else out

    def call(self, e):
        f = e.func
        nm = call_name(e)
        args = []
        for a in e.args:
            v = self.ev(a.value if isinstance(a, ast.Starred) else a)
            if isinstance(a, ast.Starred):
                args += list(v) if isinstance(v, (list, tuple)) else [UNKNOWN]
            else:
                args.append(v)
        kw = {k.arg: self.ev(k.value) for k in e.keywords if k.arg}
        # project functions are expanded
        if isinstance(f, ast.Name):
            d = self.m.defs.get(f.id)
            if isinstance(d, ast.FunctionDef) and self.depth < 8:
                return self.inline(d, args, kw)
        txt = ast.unparse(f)
        if nm == "parse_args" or nm == "parse_known_args":
            return Obj(self.args)
        if txt in ("sys.exit", "exit", "quit", "os._exit"):
            if not self.protected:
                self.effect("exit", None, None, e)
            if not self.maybe:
                raise Stop()
            return None
        if txt in ("os.listdir", "listdir", "os.scandir"):
            return self.listdir(args[0]) if args and isinstance(args[0], str) else UNKNOWN
        if nm == "sorted" and args and isinstance(args[0], (list, tuple)):
            try:
                return sorted(args[0])
            except TypeError:
                return list(args[0])
        if nm in ("list", "tuple", "set") and isinstance(f, ast.Name):
            return list(args[0]) if args and isinstance(args[0], (list, tuple, dict)) else [] if not args else UNKNOWN
        if nm == "dict" and isinstance(f, ast.Name):
            return dict(kw)
        if nm == "str" and args:
            return str(args[0]) if isinstance(args[0], (str, int)) else UNKNOWN
        if nm == "open":
            path = args[0] if args and isinstance(f, ast.Name) else self.ev(f.value) if isinstance(f, ast.Attribute) else UNKNOWN
            mode = (args[1] if isinstance(f, ast.Name) and len(args) > 1 else args[0] if isinstance(f, ast.Attribute) and args else kw.get("mode", "r"))
            return Handle(path, mode) if isinstance(path, str) and isinstance(mode, str) else UNKNOWN
        if txt in ("os.path.join", "path.join", "join") and args and all(isinstance(a, str) for a in args):
            return posixpath.join(*args)
        if txt in ("os.path.basename", "path.basename") and args and isinstance(args[0], str):
            return posixpath.basename(args[0])
        if txt in ("os.path.splitext",) and args and isinstance(args[0], str):
            return posixpath.splitext(args[0])
        if nm in ("Path", "PurePath", "PurePosixPath"):
            return PathV(posixpath.join(*args)) if args and all(isinstance(a, str) for a in args) else UNKNOWN
        if nm in ("copy", "copyfile", "copy2", "move") and txt.startswith("shutil") or (isinstance(f, ast.Name) and nm in ("copyfile", "copy2")):
            src, dst = (args + [kw.get("src"), kw.get("dst")])[:2] if len(args) < 2 else args[:2]
            if isinstance(src, str) and isinstance(dst, str):
                if norm(dst) in self.dirs():
                    dst = posixpath.join(dst, posixpath.basename(src))
                self.effect("copy", src, dst, e, self.read(src))
                if nm == "move":
                    self.effect("remove", src, None, e)
            else:
                self.effect("copy", src if isinstance(src, str) else None, dst if isinstance(dst, str) else None, e)
                self.unknown.append(f"line {e.lineno}: copy of an unknown file")
            return dst
        if nm == "copytree":
            src, dst = args[:2] if len(args) > 1 else (None, None)
            if isinstance(src, str) and isinstance(dst, str):
                ig = kw.get("ignore")
                if ig is not None:
                    self.unknown.append(f"line {e.lineno}: copytree with a filter")
                base = os.path.join(self.root, norm(src))
                for dp, dn, fn in os.walk(base):
                    dn[:] = [x for x in dn if x != "__pycache__"]
                    for x in fn:
                        rel = os.path.relpath(os.path.join(dp, x), base)
                        self.effect("copy", posixpath.join(src, rel), posixpath.join(dst, rel), e)
                self.effect("mkdir", dst, None, e)
            return dst
        if nm in ("makedirs", "mkdir"):
            p = args[0] if args and isinstance(args[0], str) and not (isinstance(f, ast.Attribute) and isinstance(self.ev(f.value), PathV)) else self.ev(f.value) if isinstance(f, ast.Attribute) else None
            if isinstance(p, str):
                self.effect("mkdir", p, None, e)
            return None
        if nm == "rmtree" and args and isinstance(args[0], str):
            self.effect("rmtree", args[0], None, e)
            return None
        if nm == "dumps":
            return ("json", frozen(args[0])) if args else UNKNOWN
        if nm == "dump" and len(args) > 1 and isinstance(args[1], Handle):
            args[0] = frozen(args[0])
            self.effect("write", args[1].path, None, e, ("json", args[0]))
            self.files[norm(args[1].path)] = ("json", args[0])
            return None
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value)
            if isinstance(o, Handle):
                if nm in ("read", "readlines"):
                    return self.read(o.path) if nm == "read" else UNKNOWN
                if nm in ("write", "writelines"):
                    self.write(o.path, args[0] if args else UNKNOWN, e)
                    return None
                return UNKNOWN
            if isinstance(o, PathV):
                if nm == "read_text":
                    return self.read(o)
                if nm == "write_text":
                    self.write(o, args[0] if args else UNKNOWN, e)
                    return None
                if nm in ("iterdir", "glob", "rglob"):
                    l = self.listdir(o)
                    if isinstance(l, _U):
                        return UNKNOWN
                    if nm != "iterdir":
                        import fnmatch
                        l = [x for x in l if args and isinstance(args[0], str) and fnmatch.fnmatch(x, args[0])]
                    return [PathV(posixpath.join(o, x)) for x in l]
                if nm == "joinpath":
                    return PathV(posixpath.join(o, *args)) if all(isinstance(a, str) for a in args) else UNKNOWN
                if nm in ("as_posix", "__str__"):
                    return str(o)
            if isinstance(o, str) and nm in ("replace", "startswith", "endswith", "strip", "split", "join", "lower", "upper", "format", "lstrip", "rstrip", "removesuffix", "removeprefix"):
                if any(isinstance(a, _U) for a in args):
                    return UNKNOWN
                try:
                    return getattr(str(o), nm)(*args, **kw)
                except Exception:
                    return UNKNOWN
            if isinstance(o, list) and nm in ("append", "extend", "remove"):
                if nm == "append":
                    o.append(args[0])
                elif nm == "extend" and isinstance(args[0], (list, tuple)):
                    o.extend(args[0])
                elif nm == "remove" and args[0] in o:
                    o.remove(args[0])
                return None
            if isinstance(o, dict) and not isinstance(o, Obj):
                if nm == "update" and args and isinstance(args[0], dict):
                    o.update(args[0])
                    return None
                if nm == "items":
                    return list(o.items())
                if nm == "keys":
                    return list(o)
                if nm == "values":
                    return list(o.values())
                if nm == "get":
                    return o.get(args[0], args[1] if len(args) > 1 else None) if args and not isinstance(args[0], _U) else UNKNOWN
                if nm == "setdefault" and len(args) > 1 and not isinstance(args[0], _U):
                    return o.setdefault(args[0], args[1])
        if nm == "sub" and txt in ("re.sub",) and len(args) >= 3:
            import re
            if all(isinstance(a, str) for a in args[:3]):
                try:
                    return re.sub(args[0], args[1], args[2])
                except Exception:
                    return UNKNOWN
            return UNKNOWN
        return UNKNOWN

    def dirs(self):
        d = {e.a for e in self.effects if e.kind == "mkdir"}
        for x in list(d):
            while "/" in x:
                x = posixpath.dirname(x)
                d.add(x)
        return d

    def write(self, path, text, node):
        self.effect("write", path, None, node, text)
        if isinstance(path, str):
            self.files[norm(path)] = text

    def inline(self, d, args, kw):
        ps = [a.arg for a in d.args.args]
        saved = self.env
        env = dict(saved)
        dfl = d.args.defaults
        for p, v in zip(ps[len(ps) - len(dfl):], dfl):
            env[p] = self.ev(v)
        for p, a in zip(ps, args):
            env[p] = a
        env.update({k: v for k, v in kw.items() if k in ps + [a.arg for a in d.args.kwonlyargs]})
        self.env = env
        self.depth += 1
        try:
            self.block(d.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.env = saved


def frozen(v):
    """The value as it is now: later changes of the same object do not reach what was written."""
    if isinstance(v, dict):
        return type(v)((k, frozen(x)) for k, x in v.items())
    if isinstance(v, list):
        return [frozen(x) for x in v]
    return v


class Brk(Exception):
    def __init__(self, kind):
        self.kind = kind
