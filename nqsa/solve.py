"""Abstract execution of a solver's program generation."""
import ast

from .domain import Const, Obj, Str, Sym
from .interp import Interp
from .state import Content, PathDead, State, Unsupported, as_nodes
from .domain import ClassV


class Result:
    __slots__ = ("name", "mod", "cls", "program", "events", "loops", "notes", "interp", "state", "selfobj", "initial", "line")


def stored_attrs(repo, modname, cls):
    """Instance attributes assigned anywhere but in initialisers: their value at the start of a request is whatever was left behind."""
    out = {"program"}
    for _, cn in repo.mro(modname, cls):
        if not isinstance(cn, ast.ClassDef):
            continue
        for m in cn.body:
            if not isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) or m.name == "__init__" or not m.args.args:
                continue
            me = m.args.args[0].arg
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
    return out


def run_solver(repo, modname, cls, opaque=None):
    it = Interp(repo, opaque)
    it.mod = modname
    it.frame_id_stack = ["top"]
    it.stack = [("<request>", (repo.modules[modname].rel, 0))]
    st = State()
    st.frames["top"] = {}
    cv = ClassV(cls.name, modname, cls)
    attrs = {}
    ini = it.class_lookup(cv, "__init__")
    obj = it.alloc(st, Content("inst", (), {}, cv, None))
    if ini is not None and ini[0] == "func":
        try:
            it.quiet += 1
            it.call_func(ini[1], [obj], {}, st, cls)
            attrs = dict(st.heap[obj.oid].attrs or {})
        except (Unsupported, PathDead):
            it.note("opaque: __init__ of the solver class", cls)
            attrs = {}
        finally:
            it.quiet -= 1
    for oid, c in list(st.heap.items()):
        if oid != obj.oid and c.owner is None:
            st.heap[oid] = Content(c.kind, c.parts, c.attrs, c.cls, "an object kept on the solver instance between requests", c.known)
    st.pc = ()
    for a in stored_attrs(repo, modname, cls):
        attrs[a] = Sym("leftover") if a == "program" else Sym("leftover", a)
    st.heap[obj.oid] = Content("inst", (), attrs, cv, None)
    puzzle = Sym("puzzle")
    r = it.class_lookup(cv, "solve")
    if r is None or r[0] != "func":
        raise Unsupported(f"{modname}: no solve")
    v = it.call_func(r[1], [obj, puzzle], {}, st, cls)
    res = Result()
    res.name = modname.split(".")[-1]
    res.mod, res.cls, res.interp, res.state, res.selfobj = modname, cls, it, st, obj
    res.program = v if isinstance(v, Str) else Str(as_nodes(v))
    res.events, res.loops, res.notes = it.events, it.loops, it.notes
    res.line = cls.lineno
    return res
