"""Program generation for a puzzle that holds a few known clues at unknown places of a board of unknown size."""
from .domain import BoolF, ClassV, Const, EnumV, Phi, Str, Sym, Tup, V, f_lits
from .interp import Interp
from .solve import Result
from .state import Content, State, as_nodes


def place(i, axis):
    return Sym("fn_int", "place", Const(f"{axis}{i}"))


def number(i):
    return Sym("fn_int", "clue", Const(f"n{i}"))


PUZZLE = Sym("puzzle")


class ClueInterp(Interp):
    def __init__(self, repo, content):
        super().__init__(repo)
        self.given = content
        self.objs = {}

    def attr(self, v, name, st, node):
        if v == PUZZLE and name in self.given:
            return self.objs[name]
        return super().attr(v, name, st, node)


def run(repo, modname, cls, content, pc=()):
    """content: {collection: [(key, value), ...]}; other collections are arbitrary."""
    it = ClueInterp(repo, content)
    it.mod = modname
    it.frame_id_stack = ["top"]
    it.stack = [("<request>", (repo.modules[modname].rel, 0))]
    st = State()
    st.frames["top"] = {}
    for n, items in content.items():
        it.objs[n] = it.alloc(st, Content("dict", (), known=tuple(items)))
    cv = ClassV(cls.name, modname, cls)
    obj = it.alloc(st, Content("inst", (), {"program": Const("")}, cv, None))
    st.pc = tuple(pc)
    r = it.class_lookup(cv, "solve")
    v = it.call_func(r[1], [obj, PUZZLE], {}, st, cls)
    res = Result()
    res.name = modname.split(".")[-1]
    res.mod, res.cls, res.interp, res.state, res.selfobj = modname, cls, it, st, obj
    res.program = v if isinstance(v, Str) else Str(as_nodes(v))
    res.events, res.loops, res.notes, res.line = it.events, it.loops, it.notes, cls.lineno
    return res


def point(r, c, d="CENTER", pos="normal"):
    return Tup((r, c, EnumV("Direction", d), Const(pos)))


DICTS = {"dictv"}
OPAQUE = {"rooms"} | DICTS


def seen(v, want, out):
    """Which of the wanted values occur in v, not looking inside the opaque region index (it holds the whole clue dictionary)."""
    if v in want:
        out.add(v)
    if isinstance(v, Sym):
        if v.op in OPAQUE:
            return
        if v.op == "lin":
            for t, _ in v.args[0]:
                seen(t, want, out)
        else:
            for a in v.args:
                if isinstance(a, V):
                    seen(a, want, out)
                elif isinstance(a, tuple):
                    seen_tuple(a, want, out)
    elif isinstance(v, Tup):
        for x in v.items:
            seen(x, want, out)
    elif isinstance(v, BoolF):
        seen_f(v.f, want, out)
    elif isinstance(v, Phi):
        for f, x in v.alts:
            seen_f(f, want, out)
            seen(x, want, out)
    elif isinstance(v, Str):
        seen_nodes(v.nodes, want, out)


def seen_tuple(t, want, out):
    for a in t:
        if isinstance(a, V):
            seen(a, want, out)
        elif isinstance(a, tuple):
            seen_tuple(a, want, out)


def seen_f(f, want, out):
    for x in f_lits(f):
        seen(x[1], want, out)


def seen_nodes(nodes, want, out):
    for n in nodes:
        if n[0] == "H":
            seen(n[1], want, out)
        elif n[0] == "R":
            if n[2] and not isinstance(n[2][0][0] if n[2][0] else (), str):
                for sub in n[2]:
                    seen_nodes(sub, want, out)
            else:
                seen_nodes(n[2], want, out)
            seen_nodes(n[3], want, out)
        elif n[0] == "S":
            seen_nodes(n[1], want, out)
            seen_nodes(n[2], want, out)
        elif n[0] == "A":
            for f, x in n[1]:
                seen_f(f, want, out)
                seen_nodes(x, want, out)
        elif n[0] == "G":
            for f in n[1]:
                seen_f(f, want, out)
            seen_nodes(n[2], want, out)
