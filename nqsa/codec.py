"""Abstract execution of the editor codec: boards of unknown size and margins with one element at an unknown cell.

Sizes, margins and the cell are symbols. Indices are polynomials over them, kept in normal form, and a division by the number of cells or columns
is resolved when the remainder is a cell of the board (or of its frame). Nothing is run: texts are templates whose numbers are such polynomials.
"""
import ast

from .arith import lin_build, to_lin
from .domain import BoolF, Bound, ClassV, Const, EnumV, Obj, Phi, Str, Sym, Tup
from .facts import is_const
from .interp import Interp
from .loader import AnalysisBroken
from .state import Content, PathDead, State, Unsupported, as_nodes, facts, make_phi
from .types_ import typ

PREFIX = "m=edit&p="
# the editor's abbreviations of the sections of a layer, in the order in which the editor writes them
KINDS = {"surface": "zS", "number": "zN", "sudoku": "z1", "symbol": "zY", "line": "zL", "edge": "zE"}
DICTS = ("zS", "zN", "z1", "zY", "zF", "z2", "zL", "zE", "zW", "zC", "z4")
LISTS = ("zT", "z3", "zD", "z0", "z5", "z6", "z7")
HISTORY = ("zR", "zU", "z8")


def S(name):
    return Sym("fn_int", "codec", Const(name))


A, B, RR, CC = S("row in frame"), S("column in frame"), S("frame rows"), S("frame columns")
TOP, BOTTOM, LEFT, RIGHT = S("top margin"), S("bottom margin"), S("left margin"), S("right margin")
ROW = lin_build([(A, 1), (TOP, -1)], -2)
COL = lin_build([(B, 1), (LEFT, -1)], -2)
BOARD = {A, B, RR, CC, TOP, BOTTOM, LEFT, RIGHT}
PAYLOAD = Sym("payload")
TEXT = Sym("text")


def plus(v, k):
    return lin_build([(v, 1)], k)


def factors(t):
    return tuple(t.args[1].items) if isinstance(t, Sym) and t.op == "fn_int" and t.args[0] == "mono" else (t,)


def mono(fs):
    fs = tuple(sorted(fs, key=repr))
    return fs[0] if len(fs) == 1 else Sym("fn_int", "mono", Tup(fs))


def pmul(a, b):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return None
    out, const = [], la[1] * lb[1]
    for t, k in la[0].items():
        out.append((t, k * lb[1]))
        for u, m in lb[0].items():
            out.append((mono(factors(t) + factors(u)), k * m))
    for u, m in lb[0].items():
        out.append((u, m * la[1]))
    return lin_build(out, const)


def in_range(r, d):
    """0 <= r < d for every cell of the board and its immediate surroundings."""
    for k in (-1, 0, 1):
        if (d == CC and r == plus(B, k)) or (d == RR and r == plus(A, k)):
            return True
        for j in (-1, 0, 1):
            if d == mono((RR, CC)) and r == lin_build([(pmul(plus(A, k), CC), 1), (plus(B, j), 1)], 0):
                return True
    return False


def pdiv(a, d):
    """(quotient, remainder) when it can be resolved."""
    la, ld = to_lin(a), to_lin(d)
    if la is None or ld is None:
        return None
    if not ld[0]:
        k = ld[1]
        if k <= 0:
            return None
        if all(c % k == 0 for c in la[0].values()):
            return lin_build([(t, c // k) for t, c in la[0].items()], la[1] // k), Const(la[1] % k)
        return None
    if ld[1] != 0 or len(ld[0]) != 1:
        return None
    (t, k), = ld[0].items()
    if k != 1:
        return None
    want = factors(t)
    q, r = [], []
    for u, c in la[0].items():
        fs = list(factors(u))
        try:
            for w in want:
                fs.remove(w)
        except ValueError:
            r.append((u, c))
            continue
        q.append((mono(fs), c) if fs else (Const(1), c))
    rest = lin_build(r, la[1])
    if not in_range(rest, d) and rest != Const(0):
        return None
    return lin_build(q, 0), rest


def is_arith(v):
    """Only board quantities, numbers and the four operations: the value is fully understood."""
    if isinstance(v, Const):
        return isinstance(v.v, (int, bool, str)) or v.v is None
    if isinstance(v, EnumV):
        return True
    if isinstance(v, Tup):
        return all(is_arith(x) for x in v.items)
    if isinstance(v, Str):
        return all(n[0] == "L" or (n[0] == "H" and is_arith(n[1])) for n in v.nodes)
    if isinstance(v, (tuple, list)):
        return all(is_arith(x) for x in v)
    if isinstance(v, Sym):
        if v in BOARD:
            return True
        if v.op == "lin":
            return all(is_arith(t) for t, _ in v.args[0])
        if v.op == "fn_int" and v.args[0] == "mono":
            return all(is_arith(x) for x in v.args[1].items)
        if v.op == "num":
            return is_arith(v.args[1]) and is_arith(v.args[2])
        if v.op == "str":
            return is_arith(v.args[0])
        return v.op == "token"
    return not isinstance(v, (Phi, BoolF, Obj))


def canon(v):
    """Templates without source positions, adjacent literals joined."""
    if isinstance(v, Sym) and v.op == "str":
        v = Str((("H", v.args[0], None),))
    if not isinstance(v, Str):
        return v
    out = []
    for n in v.nodes:
        if n[0] == "H" and isinstance(n[1], Const):
            n = ("L", str(n[1].v), None)
        if n[0] == "H" and isinstance(n[1], Str):
            sub = canon(n[1])
            for m in sub.nodes if isinstance(sub, Str) else as_nodes(sub):
                out.append((m[0], m[1], None))
            continue
        if n[0] == "L":
            if not n[1]:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + n[1], None)
            else:
                out.append(("L", n[1], None))
        elif n[0] == "H":
            out.append(("H", n[1], None))
        else:
            return v
    if not out:
        return Const("")
    if len(out) == 1 and out[0][0] == "L":
        return Const(out[0][1])
    return Str(out)


def template(*parts):
    return canon(Str(tuple(("L", p, None) if isinstance(p, str) else ("H", p, None) for p in parts)))


def simple(v):
    """A template of literals and numbers (or opaque words without separators)."""
    v = canon(v)
    return isinstance(v, Str) and all(n[0] == "L" or (n[0] == "H" and (typ(n[1]) == frozenset(["int"]) or isinstance(n[1], Sym) and n[1].op == "token")) for n in v.nodes)


LINE_ENDS = ("\r\n", "\n", "\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029")


def cut(nodes, seps, limit=-1):
    """Split a simple template at the first matching separator, repeatedly."""
    out, cur = [], []
    for n in nodes:
        if n[0] != "L":
            cur.append(n)
            continue
        t = n[1]
        while True:
            hits = [(t.find(s), s) for s in seps if s in t]
            if not hits or (limit >= 0 and len(out) >= limit):
                break
            i, s = min(hits, key=lambda h: (h[0], -len(h[1])))
            if t[:i]:
                cur.append(("L", t[:i], None))
            out.append(cur)
            cur = []
            t = t[i + len(s):]
        if t:
            cur.append(("L", t, None))
    out.append(cur)
    return [canon(Str(x)) for x in out]


def polynomial(v):
    l = to_lin(v)
    return l is not None and all(all(f in BOARD for f in factors(t)) for t in l[0])


def generic_differ(a, b):
    """Two different polynomials in the sizes, margins and coordinates: they differ on a board and cell in general position, which is the one followed."""
    if not isinstance(a, (Sym, Const)) or not isinstance(b, (Sym, Const)) or not (isinstance(a, Sym) or isinstance(b, Sym)):
        return False
    return polynomial(a) and polynomial(b) and a != b and bool(to_lin(lin_build([(a, 1), (b, -1)], 0))[0])


def plain_kind(v):
    """The Python type of a value that is fully understood."""
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Str):
        return "str"
    if isinstance(v, Const) and v.v is not None:
        return "str" if isinstance(v.v, str) else "num" if isinstance(v.v, (int, float)) else None
    if isinstance(v, Sym) and typ(v) == frozenset(["int"]):
        return "num"
    return None


class CodecInterp(Interp):
    keep_loc = False
    square = None  # the height and the width, when they are taken to be the same

    def __init__(self, repo, layers):
        super().__init__(repo, set())
        self.layers = layers  # line token -> builder(st)
        self.dumped = {}  # token -> (dict object, state snapshot)
        self.compressed = []
        self.reads = []  # (line, replacements made before parsing)
        self.problems = []

    # ---- templates
    def key_norm(self, k, st):
        k = canon(k) if isinstance(k, (Str, Sym)) else k
        if isinstance(k, Str):
            return k
        return super().key_norm(k, st)

    def is_key(self, k):
        return super().is_key(k) or is_arith(k)

    def freeze(self, v, st):
        if isinstance(v, (Str, Sym)):
            w = canon(v)
            if isinstance(w, Str):
                return w
        return super().freeze(v, st)

    def cmp_eq(self, a, b, st):
        if a == b:
            return True
        if isinstance(a, Obj) and isinstance(b, Obj):
            x, y = self.constants(a, st), self.constants(b, st)
            if x is not None and y is not None:
                return x == y
        ka, kb = plain_kind(a), plain_kind(b)
        if ka and kb and ka != kb:
            return False
        if isinstance(a, (Str, Sym)) and isinstance(b, (Str, Sym, Const)):
            x, y = canon(a), canon(b)
            if x == y:
                return True
            if isinstance(x, Str) and (isinstance(y, Const) or isinstance(y, Str)) and is_arith(x) and is_arith(y):
                return self.same_text(x, y, st)
        elif isinstance(b, (Str, Sym)) and isinstance(a, Const):
            return self.cmp_eq(b, a, st)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            if any(self.cmp_eq(x, y, st) is False for x, y in zip(a.items, b.items) if not isinstance(x, Phi) and not isinstance(y, Phi)):
                return False
        if self.square and a in self.square and b in self.square:
            return True
        if generic_differ(a, b):
            return False
        return super().cmp_eq(a, b, st)

    def constants(self, o, st):
        """(kind, items) of a list or set of constants"""
        c = self.content(st, o)
        if c.kind not in ("list", "set") or any(p[0] != "I" for p in c.parts):
            return None
        items = [self.prune(p[1], st) for p in c.parts]
        items = [Const(x.f) if isinstance(x, BoolF) and x.f in (True, False) else x for x in items]
        if not all(isinstance(x, (Const, EnumV)) for x in items):
            return None
        return c.kind, frozenset(items) if c.kind == "set" else tuple(items)

    def same_text(self, x, y, st):
        if isinstance(y, Const):
            if not isinstance(y.v, str):
                return False
            y = Str((("L", y.v, None),))
        def shape(s):
            return [n[1] if n[0] == "L" else None for n in s.nodes]
        if shape(x) == shape(y):
            from .domain import f_and
            return f_and([self.cmp_eq(n[1], m[1], st) for n, m in zip(x.nodes, y.nodes) if n[0] == "H"])
        return False

    def cmp_in(self, a, b, st, node):
        b2 = canon(b) if isinstance(b, (Str, Sym)) else b
        if isinstance(a, Const) and isinstance(a.v, str) and isinstance(b2, Str) and simple(b2):
            if any(n[0] == "L" and a.v in n[1] for n in b2.nodes):
                return True
            if a.v and not any(ch.isalnum() or ch == "-" for ch in a.v) and all(n[0] == "L" or typ(n[1]) == frozenset(["int"]) for n in b2.nodes) and len(a.v) == 1:
                return False
        return super().cmp_in(a, b, st, node)

    def str_method(self, obj, name, args, kwargs, st, node):
        if name in ("encode", "decode"):
            self.coding(args, kwargs)
            return obj
        o = canon(obj)
        if isinstance(o, Const):
            obj = o
        pargs = [canon(self.prune(x, st)) for x in args]
        if isinstance(o, Str) and simple(o) and all(isinstance(x, Const) for x in pargs):
            vals = [x.v for x in pargs]
            first, last = o.nodes[0], o.nodes[-1]
            if name == "split":
                if not vals or vals[0] is None:
                    return self.alloc(st, Content("list", [("I", x) for x in cut(o.nodes, (" ", "\n", "\t")) if x != Const("")]))
                return self.alloc(st, Content("list", [("I", x) for x in cut(o.nodes, (vals[0],), vals[1] if len(vals) > 1 else -1)]))
            if name == "splitlines":
                return self.alloc(st, Content("list", [("I", x) for x in cut(o.nodes, LINE_ENDS)]))
            if name == "partition":
                ps = cut(o.nodes, (vals[0],), 1)
                return Tup((ps[0], Const(vals[0]), ps[1])) if len(ps) == 2 else Tup((o, Const(""), Const("")))
            if name == "replace" and any(n[0] == "H" and n[1].op == "token" for n in o.nodes):
                return Sym("mcall", "replace", o, *pargs)
            if name == "replace" and len(vals) == 2 and vals[0] and not vals[0].lstrip("-").isdigit():
                return canon(Str(tuple(("L", n[1].replace(vals[0], vals[1]), None) if n[0] == "L" else n for n in o.nodes)))
            if name == "isdigit":
                return Const(all(n[0] == "H" or n[1].isdigit() for n in o.nodes)) if all(n[0] == "L" or typ(n[1]) == frozenset(["int"]) for n in o.nodes) else Sym("mcall", "isdigit", o)
            if name == "startswith" and isinstance(vals[0], str):
                if first[0] == "L" and (len(first[1]) >= len(vals[0]) or not vals[0].startswith(first[1])):
                    return Const(first[1].startswith(vals[0]))
            if name == "endswith" and isinstance(vals[0], str):
                if last[0] == "L" and (len(last[1]) >= len(vals[0]) or not vals[0].endswith(last[1])):
                    return Const(last[1].endswith(vals[0]))
            if name in ("removeprefix", "removesuffix") and isinstance(vals[0], str):
                if name == "removeprefix" and first[0] == "L" and first[1].startswith(vals[0]):
                    return canon(Str((("L", first[1][len(vals[0]):], None),) + o.nodes[1:]))
                if name == "removesuffix" and last[0] == "L" and last[1].endswith(vals[0]):
                    return canon(Str(o.nodes[:-1] + (("L", last[1][:-len(vals[0])], None),)))
            if name in ("strip", "lstrip", "rstrip"):
                ns = list(o.nodes)
                chars = vals[0] if vals else None
                if name != "rstrip" and ns[0][0] == "L":
                    ns[0] = ("L", ns[0][1].lstrip(chars), None)
                if name != "lstrip" and ns[-1][0] == "L":
                    ns[-1] = ("L", ns[-1][1].rstrip(chars), None)
                return canon(Str(ns))
        return super().str_method(obj, name, args, kwargs, st, node)

    def coding(self, args, kwargs):
        enc = args[0] if args else kwargs.get("encoding", Const("utf-8"))
        if isinstance(enc, Const) and str(enc.v).lower().replace("_", "-") not in ("utf-8", "utf8", "u8"):
            self.problems.append(("encoding", f"the text is converted with the character set {enc.v}, which is not the editor's"))

    def join(self, sep, seq, st, node):
        v = super().join(sep, seq, st, node)
        return canon(v)

    def sym_method(self, obj, name, args, kwargs, st, node):
        if obj == TEXT and name == "decode":
            self.coding(args, kwargs)
            return self.text()
        if obj.op == "str":
            return self.str_method(canon(obj), name, args, kwargs, st, node)
        return super().sym_method(obj, name, args, kwargs, st, node)

    def slice_(self, b, lo, hi, step, st, node):
        b2 = canon(b) if isinstance(b, Str) else b
        if isinstance(b2, Str) and isinstance(lo, Const) and hi == Const(None) and step == Const(None) and isinstance(lo.v, int) and b2.nodes[0][0] == "L" and 0 <= lo.v <= len(b2.nodes[0][1]):
            return canon(Str((("L", b2.nodes[0][1][lo.v:], None),) + b2.nodes[1:]))
        if isinstance(b2, Str) and lo in (Const(None), Const(0)) and isinstance(hi, Const) and isinstance(hi.v, int) and step == Const(None) and b2.nodes[0][0] == "L" and 0 <= hi.v <= len(b2.nodes[0][1]):
            return Const(b2.nodes[0][1][: hi.v])
        return super().slice_(b, lo, hi, step, st, node)

    def item(self, b, i, st, node):
        b2 = canon(b) if isinstance(b, Str) else b
        if isinstance(b2, Str) and isinstance(i, Const) and isinstance(i.v, int):
            n = b2.nodes[0] if i.v >= 0 else b2.nodes[-1]
            if n[0] == "L" and -len(n[1]) <= i.v < len(n[1]):
                return Const(n[1][i.v])
        return super().item(b, i, st, node)

    def unpack_values(self, v, n, node, st):
        return super().unpack_values(v, n, node, st)

    # ---- numbers
    def bi_int(self, args, kwargs, st, node):
        v = canon(self.prune(args[0], st)) if args else None
        if len(args) == 1 and isinstance(v, Str) and len(v.nodes) == 1 and v.nodes[0][0] == "H" and typ(v.nodes[0][1]) == frozenset(["int"]):
            return v.nodes[0][1]
        if isinstance(v, Str) and len(args) == 1:
            raise Unsupported(f"int({v!r})")
        return super().bi_int([v] + list(args[1:]) if args else args, kwargs, st, node)

    def bi_str(self, args, kwargs, st, node):
        v = super().bi_str(args, kwargs, st, node)
        return canon(v) if isinstance(v, (Str, Sym)) else v

    def binop1(self, opcls, a, b, st, node):
        if opcls in (ast.Mult, ast.FloorDiv, ast.Mod) and self.isint(a, st) and self.isint(b, st) and not isinstance(a, BoolF) and not isinstance(b, BoolF):
            if not (isinstance(a, Const) and isinstance(b, Const)):
                if opcls is ast.Mult:
                    r = pmul(a, b)
                    if r is not None:
                        return r
                else:
                    r = pdiv(a, b)
                    if r is not None:
                        return r[0] if opcls is ast.FloorDiv else r[1]
        return super().binop1(opcls, a, b, st, node)

    # ---- the outside world
    def text(self):
        return template("square,", plus(CC, -4), ",", plus(RR, -4), ",38,0,1,1,608,570,845,845,0,0,0,0,Title: ,Author: ,,,ON,false\n[",
                        TOP, ",", BOTTOM, ",", LEFT, ",", RIGHT, "]\n", token("line 2"), "\n", token("line 3"), "\n", token("line 4"), "\n[60,1,1]\n", token("line 6"), "\n{}\n", token("line 8"), "\n\"x\"\n[3,1,4]\nR\u00e8gles:\t1\r\u2028 2\x0b3\x0c\x1c\x1d\x1e\x85 \n", token("line 11"), "\n", token("line 12"), "\n0 \n")

    def call_builtin(self, name, args, kwargs, st, node):
        short = name.rsplit(".", 1)[-1]
        if name in ("base64.b64decode", "base64.standard_b64decode"):
            v = canon(args[0])
            if v != template(PAYLOAD) and v != PAYLOAD:
                self.problems.append(("prefix", f"the payload is cut out of the address as {v!r}"))
            return Sym("b64d")
        if name == "zlib.decompress":
            w = args[1] if len(args) > 1 else kwargs.get("wbits", Const(15))
            if args[0] != Sym("b64d"):
                return Sym("call", name, *[self.freeze(x, st) for x in args])
            if w != Const(-15):
                self.problems.append(("compression", f"the payload is raw deflate data but is unpacked with window size {w!r}"))
            return TEXT
        if name == "zlib.compress":
            self.compressed.append(canon(args[0]))
            return Sym("zip", Const(len(self.compressed) - 1))
        if name in ("base64.b64encode", "base64.standard_b64encode"):
            return Sym("b64e", self.freeze(args[0], st))
        if name == "json.loads":
            return self.loads(canon(args[0]), st)
        if name == "json.dumps":
            tok = token(f"written {len(self.dumped)}")
            self.dumped[tok] = (args[0], st.copy(), {k: self.freeze(v, st) for k, v in kwargs.items()})
            return tok
        return super().call_builtin(name, args, kwargs, st, node)

    def loads(self, v, st):
        ch = chain(v)
        if ch is not None and isinstance(ch[0], Sym) and ch[0].op == "token":
            if ch[0] not in self.layers:
                return Sym("json", v)
            self.reads.append((ch[0], tuple(ch[1])))
            return self.build(self.named(self.layers[ch[0]], ch[1]), st)
        if isinstance(v, Const) and isinstance(v.v, str):
            import json
            try:
                return self.build(json.loads(v.v), st)
            except ValueError:
                return Sym("json", v)
        if isinstance(v, Str) and v.nodes[0][0] == "L" and v.nodes[0][1].startswith("[") and v.nodes[-1][0] == "L" and v.nodes[-1][1].endswith("]"):
            inner = canon(Str((("L", v.nodes[0][1][1:], None),) + v.nodes[1:-1] + (("L", v.nodes[-1][1][:-1], None),)))
            out = []
            for x in cut(inner.nodes, (",",)):
                if isinstance(x, Str) and len(x.nodes) == 1:
                    out.append(x.nodes[0][1])
                elif isinstance(x, Const) and x.v.strip().lstrip("-").isdigit():
                    out.append(Const(int(x.v)))
                else:
                    return Sym("json", v)
            return self.alloc(st, Content("list", [("I", x) for x in out]))
        return Sym("json", v)

    def named(self, x, pairs):
        """Abbreviated section names as the program will see them."""
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                if isinstance(k, str) and k.startswith("z"):
                    w = expand(k, pairs)
                    k = w[1:-1] if len(w) > 1 and w[0] == w[-1] == '"' else w
                out[k] = self.named(v, pairs)
            return out
        return [self.named(y, pairs) for y in x] if isinstance(x, list) else x

    def build(self, x, st):
        if isinstance(x, dict):
            return self.alloc(st, Content("dict", (), known=tuple((k if not isinstance(k, (str, int)) else Const(k), self.build(v, st)) for k, v in x.items())))
        if isinstance(x, list):
            return self.alloc(st, Content("list", [("I", self.build(y, st)) for y in x]))
        if isinstance(x, tuple):
            return Tup(self.build(y, st) for y in x)
        if isinstance(x, (str, int)) or x is None:
            return Const(x)
        return x


def layer(**content):
    """A layer as the editor writes it, by abbreviation."""
    d = {k: {"z_": []} for k in HISTORY}
    d.update({k: {} for k in DICTS})
    d.update({k: [] for k in LISTS})
    for k, v in content.items():
        d[KINDS[k]] = v
    return d


def token(name):
    return Sym("token", Const(name))


def chain(v):
    """x.replace(a, b).replace(c, d)... -> (x, [(a, b), (c, d)]) or None"""
    out = []
    v = unwrap(v)
    while isinstance(v, Sym) and v.op == "mcall" and v.args[0] == "replace" and len(v.args) == 4:
        a, b = canon(v.args[2]), canon(v.args[3])
        if not (isinstance(a, Const) and isinstance(b, Const)):
            return None
        out.append((a.v, b.v))
        v = unwrap(v.args[1])
    return v, out[::-1]


def unwrap(v):
    v = canon(v) if isinstance(v, (Str, Sym)) else v
    while isinstance(v, Str) and len(v.nodes) == 1 and v.nodes[0][0] == "H":
        v = v.nodes[0][1]
    return v


def expand(word, pairs):
    for a, b in pairs:
        word = word.replace(a, b)
    return word


# boards on which two expressions are compared when they are not equal as polynomials: (row, column, rows, columns, margins)
SAMPLES = [dict(zip((A, B, RR, CC, TOP, BOTTOM, LEFT, RIGHT), x)) for x in (
    (5, 7, 13, 17, 1, 2, 3, 0), (4, 3, 11, 9, 2, 0, 1, 1), (9, 2, 14, 8, 0, 3, 0, 2), (2, 2, 6, 7, 0, 0, 0, 0), (7, 21, 19, 29, 4, 1, 0, 5), (3, 6, 9, 10, 1, 1, 2, 2))]


def value_on(v, env):
    """The Python value of a board expression on one board; raises KeyError when it contains anything else."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, EnumV):
        return v.cls, v.name
    if isinstance(v, Tup):
        return tuple(value_on(x, env) for x in v.items)
    if isinstance(v, (list, tuple)):
        return tuple(value_on(x, env) for x in v)
    if isinstance(v, dict):
        return frozenset((value_on(k, env), value_on(x, env)) for k, x in v.items())
    if isinstance(v, Str):
        v = canon(v)
        if isinstance(v, Str):
            if any(n[0] not in "LH" for n in v.nodes):
                raise KeyError(v)
            return "".join(n[1] if n[0] == "L" else str(value_on(n[1], env)) for n in v.nodes)
        return v.v
    if isinstance(v, Sym):
        if v in env:
            return env[v]
        if v.op == "lin":
            return v.args[1] + sum(value_on(t, env) * k for t, k in v.args[0])
        if v.op == "fn_int" and v.args[0] == "mono":
            out = 1
            for x in v.args[1].items:
                out *= value_on(x, env)
            return out
        if v.op == "num":
            x, y = value_on(v.args[1], env), value_on(v.args[2], env)
            if isinstance(x, int) and isinstance(y, int):
                if v.args[0] == "*":
                    return x * y
                if y and v.args[0] == "//":
                    return x // y
                if y and v.args[0] == "%":
                    return x % y
        if v.op == "str":
            return str(value_on(v.args[0], env))
        if v.op == "token" or v in BOARD:
            return v.op, repr(v)
    raise KeyError(v)


def compare(a, b):
    """True: equal on every board; False: they differ on a board; None: not decided."""
    if a == b:
        return True
    try:
        if any(value_on(a, e) != value_on(b, e) for e in SAMPLES):
            return False
    except (KeyError, TypeError, ValueError, ZeroDivisionError):
        pass
    if isinstance(a, dict) and isinstance(b, dict) and compare(list(a), list(b)) is False:
        return False
    return None


class Run:
    """One reading, answering and writing of a puzzle."""

    def __init__(self, repo, name="generic", given=None, answer=None, refine=None, param=None):
        self.repo = repo
        self.param = param or {}
        self.it = CodecInterp(repo, {token("line 3"): layer(**(given or {})), token("line 4"): layer(**(answer or {}))})
        it = self.it
        self.man = "noqx.manager"
        if self.man not in repo.modules:
            raise AnalysisBroken("noqx/manager.py not found")
        it.mod = self.man
        it.frame_id_stack = ["top"]
        it.stack = [("<request>", (repo.modules[self.man].rel, 0))]
        self.node = repo.modules[self.man].tree
        self.st = State()
        self.st.frames["top"] = {}
        self.name = name
        self.refine = refine

    def func(self, name):
        f = self.it.global_lookup(self.man, name)
        if f is None:
            raise AnalysisBroken(f"noqx.manager.{name} not found")
        return f

    def prepare(self):
        it, st = self.it, self.st
        param = it.alloc(st, Content("dict", (), known=tuple((Const(k), v if not isinstance(v, (str, int, bool)) else Const(v)) for k, v in self.param.items())))
        st.pc = ()
        self.puzzle = it.call(self.func("prepare_puzzle"), [Const(self.name), template(PREFIX, PAYLOAD), param], {}, st, self.node)
        return self.puzzle

    def attr(self, obj, name):
        return self.it.attr(obj, name, self.st, self.node)

    def coll(self, obj, name):
        """[(key, value)] of a collection, or None when it is not fully known."""
        o = self.attr(obj, name)
        if not isinstance(o, Obj):
            return None
        c = self.it.content(self.st, o)
        if c.kind != "dict":
            return None
        if c.parts:
            out = {}
            for k, v in c.known or ():
                out[k] = v
            for p in c.parts:
                if p[0] != "I" or not isinstance(p[1], Tup):
                    return None
                out[p[1].items[0]] = p[1].items[1]
            return list(out.items())
        return list(c.known or ())

    def inject(self, obj, name, items):
        o = self.attr(obj, name)
        c = self.it.content(self.st, o)
        self.st.heap[o.oid] = Content("dict", (), None, None, c.owner, tuple(items))

    def clear(self, obj):
        for n in ("surface", "text", "symbol", "edge", "line"):
            self.inject(obj, n, ())

    def encode(self, obj):
        """-> (address value, {layer: [(key, python value)]} of the written answer layer, text value)"""
        it, st = self.it, self.st
        url = it.call(it.attr(obj, "encode", st, self.node), [], {}, st, self.node)
        return url

    def written(self):
        """{abbreviation: content} of the answer layer that was written last, or None."""
        if not self.it.dumped:
            return None
        tok, (o, st, kw) = list(self.it.dumped.items())[-1]
        d = deep(self.it, o, st)
        if not isinstance(d, dict):
            return None
        line = self.written_line(tok)
        if line is None:
            return None
        out = {}
        for k, v in d.items():
            w = expand(f'"{k.v}"', line[1]) if isinstance(k, Const) else k
            out[w] = v
        return out

    def written_line(self, tok=None):
        """(index of the line that holds the written layer, replacements made on it)"""
        tok = tok or list(self.it.dumped)[-1]
        for i, x in enumerate(self.lines() or ()):
            ch = chain(x)
            if ch is not None and ch[0] == tok:
                return i, ch[1]
        return None

    def lines(self, text=None):
        text = text if text is not None else (self.it.compressed[-1] if self.it.compressed else None)
        if isinstance(text, Const) and isinstance(text.v, str):
            return [Const(x) for x in text.v.split("\n")]
        if not isinstance(text, Str) or any(n[0] not in "LH" for n in text.nodes):
            return None
        return cut(text.nodes, ("\n",))

    def store(self, obj, model):
        it, st = self.it, self.st
        env = it.module_env(self.man)
        base = self.refine
        if base is None:
            base = ClassV("Solver", self.man, self.repo.base_solver())
        inst = it.alloc(st, Content("inst", (), {}, base, None))
        for k, v in list(env.items()):  # the registry of puzzle types
            if isinstance(v, Obj) and it.gheap.get(v.oid) is not None and it.gheap[v.oid].kind == "dict" and not it.gheap[v.oid].known:
                o = it.alloc(st, Content("dict", (), known=((Const(self.name), inst),)))
                env[k] = o
        return it.call(self.func("store_solution"), [obj, model], {}, st, self.node)


def deep(it, v, st):
    """Abstract value -> nested python structure with values at the leaves."""
    if isinstance(v, Obj):
        c = it.content(st, v)
        if c.kind == "dict":
            if c.parts:
                out = [(canon(k) if isinstance(k, (Str, Sym)) else k, deep(it, x, st)) for k, x in c.known or ()]
                for p in c.parts:
                    if p[0] == "I" and isinstance(p[1], Tup):
                        out.append((p[1].items[0], deep(it, p[1].items[1], st)))
                    else:
                        return Sym("partly", Const(repr(p)[:80]))
                return dict(out)
            return {(canon(k) if isinstance(k, (Str, Sym)) else k): deep(it, x, st) for k, x in c.known or ()}
        if all(p[0] == "I" for p in c.parts):
            return [deep(it, p[1], st) for p in c.parts]
        return Sym("partly", Const(repr(c.parts)[:80]))
    if isinstance(v, (Str, Sym)):
        return canon(v)
    return v


def ref(r, c, category=0):
    """The editor's index of a place: category 0 cell, 1 lower right corner, 2 lower border, 3 right border."""
    a = lin_build([(r, 1), (TOP, 1)], 2)
    b = lin_build([(c, 1), (LEFT, 1)], 2)
    return lin_build([(pmul(Const(category), mono((RR, CC))), 1), (pmul(a, CC), 1), (b, 1)], 0)


def show(v):
    import re
    s = repr(v)
    s = re.sub(r"fn_int\('codec', '([^']*)'\)", lambda m: m.group(1).replace(" ", "-"), s)
    s = re.sub(r"fn_int\('mono', \(([^()]*)\)\)", lambda m: "*".join(m.group(1).split(", ")), s)
    return s[:300]


def special_names(repo):
    """Puzzle types whose name the codec mentions."""
    names = {m.split(".")[-1] for m, _ in repo.solver_classes()}
    out = set()
    for m in repo.modules.values():
        if m.name.startswith("noqx.puzzle") or m.name == "noqx.manager":
            out |= {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in names}
    return sorted(out)


def anchor(repo, kind, reading):
    """(file, line, function) of the code that reads or writes one kind of element."""
    for name in ("noqx.puzzle.penpa", *repo.modules):
        m = repo.modules.get(name)
        if m is None or not name.startswith("noqx.puzzle"):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.FunctionDef):
                continue
            stores = any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == kind for x in ast.walk(n))
            uses = any(isinstance(x, ast.Attribute) and x.attr == kind and isinstance(x.ctx, ast.Load) for x in ast.walk(n))
            if (reading and stores) or (not reading and uses and not stores and n.name not in ("clear", "__init__")):
                return (m.rel, n.lineno), n.name
    return None, "?"
