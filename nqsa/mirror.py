"""Mirror images of generated rules along the board's diagonal, compared up to renaming.

A rule template, its Python conditions and loops become one structure whose variables (of the logic program) and loop numbers (of the
analysed code) are anonymous: they are named by what is said about them.  The mirror image exchanges rows and columns everywhere: in
argument positions, in positions read from the puzzle, in board extents, in direction names.
"""
import hashlib

from .arith import lin_build
from .asp import T
from .domain import BoolF, Const, EnumV, Phi, Str, Sym, Tup
from .prog import flat
from .sorts import COL, FREE, ROW, const_str, pattern

DIRS = {"LEFT": "TOP", "TOP": "LEFT", "RIGHT": "BOTTOM", "BOTTOM": "RIGHT", "TOP_LEFT": "TOP_LEFT", "BOTTOM_RIGHT": "BOTTOM_RIGHT",
        "TOP_RIGHT": "BOTTOM_LEFT", "BOTTOM_LEFT": "TOP_RIGHT"}
WORDS = {"l": ("u", "t"), "u": ("l",), "r": ("d", "b"), "d": ("r",), "t": ("l",), "b": ("r",),
         "left": ("top", "up"), "top": ("left",), "right": ("bottom", "down"), "bottom": ("right",), "up": ("left",), "down": ("right",),
         "row": ("col", "column"), "col": ("row",), "column": ("row",), "rows": ("cols", "columns"), "cols": ("rows",), "columns": ("rows",),
         "horizontal": ("vertical",), "vertical": ("horizontal",), "horiz": ("vert",), "vert": ("horiz",), "h": ("v",), "v": ("h",),
         "ur": ("dl", "ld"), "dl": ("ur", "ru"), "ru": ("ld", "dl"), "ld": ("ru", "ur"), "tr": ("bl",), "bl": ("tr",),
         "lr": ("ud", "tb"), "ud": ("lr",), "tb": ("lr",)}
DIRWORDS = {"H": "V", "V": "H", "h": "v", "v": "h", "horizontal": "vertical", "vertical": "horizontal", "l": "u", "u": "l", "r": "d", "d": "r", "left": "top", "top": "left", "right": "bottom", "bottom": "right", "ur": "dl", "dl": "ur",
            "ru": "ld", "ld": "ru", "lr": "ud", "ud": "lr", "ul": "ul", "lu": "lu", "dr": "dr", "rd": "rd"}


def swap_name(s, known):
    """The name that plays the part of s with rows and columns exchanged, among the names the program uses."""
    import itertools
    parts = s.split("_")
    opts = [WORDS[p] + (p,) if p in WORDS else (p,) for p in parts]
    if all(len(o) == 1 for o in opts) or len(parts) > 6:
        return s
    first = None
    for o in itertools.product(*opts):
        t = "_".join(o)
        if t != s and t in known:
            return t
        if first is None:
            first = t
    return s


class Canon:
    def __init__(self, weights, signature, flip, cells=(), square=False, known=()):
        self.known = known
        self.w, self.sg, self.flip, self.cells, self.square = weights, signature, flip, cells, square
        self.loops = set()
        self.scope = 0
        self.local = None
        self.n = 0

    # ---------------------------------------------------------------- values of the analysed program
    def loop(self, i):
        self.loops.add(i)
        return ("name", ("L", i))

    def word(self, s):
        return DIRWORDS.get(s, s) if self.flip else s

    def piece(self, s):
        """Part of a predicate's name."""
        if not self.flip:
            return s
        return "_".join(DIRWORDS.get(p, p) if len(p) > 2 else p for p in s.split("_"))

    def val(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (int, float)):
            return ("c", repr(v))
        if isinstance(v, str):
            return ("s", self.word(v))
        if isinstance(v, Const):
            return self.val(v.v)
        if isinstance(v, EnumV):
            n = v.name
            return ("enum", v.cls, DIRS.get(n, n) if self.flip else n)
        if isinstance(v, Tup):
            return ("tup", *[self.val(x) for x in self.pairs(list(v.items))])
        if isinstance(v, Str):
            hs = [self.val(n[1]) for n in v.nodes if n[0] == "H"]
            return ("str", ("set", hs)) if hs else ("str", *self.nodes(v.nodes))
        if isinstance(v, BoolF):
            return ("bf", self.formula(v.f))
        if isinstance(v, Phi):
            return ("set", [("alt", self.formula(f) if isinstance(f, tuple) or f in (True, False) else repr(f), self.val(x)) for f, x in v.alts])
        if isinstance(v, Sym):
            return self.sym(v)
        if isinstance(v, frozenset):
            return ("fs", tuple(sorted(map(repr, v))))
        if isinstance(v, (tuple, list)):
            if len(v) == 3 and v[0] in ("lit", "and", "or") and isinstance(v[0], str) or len(v) == 2 and v[0] in ("and", "or") and isinstance(v[0], str):
                return self.formula(v)
            if len(v) >= 2 and v[0] == "R" and isinstance(v[1], int) and not isinstance(v[1], bool):
                return ("R", self.loop(v[1]), *[self.val(x) for x in v[2:]])
            return ("t", *[self.val(x) for x in v])
        return ("o", repr(v))

    def pairs(self, items):
        """Exchange neighbouring row and column."""
        if not self.flip:
            return items
        out = list(items)
        i = 0
        while i + 1 < len(out):
            a, b = self.w(out[i])[0], self.w(out[i + 1])[0]
            if (a, b) in ((ROW, COL), (ROW, FREE), (FREE, COL), (COL, ROW), (COL, FREE), (FREE, ROW)):
                out[i], out[i + 1] = out[i + 1], out[i]
                i += 2
            else:
                i += 1
        return out

    def sym(self, v):
        op, a = v.op, v.args
        if op == "attr" and len(a) == 2 and a[0] == Sym("puzzle") and a[1] in ("row", "col"):
            return ("board", "size" if self.square else {"row": "col", "col": "row"}[a[1]] if self.flip else a[1])
        if op in ("fn_int", "fn") and a and a[0] in ("max", "min", Const("max"), Const("min")):
            return (op, self.val(a[0]), ("set", [self.val(x) for x in a[1:]]))
        if op == "lin":
            return ("lin", ("set", [("m", k, self.val(t)) for t, k in a[0]]), a[1])
        if op in ("num", "bin") and a[0] in ("*", "+"):
            return (op, a[0], ("set", [self.val(x) for x in a[1:]]))
        if op in ("key", "val", "idx", "cnt", "elem", "celem", "lv", "lout", "nonempty", "loopvar"):
            if op in ("lv", "lout"):
                return (op, self.loop(a[0]), self.carried(a))
            return (op, self.loop(a[0]) if isinstance(a[0], int) else self.val(a[0]), *[self.val(x) for x in a[1:]])
        if op == "item" and isinstance(a[1], Const) and a[1].v in (0, 1) and self.flip:
            ws = {i: self.w(Sym("item", a[0], Const(i)))[0] for i in (0, 1)}
            i = a[1].v
            if {ws[0], ws[1]} == {ROW, COL} or a[0] in self.cells:
                i = 1 - i
            return ("item", self.val(a[0]), ("c", repr(i)))
        if op == "rooms":
            return ("rooms", *[self.val(x) for x in a[2:]])
        if op == "eq":
            d = lin_build([(a[0], 1), (a[1], -1)], 0) if all(isinstance(x, Sym) or isinstance(x, Const) and isinstance(x.v, int) for x in a) else None
            one = [(x, y) for x, y in (a, a[::-1]) if isinstance(y, Const) and isinstance(y.v, int) and isinstance(x, Sym)]
            if one and one[0][0].op in ("val", "int", "item", "num") and self.w(one[0][0])[0] is None:
                return ("eq", ("set", [self.val(one[0][0]), ("tok", "n", repr(one[0][1].v))]))
            if one and one[0][0].op == "lin" and len(one[0][0].args[0]) == 1 and one[0][0].args[0][0][1] in (1, -1):
                t, k = one[0][0].args[0][0]
                if isinstance(t, Sym) and t.op in ("val", "int", "item", "num") and self.w(t)[0] is None:
                    return ("eq", ("set", [self.val(t), ("tok", "n", repr((int(one[0][1].v) - one[0][0].args[1]) * k))]))
            if isinstance(d, Sym) and d.op == "lin":
                return ("eq", ("set", [self.val(d), self.val(lin_build([(d, -1)], 0))]))
            if any(isinstance(x, (Const, Str)) for x in a) and any(isinstance(x, Sym) and self.w(x)[0] in (None,) and x.op != "attr" for x in a):
                return ("eq", ("set", [self.code(self.val(x)) for x in a]))
            return ("eq", ("set", [self.val(x) for x in a]))
        if op in ("get", "lookup", "in") and self.flip:
            return (op, *[self.key(x) for x in a])
        return (op, *[self.val(x) for x in a])

    def key(self, x):
        if isinstance(x, Tup) and len(x.items) >= 2 and {self.w(y)[0] for y in x.items[:2]} <= {ROW, COL, FREE}:
            it = list(x.items)
            it[0], it[1] = it[1], it[0]
            return ("tup", *[self.val(y) for y in it])
        return self.val(x)

    def carried(self, a):
        iv = self.w.init.get((a[0], a[1]))
        return self.val(iv) if iv is not None and not (isinstance(iv, Sym) and iv.op in ("lv", "lout")) else ("?",)

    def nodes(self, ns):
        out = []
        for n in ns:
            if n[0] == "L":
                out.append(("s", self.word(n[1])))
            elif n[0] == "H":
                out.append(self.val(n[1]))
            else:
                out.append(("n", *[self.val(x) if isinstance(x, (Sym, Const, Tup)) else "" for x in n[1:]]))
        return out

    def formula(self, f):
        if f is True or f is False:
            return ("b", f)
        if f[0] == "lit":
            return ("plit", f[2], self.val(f[1]))
        if f[0] in ("and", "or"):
            return (f[0], ("set", [self.formula(x) for x in f[1]]))
        return ("f", *[self.val(x) for x in f])

    # ---------------------------------------------------------------- terms and literals
    def var(self, n):
        if isinstance(n, str):
            return ("name", ("V", n))
        return ("vname", *[("s", p) if isinstance(p, str) else self.val(p[1]) for p in n])

    def name(self, nm):
        if all(isinstance(p, str) or isinstance(p[1], Const) for p in nm):
            t = "".join(p if isinstance(p, str) else str(p[1].v) for p in nm)
            return ("tok", "p", swap_name(t, self.known) if self.flip else t)
        holes = [p[1] for p in nm if not isinstance(p, str) and not isinstance(p[1], Const)]
        holes = iter(self.pairs(holes))
        out = []
        for p in nm:
            if isinstance(p, str):
                x = ("s", self.piece(p))
            elif isinstance(p[1], Const):
                x = ("s", self.piece(str(p[1].v)))
            else:
                x = self.val(next(holes))
            if out and x[0] == "s" and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + x[1])
            else:
                out.append(x)
        return ("pred", *out)

    def args(self, nm, args):
        """Rows, columns and the other arguments, each in order."""
        g = list(flat(args))
        if any(a.op == "rep" for a in args):
            return [self.term(x) for x in g]
        key = (pattern(nm), len(g), tuple(sorted((i, s) for i, a in enumerate(g) for s in [const_str(a)] if s is not None)))
        sorts = [self.sg.lookup(key, i) for i in range(len(g))]
        sorts = [s[0] if s else None for s in sorts]
        rows = [self.term(x) for x, s in zip(g, sorts) if s == ROW]
        cols = [self.term(x) for x, s in zip(g, sorts) if s == COL]
        rest = self.codes([self.code(self.term(x)) for x, s in zip(g, sorts) if s not in (ROW, COL)])
        if self.flip:
            rows, cols = cols, rows
        return [("rows", *rows), ("cols", *cols), *rest]

    @staticmethod
    def codes(xs):
        """A later code is read under the earlier one."""
        out, last = [], None
        for x in xs:
            if x[0] == "tok" and x[1] == "a":
                if last is not None:
                    x = ("tok", "a", last + "|" + x[2])
                last = x[2]
            out.append(x)
        return out

    @staticmethod
    def code(x):
        """A constant that merely distinguishes cases."""
        if x[0] == "c":
            return ("tok", "a", x[1])
        if x[0] == "s" and x[1] not in DIRWORDS:
            return ("tok", "k", x[1])
        if x[0] == "qs" and len(x) == 2 and x[1][0] == "s" and x[1][1] not in DIRWORDS:
            return ("tok", "a", x[1][1])
        return x

    def term(self, t):
        if not isinstance(t, T):
            return self.val(t)
        op = t.op
        if op == "num":
            return ("c", str(t.a[0]))
        if op == "var":
            return self.var(t.a[0])
        if op == "anon":
            return ("anon",)
        if op == "hole":
            return self.val(t.a[0])
        if op == "str":
            p = t.a[0]
            if isinstance(p, tuple):
                return ("qs", *[("s", self.word(x)) if isinstance(x, str) else self.val(x[1]) for x in p])
            return ("qs", ("s", self.word(p)))
        if op == "const":
            return ("const", self.word(t.a[0]) if isinstance(t.a[0], str) else repr(t.a[0]))
        if op == "neg":
            return ("neg", self.term(t.a[0]))
        if op == "abs":
            return ("abs", self.difference(t.a[0]))
        if op == "bin":
            o, x, y = t.a
            if o in "+*":
                return ("bin", o, ("set", [self.term(x), self.term(y)]))
            return ("bin", o, self.term(x), self.term(y))
        if op == "tuple":
            return ("tuple", ("set", [self.term(x) for x in flat(t.a)]))
        if op == "pool":
            return ("pool", ("set", [self.term(x) for x in flat(t.a)]))
        if op == "interval":
            return ("interval", self.term(t.a[0]), self.term(t.a[1]))
        if op == "fn":
            return ("fn", self.name(t.a[0]), *self.args(t.a[0], t.a[1]))
        return (op, *[self.term(x) if isinstance(x, T) else self.val(x) if not isinstance(x, tuple) else ("t", *[self.term(y) for y in x]) for x in t.a])

    def difference(self, t):
        if isinstance(t, T) and t.op == "bin" and t.a[0] == "-":
            return ("set", [self.term(t.a[1]), self.term(t.a[2])])
        return self.term(t)

    def item(self, x):
        op = x.op
        if op == "lit":
            neg, nm, args = x.a
            if len(args) == 1 and isinstance(args[0], T) and args[0].op == "argpool":
                return ("lit", neg, self.name(nm), ("set", [("args", *self.args(nm, g)) for g in args[0].a]))
            return ("lit", neg, self.name(nm), *self.args(nm, args))
        if op == "cmp":
            parts = [self.term(p) if isinstance(p, T) else p for p in x.a[1]]
            if len(parts) == 3:
                a, o, b = parts
                if o in ("=", "==", "!="):
                    return ("cmp", x.a[0], "=" if o == "==" else o, ("set", [a, b]))
                if o in (">", ">="):
                    a, o, b = b, {">": "<", ">=": "<="}[o], a
                return ("cmp", x.a[0], o, a, b)
            return ("cmp", x.a[0], *parts)
        if op == "cond":
            return ("cond", self.item(x.a[0]), ("set", [self.item(y) for y in x.a[1]]))
        if op == "disj":
            return ("disj", ("set", [self.item(y) for y in x.a]))
        if op == "agg":
            neg, fn, left, elems, right = x.a
            gs = []
            for g, lft in ((left, True), (right, False)):
                if g is None:
                    continue
                t, o = (g[0], g[1]) if isinstance(g[0], T) else (g[1], g[0])
                if lft:
                    o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                gs.append(("g", o, self.term(t) if isinstance(t, T) else self.val(t)))
            return ("agg", neg, fn, ("set", gs), ("set", [self.item(e) for e in elems]))
        if op == "elem":
            ts = [self.term(t) for t in x.a[0]]
            return ("elem", ("set", ts), ("set", [self.item(y) for y in x.a[1]]))
        if op == "rep":
            lid, alts = x.a[0], x.a[1]
            return ("rep", self.loop(lid) if isinstance(lid, int) else self.val(lid), ("set", [("alt", ("set", [self.item(y) for y in alt])) for alt in alts]))
        if op in ("false", "bool"):
            return (op, *map(repr, x.a))
        return self.term(x)

    def rule(self, r, loops, pc):
        t = r.tree
        if t.op == "rule":
            top = [("head", self.item(t.a[0]))] + [("body", self.item(x)) for x in t.a[1]]
        else:
            top = [("dir", t.op, *[self.name(x) if isinstance(x, tuple) else self.term(x) for x in t.a])]
        top += [("pc", self.formula(f)) for f in pc if f is not True]
        for i in r.loops:
            self.loop(i)
        done = set()
        while self.loops - done:
            for i in sorted(self.loops - done):
                done.add(i)
                lp = loops.get(i)
                if lp is None:
                    continue
                if lp.args is not None:
                    x = ("t", *[self.val(y) for y in lp.args])
                else:
                    x = self.val(lp.source)
                top.append(("loop", self.loop(i), lp.kind, x))
        return top


# ------------------------------------------------------------------ anonymous naming
def h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def render(x, col, pi=None):
    """Fixed text of a structure under a naming; pi renames tokens, 'hide' drops them."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "name":
            return col.get(x[1], "?")
        if len(x) == 3 and x[0] == "tok":
            k = ("T", x[1], x[2])
            if k in col:
                return col[k]
            return f"'{x[1]}:{(pi or {}).get((x[1], x[2]), x[2])}"
        if len(x) == 2 and x[0] == "set":
            return "{" + "; ".join(sorted(render(y, col, pi) for y in x[1])) + "}"
        return "(" + " ".join(render(y, col, pi) for y in x) + ")"
    return str(x)


def names_in(x, out, toks=False):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "name":
            out.add(x[1])
        elif len(x) == 3 and x[0] == "tok":
            if toks:
                out.add(("T", x[1], x[2]))
        elif len(x) == 2 and x[0] == "set":
            for y in x[1]:
                names_in(y, out, toks)
        else:
            for y in x:
                names_in(y, out, toks)
    return out


def colours(top, pi=None, toks=False):
    per = [(x, names_in(x, set(), toks)) for x in top]
    allv = set().union(*(n for _, n in per)) if per else set()
    col = {v: (v[0] if v[0] != "T" else "T" + v[1]) for v in allv}
    for _ in range(3):
        new = {}
        for v in allv:
            c2 = dict(col)
            c2[v] = "*"
            new[v] = col[v][:2] + h(sorted(render(x, c2, pi) for x, n in per if v in n))
        col = new
    return col


def canonical(top, pi=None):
    col = colours(top, pi)
    return "\n".join(sorted(render(x, col, pi) for x in top))


def skeleton(top):
    """The rule without its names and codes, and the colours of these."""
    col = colours(top, None, True)
    return "\n".join(sorted(render(x, col) for x in top)), {(k[1], k[2]): c for k, c in col.items() if k[0] == "T"}


def settled(top):
    """Names and codes that play a part of their own in the rule."""
    col = colours(top, None, True)
    by = {}
    for k, c in col.items():
        if k[0] == "T":
            by.setdefault(c, []).append(k)
    return {(ks[0][1], ks[0][2]) for ks in by.values() if len(ks) == 1}


def weaker(top):
    """Without the conditions that only say which earlier case did not apply."""
    return [x for x in top if not (x[0] == "pc" and (x[1][0] == "or" or x[1][0] == "plit" and x[1][1] is False and x[1][2][0] == "eq"))]


def alignments(ck, cf, cap=24):
    """Renamings of f's tokens to k's that respect their colours."""
    import itertools
    groups = {}
    for t, c in ck.items():
        groups.setdefault(c, ([], []))[0].append(t)
    for t, c in cf.items():
        groups.setdefault(c, ([], []))[1].append(t)
    opts = [{}]
    for a, b in groups.values():
        if len(a) != len(b):
            return []
        new = []
        for perm in itertools.permutations(sorted(a)):
            for o in opts:
                d = dict(o)
                d.update(zip(sorted(b), [x[1] for x in perm]))
                new.append(d)
                if len(new) > cap:
                    return []
        opts = new
    return opts


def consistent(pi, inv, d):
    for (k, f), t in d.items():
        if pi.get((k, f), t) != t or inv.get((k, t), f) != f:
            return False
    return True


def extend(K, F, base):
    """One renaming of names and codes under which leftover rules of F become leftover rules of K. K, F: lists of structures."""
    pi = dict(base)
    inv = {(k, t): f for (k, f), t in pi.items()}
    sf = {}
    for i, f in enumerate(F):
        s, c = skeleton(f)
        sf.setdefault(s, []).append((i, c))
    todo = []
    for j, k in enumerate(K):
        s, c = skeleton(k)
        if s in sf:
            todo.append((j, c, sf[s]))
    for strict in (True, False):
        progress = True
        while progress and todo:
            progress = False
            for item in list(todo):
                j, c, cands = item
                ds = []
                for i, cf in cands:
                    for d in alignments(c, cf):
                        if consistent(pi, inv, d) and d not in ds:
                            ds.append(d)
                if not ds:
                    todo.remove(item)
                    continue
                if len(ds) == 1 or not strict:
                    for (k, f), t in ds[0].items():
                        pi[(k, f)] = t
                        inv[(k, t)] = f
                    todo.remove(item)
                    progress = True
                    if not strict:
                        break
    return pi


def implied_by(rest, f):
    from .domain import f_not
    from .state import facts
    try:
        return facts((*rest, f_not(f))).bottom
    except Exception:
        return False


def conjuncts(f):
    if isinstance(f, tuple) and f[0] == "and":
        for g in f[1]:
            yield from conjuncts(g)
    else:
        yield f


def minimal(pc, memo):
    """The conditions that do not follow from the others, without alternatives the others exclude."""
    if pc in memo:
        return memo[pc]
    from .domain import f_or
    from .state import facts
    parts = []
    for f in pc:
        parts.extend(conjuncts(f))
    out = list(dict.fromkeys(f for f in parts if f is not True))
    for i, f in enumerate(out):
        if f is not False and f[0] == "or":
            rest = tuple(out[:i] + out[i + 1:])
            keep = [g for g in f[1] if not facts((*rest, g)).bottom]
            if keep and len(keep) < len(f[1]):
                out[i] = f_or(keep)
    out = list(dict.fromkeys(g for f in out for g in conjuncts(f) if g is not True))
    order = sorted(out, key=lambda f: (f[0] == "lit" and bool(f[2]), f[0] == "lit") if isinstance(f, tuple) else (False, False))
    for f in order:
        rest = [g for g in out if g is not f]
        if implied_by(tuple(rest), f):
            out = rest
    memo[pc] = tuple(out)
    return memo[pc]


def cells_of(rules, terms, sg):
    """Pairs whose first item serves as a row and whose second serves as a column."""
    use = {}
    for r in rules:
        if r.tree.op != "rule":
            continue
        for nm, args in literals(r.tree):
            g = list(flat(args))
            key = (pattern(nm), len(g), tuple(sorted((i, s) for i, a in enumerate(g) for s in [const_str(a)] if s is not None)))
            for i, a in enumerate(g):
                s = sg.lookup(key, i)
                if s is None:
                    continue
                for v in hole_atoms(a):
                    if v.op == "item" and isinstance(v.args[1], Const):
                        use.setdefault(v.args[0], {}).setdefault(v.args[1].v, set()).add(s[0])
    return {b for b, d in use.items() if d.get(0) == {ROW} and d.get(1) == {COL}}


def literals(t):
    from .prog import subterms
    for x in subterms(t):
        if isinstance(x, T) and x.op == "lit":
            yield x.a[1], x.a[2]
        if isinstance(x, T) and x.op == "rep":
            for alt in x.a[1]:
                for y in alt:
                    yield from literals(y)


def hole_atoms(t):
    from .prog import subterms
    for x in subterms(t):
        if isinstance(x, T) and x.op == "hole":
            v = x.a[0]
            if isinstance(v, Sym):
                if v.op == "lin":
                    for y, _ in v.args[0]:
                        if isinstance(y, Sym):
                            yield y
                else:
                    yield v


# ------------------------------------------------------------------ comparing a program with its mirror image
class Image:
    """The rules of one program without a counterpart in its mirror image (alone) and the images without an original (odd)."""

    def __init__(self, rules, alone, odd, pi, loops, make):
        self.rules, self.alone, self.odd, self.pi, self.loops, self.make = rules, alone, odd, pi, loops, make


def compare(res, rules, terms, sg, ws, is_square):
    """alone, odd: lists of (rule, structure)."""
    cells = cells_of(rules, terms, sg)
    from .prog import iter_lits
    known = {pattern(x.a[1]) for r in rules for x, _ in iter_lits(r.tree)}

    def make(r, flip):
        return Canon(ws, sg, flip, cells, is_square(r.pc), known)
    memo = {}
    last = [r for r in rules if r.tree.op == "#show" and not r.loops]
    common = set.intersection(*[set(r.pc) for r in last]) if last else set()
    K, F = {}, {}
    for r in rules:
        pc = [f for f in minimal(r.pc, memo) if f not in common]
        for flip, d in ((False, K), (True, F)):
            top = make(r, flip).rule(r, res.loops, pc)
            d.setdefault(canonical(top), (r, top))
    rk = [v for k, v in K.items() if k not in F]
    rf = [v for k, v in F.items() if k not in K]
    if not rk and not rf:
        return Image(rules, [], [], {}, res.loops, make)
    fixed = set()
    for k in K:
        if k in F:
            fixed |= settled(K[k][1])
    pi = {t: t[1] for t in fixed}
    for wk in (False, True):
        fn = weaker if wk else (lambda x: x)
        pi = extend([fn(t) for _, t in rk], [fn(t) for _, t in rf], pi)
        ck = {canonical(fn(t)): (r, t) for r, t in K.values()}
        cf = {canonical(fn(t), pi): (r, t) for r, t in F.values()}
        rk = [v for k, v in ck.items() if k not in cf]
        rf = [v for k, v in cf.items() if k not in ck]
        if not rk and not rf:
            break
    return Image(rules, rk, rf, pi, res.loops, make)


# ------------------------------------------------------------------ differences
class Blank(dict):
    def get(self, k, d=None):
        return "~" + k[0]


def plain_items(top, pi=None):
    """The parts of a rule with all names blanked."""
    from collections import Counter
    blank = Blank()
    return Counter(blank_render(x, blank, pi) for x in weaker(top))


def blank_render(x, col, pi):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "name":
            return "~" + x[1][0]
        if len(x) == 3 and x[0] == "tok":
            return f"'{x[1]}:{(pi or {}).get((x[1], x[2]), x[2])}"
        if len(x) == 2 and x[0] == "set":
            return "{" + "; ".join(sorted(blank_render(y, col, pi) for y in x[1])) + "}"
        return "(" + " ".join(blank_render(y, col, pi) for y in x) + ")"
    return str(x)


def tokens(s):
    from collections import Counter
    import re
    return Counter(re.findall(r"[(){};]|[^\s(){};]+", s))


TIED = "the same parts are tied together by different variables"
OPS = {"<", "<=", "=", "!=", "+", "-", "*", "True", "False", "row", "col", "0", "1", "#sum", "#count", "#max", "#min", "rows", "cols"}


def small_token(t):
    if t in OPS or t in DIRWORDS or t in DIRS:
        return True
    if t[:3] in ("'p:", "'a:", "'n:", "'k:"):
        return True
    return t.lstrip("-").isdigit()


def unsorted(xs):
    """How many variables stand outside of every (rows ...) and (cols ...) group."""
    import re
    out = []
    for s in xs:
        stack, n = [], 0
        for t in re.findall(r"\(\s*[^\s(){};]*|[){}]|~V", s):
            if t[0] == "(":
                stack.append(t[1:].strip())
            elif t == ")":
                stack = stack[:-1]
            elif t == "~V" and not {"rows", "cols"} & set(stack):
                n += 1
        out.append(n)
    return out


def difference(k, f, pi):
    """None, or a short description of the few places in which two structures differ."""
    a, b = plain_items(k), plain_items(f, pi)
    x, y = list((a - b).elements()), list((b - a).elements())
    if not x and not y:
        return TIED
    if len(x) + len(y) == 1:
        one = (x or y)[0]
        if one.startswith("(body (lit") and "'p:grid " not in one or one.startswith("(body (cmp") or one.startswith("(pc (plit True (eq"):
            return f"{one[:160]} is required on one side only"
        return None
    if len(x) != len(y) or len(x) > 2:
        return None
    ta, tb = sum((tokens(s) for s in x), tokens("")), sum((tokens(s) for s in y), tokens(""))
    if ta["~V"] == tb["~V"] and sorted(unsorted(x)) != sorted(unsorted(y)):
        return None  # a position is of unknown kind on one side
    if len(x) == 1 and moved(ta, tb):
        return f"a position is moved in {x[0][:160]} / {y[0][:160]}"
    for s in "(){};":
        if ta[s] != tb[s]:
            return None
    da, db = list((ta - tb).elements()), list((tb - ta).elements())
    if len(da) > 2 or len(db) > 2 or not all(small_token(t) for t in da + db):
        return None
    if "//" in ta or "%" in ta:
        return None
    if any(s.startswith("(loop") for s in x + y) and not (set(da + db) <= {"row", "col"} or all(t.lstrip("-").isdigit() for t in da + db)):
        return None
    if not da and not db:
        return f"arranged differently: {x[0][:160]} / {y[0][:160]}"
    return f"{' '.join(da) or 'nothing'} on one side, {' '.join(db) or 'nothing'} on the other"


def moved(ta, tb):
    """Whether the two differ by one offset added to a position."""
    import re
    for a, b in ((ta, tb), (tb, ta)):
        if b - a:
            continue
        d = a - b
        ints = [t for t in d if re.fullmatch(r"-?\d+", t)]
        rest = {t: n for t, n in d.items() if t not in ints}
        if 1 <= len(ints) <= 2 and rest in ({"(": 2, ")": 2, "bin": 1, "+": 1, "{": 1, "}": 1, ";": 1, "c": 1}, {"(": 2, ")": 2, "bin": 1, "-": 1, "c": 1},
                                       {"(": 2, ")": 2, "lin": 1, "m": 1, "{": 1, "}": 1}):
            return True
    return False


def predicates(top, pi=None):
    out = set()
    for t in names_in(tuple(top), set(), True):
        if t[0] == "T" and t[1] == "p":
            out.add((pi or {}).get(("p", t[2]), t[2]))
    return out


def verdicts(img):
    """(reports, unclear): rules whose counterpart differs in a detail or is missing; rules about which nothing is said."""
    reports, open_ = [], []
    ka, kb, vague = explained(img, img.make)
    alone = [(r, k) for r, k in img.alone if id(r) not in ka or id(r) not in kb]
    img.odd = [(r, f) for r, f in img.odd if id(r) not in ka or id(r) not in kb]
    img.alone = alone
    for r, k in img.alone:
        best = None
        for r2, f in img.odd:
            if id(r) in ka and id(r2) in kb or r2 is r:
                continue
            d = difference(k, f, img.pi)
            if d is not None and not (d == TIED and (id(r) in vague or id(r2) in vague)):
                best = (r2, d)
                break
        if best:
            reports.append((r, best[0], best[1]))
        else:
            open_.append((r, k))
    unclear = []
    if len(open_) > 4:
        return reports, open_
    images = {id(r): f for r, f in img.odd}
    for r, k in open_:
        rewritten = any(r2 is not r and similar(predicates(k), predicates(images[id(r2)], img.pi)) for r2, _ in open_ if id(r2) in images)
        f = images.get(id(r))
        if rewritten or f is None:
            unclear.append((r, k))
            continue
        d = difference(k, f, img.pi)
        if d == TIED and id(r) in vague:
            unclear.append((r, k))
        elif d is not None:
            reports.append((r, r, d))
        elif oriented(k, f, img.pi):
            reports.append((r, None, "no rule says the same with rows and columns exchanged"))
        else:
            unclear.append((r, k))
    return reports, unclear


def similar(a, b):
    return bool(a | b) and len(a & b) * 2 >= len(a | b)


def oriented(k, f, pi):
    """Whether a rule and its own image differ in nothing but the orientation."""
    a, b = plain_items(k), plain_items(f, pi)
    ta, tb = sum((tokens(s) for s in a.elements()), tokens("")), sum((tokens(s) for s in b.elements()), tokens(""))
    if "//" in ta or "%" in ta:
        return False
    return all(small_token(t) for t in (ta - tb) + (tb - ta))


# ------------------------------------------------------------------ the image of a rule as a rule
class Unmirrored(Exception):
    """No image in the same language."""


LOOPED = {"key", "val", "idx", "cnt", "elem", "celem", "lv", "lout", "nonempty", "loopvar"}


class TreeImage:
    def __init__(self, canon, loops, pi):
        self.c, self.loops, self.pi = canon, loops, pi
        self.ids = {}
        self.out = {}

    def lid(self, i):
        if i not in self.ids:
            self.ids[i] = -1
            lp = self.loops.get(i)
            key = "?" if lp is None else lp.kind + repr([self.value(x) if not isinstance(x, (str, int, tuple)) else x for x in (lp.args or (lp.source,))])
            n = int(h(key)[:7], 16)
            while n in self.out:
                n += 1
            self.ids[i] = n
            self.out[n] = None
            if lp is not None:
                new = type(lp)(n, lp.kind, self.value(lp.source) if lp.source is not None else None, lp.loc,
                               None if lp.args is None else tuple(self.value(x) if not isinstance(x, (str, int)) else x for x in lp.args))
                self.out[n] = new
        return self.ids[i]

    def value(self, v):
        from .domain import V, subst
        return subst(v, self.one) if isinstance(v, V) else v

    def one(self, v):
        from .domain import V, subst
        if isinstance(v, EnumV) and self.c.flip:
            n = DIRS.get(v.name, v.name)
            return EnumV(v.cls, n, None) if n != v.name else None
        if isinstance(v, Const) and isinstance(v.v, str) and self.c.flip and v.v in DIRWORDS:
            return Const(DIRWORDS[v.v])
        if not isinstance(v, Sym):
            return None
        a = v.args
        if v.op == "attr" and len(a) == 2 and a[0] == Sym("puzzle") and a[1] in ("row", "col") and self.c.flip:
            return Sym("attr", a[0], {"row": "col", "col": "row"}[a[1]])
        if v.op in LOOPED and isinstance(a[0], int):
            return Sym(v.op, self.lid(a[0]), *[subst(x, self.one) if isinstance(x, V) else x for x in a[1:]])
        if not self.c.flip:
            return None
        if v.op == "item" and isinstance(a[1], Const) and a[1].v in (0, 1):
            ws = {i: self.c.w(Sym("item", a[0], Const(i)))[0] for i in (0, 1)}
            i = a[1].v
            if {ws[0], ws[1]} == {ROW, COL} or a[0] in self.c.cells:
                i = 1 - i
            return Sym("item", subst(a[0], self.one), Const(i))
        if v.op in ("get", "lookup", "in"):
            return Sym(v.op, *[self.key(x) for x in a])
        return None

    def key(self, x):
        from .domain import V
        if isinstance(x, Tup) and len(x.items) >= 2 and {self.c.w(y)[0] for y in x.items[:2]} <= {ROW, COL, FREE}:
            it = [self.value(y) for y in x.items]
            it[0], it[1] = it[1], it[0]
            return Tup(it)
        return self.value(x) if isinstance(x, V) else x

    def name(self, nm):
        out = []
        if all(isinstance(p, str) or isinstance(p[1], Const) for p in nm):
            t = "".join(p if isinstance(p, str) else str(p[1].v) for p in nm)
            if self.c.flip:
                t = swap_name(t, self.c.known)
                t = self.pi.get(("p", t), t)
            return (t,)
        for p in nm:
            if isinstance(p, str):
                out.append(self.c.piece(p))
            else:
                out.append((p[0], self.value(p[1]), *p[2:]))
        if self.c.flip and sum(not isinstance(p, str) for p in nm) > 1:
            raise Unmirrored
        return tuple(out)

    def key_of(self, nm, g):
        return (pattern(nm), len(g), tuple(sorted((i, s) for i, a in enumerate(g) for s in [const_str(a)] if s is not None)))

    def args(self, nm, args, nm2):
        g = list(flat(args))
        new = [self.term(x) for x in g]
        if not self.c.flip:
            return tuple(new)
        if any(a.op == "rep" for a in args):
            raise Unmirrored
        src = [self.c.sg.lookup(self.key_of(nm, g), i) for i in range(len(g))]
        src = [s[0] if s else None for s in src]
        dst = [self.c.sg.lookup(self.key_of(nm2, new), i) for i in range(len(g))]
        dst = [s[0] if s else None for s in dst]
        if sorted(map(str, dst)) != sorted(map(str, [{ROW: COL, COL: ROW}.get(s, s) for s in src])):
            dst = src
        pools = {ROW: [x for x, s in zip(new, src) if s == COL], COL: [x for x, s in zip(new, src) if s == ROW]}
        rest = [x for x, s in zip(new, src) if s not in (ROW, COL)]
        out = []
        for s in dst:
            p = pools[s] if s in (ROW, COL) else rest
            if not p:
                raise Unmirrored
            out.append(p.pop(0))
        return tuple(out)

    def code(self, x):
        return x

    def term(self, t):
        if isinstance(t, tuple):
            return tuple(self.term(x) for x in t)
        if not isinstance(t, T):
            return t
        op = t.op
        if op == "hole":
            return T("hole", self.value(t.a[0]), *t.a[1:])
        if op == "str":
            p = t.a[0]
            if isinstance(p, tuple):
                return T("str", tuple(self.c.word(x) if isinstance(x, str) else (x[0], self.value(x[1]), *x[2:]) for x in p))
            return T("str", self.c.word(p))
        if op == "const" and isinstance(t.a[0], str):
            return T("const", self.c.word(t.a[0]))
        if op == "fn":
            nm = self.name(t.a[0])
            return T("fn", nm, self.args(t.a[0], t.a[1], nm))
        if op == "lit":
            neg, nm, args = t.a
            nm2 = self.name(nm)
            if len(args) == 1 and isinstance(args[0], T) and args[0].op == "argpool":
                return T("lit", neg, nm2, (T("argpool", *[self.args(nm, x, nm2) for x in args[0].a]),))
            return T("lit", neg, nm2, self.args(nm, args, nm2))
        if op == "rep":
            if not isinstance(t.a[0], int):
                raise Unmirrored
            return T("rep", self.lid(t.a[0]), *[self.term(x) for x in t.a[1:]])
        if op in ("var", "num"):
            return t
        if op.startswith("#"):
            return T(op, *[self.name(x) if isinstance(x, tuple) else self.term(x) if isinstance(x, T) else x for x in t.a])
        return T(op, *[self.term(x) if isinstance(x, (T, tuple)) else x for x in t.a])

    def formula(self, f):
        from .domain import subst_f
        return subst_f(f, self.one) if isinstance(f, tuple) else f


def as_rules(r, canon, loops, pi):
    """Normal forms of a rule (or of its image), or None."""
    from .normal import Unclear, normalise
    try:
        im = TreeImage(canon, loops, pi)
        tree = im.term(r.tree)
        pc = tuple(im.formula(f) for f in r.pc if f is not True)
        for i in r.loops:
            im.lid(i)
        return normalise(tree, im.out, pc, r.loc)
    except (Unclear, Unmirrored):
        return None
    except Exception:
        return None


def explained(img, mk):
    """Rules left over that say the same as the images left over: (ids of rules, ids of rules whose image is accounted for, ids without a normal form)."""
    from .normal import Knowledge, covers
    on = {}
    for r, _ in img.alone + img.odd:
        for nm, args in literals(r.tree) if r.tree.op == "rule" else ():
            p = pattern(nm)
            if p != "grid" and len(args) >= 2:
                on[p] = [(i, i + 1) for i in range(0, len(args) - 1, 2)] if p.startswith("adj_") else [(0, 1)]
    know = Knowledge(on)
    a = {id(r): as_rules(r, mk(r, False), img.loops, img.pi) for r, _ in img.alone}
    b = {id(r): as_rules(r, mk(r, True), img.loops, img.pi) for r, _ in img.odd}
    alla = [n for ns in a.values() if ns for n in ns]
    allb = [n for ns in b.values() if ns for n in ns]

    def known(ns, others):
        return ns is not None and all(any(covers(o, n, know) for o in others) for n in ns)
    vague = {id(r) for r, _ in img.alone + img.odd if nonlinear(r.tree)}
    return {i for i, ns in a.items() if known(ns, allb)}, {i for i, ns in b.items() if known(ns, alla)}, vague | {i for d in (a, b) for i, ns in d.items() if ns is None}


def nonlinear(t):
    from .prog import subterms

    def has_var(x):
        return any(isinstance(y, T) and y.op == "var" for y in subterms(x))
    return any(isinstance(x, T) and x.op == "bin" and x.a[0] in ("*", "/", "\\", "**") and has_var(x.a[1]) and has_var(x.a[2]) for x in subterms(t))
