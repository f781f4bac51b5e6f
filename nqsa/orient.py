"""Abstract evaluation of the shape functions on a shape of unknown cells.

A shape is the image of an unknown finite set S of cells under a linear map M (a 2x2 integer matrix) and a translation; S is known only by its
symmetry group H, one of the ten subgroups of the square's symmetries. Two normalised images M*S and N*S are equal exactly when M and N lie in
the same coset of H, so closures over sets of shapes can be followed for every shape at once. Control flow over such sets is then known; a
condition about single cells is not, and both branches are recorded under a guard.
"""
import ast

ONE = ((1, 0), (0, 1))
ROT = ((0, -1), (1, 0))
FLIP = ((-1, 0), (0, 1))


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in (0, 1)) for j in (0, 1)) for i in (0, 1))


def inv(a):
    return ((a[0][0], a[1][0]), (a[0][1], a[1][1]))  # orthogonal


def det(a):
    return a[0][0] * a[1][1] - a[0][1] * a[1][0]


def generate(gens):
    g = {ONE}
    while True:
        n = g | {mul(a, b) for a in g for b in gens}
        if n == g:
            return frozenset(g)
        g = n


D4 = generate([ROT, FLIP])
SUBGROUPS = sorted({generate([a, b]) for a in D4 for b in D4}, key=lambda g: (len(g), sorted(g)))


class Abort(Exception):
    """Outside the analysed fragment."""


class Unanchored(Abort):
    """The outcome depends on the order in which the cells of a shape are listed."""


class Lin:
    """Integer combination of 'x', 'y' (the coordinates of the generic cell of S) and anchor symbols."""

    __slots__ = ("t", "k")

    def __init__(self, t=None, k=0):
        self.t = {a: b for a, b in (t or {}).items() if b}
        self.k = k

    def key(self):
        return (tuple(sorted(self.t.items(), key=str)), self.k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.k if not self.t else None

    def xy(self):
        return (self.t.get("x", 0), self.t.get("y", 0))

    def rest(self):
        return Lin({a: b for a, b in self.t.items() if a not in ("x", "y")}, self.k)

    def __repr__(self):
        return " + ".join([f"{b}*{a}" for a, b in sorted(self.t.items(), key=str)] + [str(self.k)])


def lin(v):
    return v if isinstance(v, Lin) else Lin(None, v) if isinstance(v, int) and not isinstance(v, bool) else None


def add(a, b, s=1):
    t = dict(a.t)
    for x, n in b.t.items():
        t[x] = t.get(x, 0) + s * n
    return norm(Lin(t, a.k + s * b.k))


def scale(a, n):
    return norm(Lin({x: n * m for x, m in a.t.items()}, a.k * n))


def norm(v):
    return v.k if isinstance(v, Lin) and not v.t else v


class Cells:
    """{(fr, fc) : (x, y) in S}; kind: list, tuple, set, gen; ordered: sorted by (row, column)."""

    def __init__(self, fr, fc, kind="gen", ordered=False):
        self.fr, self.fc, self.kind, self.ordered = lin(fr), lin(fc), kind, ordered

    def matrix(self):
        m = (self.fr.xy(), self.fc.xy())
        return m if m in D4 else None

    def offset(self):
        return (self.fr.rest(), self.fc.rest())

    def anchor(self):
        """The smallest cell."""
        m = self.matrix()
        if m is None:
            raise Abort("the image of a shape under a map that is no symmetry")
        o = self.offset()
        return (add(Lin({("min", m[0]): 1}), o[0]), add(Lin({("lex", m): 1}), o[1]))

    def normal(self):
        """Which anchor is put at (0, 0), when the shape is normalised."""
        m = self.matrix()
        if m is None:
            return None
        r, c = self.offset()
        if r == Lin({("min", m[0]): -1}):
            if c == Lin({("lex", m): -1}):
                return "smallest cell"
            if c == Lin({("min", m[1]): -1}):
                return "corner"
        return None

    def same(self, o, sym):
        a, b = self.matrix(), o.matrix()
        if a is None or b is None:
            raise Abort("comparison of distorted shapes")
        if mul(inv(a), b) not in sym:
            return False
        if self.kind != o.kind and not {self.kind, o.kind} <= {"set", "frozenset"}:
            return False
        if self.kind in ("list", "tuple") and not (self.ordered and o.ordered):
            if (a, self.offset()) == (b, o.offset()) and self.ordered == o.ordered:
                return True
            raise Unanchored("comparison of unordered shapes")
        if self.normal() and self.normal() == o.normal():
            return True
        if (a, self.offset()) == (b, o.offset()):
            return True
        if any(isinstance(x, tuple) and x[0] == "any" for f in (*self.offset(), *o.offset()) for x in f.t):
            raise Unanchored("comparison of shapes anchored at an arbitrary cell")
        raise Abort("comparison of shapes at unknown distance")

    def __repr__(self):
        return f"Cells({self.fr}, {self.fc})"


class Vals:
    """{f : (x, y) in S}"""

    def __init__(self, f):
        self.f = lin(f)


class Text:
    """Concatenation of literal text, numbers and joins."""

    def __init__(self, parts=()):
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != "":
                self.parts.append(p)
        self.parts = tuple(self.parts)

    def __eq__(self, o):
        return isinstance(o, Text) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else f"<{p!r}>" for p in self.parts)


def text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text([v])
    if isinstance(v, (int, type(None))):
        return Text([str(v)])
    if isinstance(v, Lin):
        return Text([v])
    if isinstance(v, Atom):
        return Text([v])
    raise Abort(f"text of {type(v).__name__}")


class Atom:
    """An unknown word or number given by the caller."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Join:
    """Elements joined by a separator; some quantified over the cells or guarded."""

    def __init__(self, sep, items):
        self.sep, self.items = sep, tuple(items)

    def __repr__(self):
        return f"join({self.sep!r}, {list(self.items)!r})"


class Item:
    """An element of a collection: value, whether it stands for one element per cell, and the guards it was added under."""

    def __init__(self, v, each, guards):
        self.v, self.each, self.guards = v, each, tuple(guards)

    def __repr__(self):
        return f"{'each ' if self.each else ''}{self.v!r}{' if ' + str(len(self.guards)) if self.guards else ''}"


class Coll:
    """A mutable collection: items with known membership (list or set semantics)."""

    def __init__(self, kind, items=()):
        self.kind, self.items = kind, list(items)


class Unsure:
    """A truth value that depends on the cells."""

    def __init__(self, what):
        self.what = what


class Fn:
    def __init__(self, node, env, ev):
        self.node, self.env, self.ev = node, env, ev


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Raised(Exception):
    pass


class Env(dict):
    def __init__(self, parent=None):
        super().__init__()
        self.parent = parent
        self.outer = set()

    def find(self, n):
        e = self
        while e is not None:
            if n in e:
                return e
            e = e.parent
        return None


class Eval:
    def __init__(self, repo, modname, sym):
        self.repo, self.modname, self.sym = repo, modname, sym
        self.guards = []
        self.each = 0
        self.steps = 0

    # ------------------------------------------------------------ functions
    def lookup(self, modname, name):
        m = self.repo.modules.get(modname)
        if m is None:
            return None
        if name in m.defs and isinstance(m.defs[name], ast.FunctionDef):
            ev = self
            if modname != self.modname:
                ev = Eval(self.repo, modname, self.sym)
                ev.guards, ev.each = self.guards, self.each
            return Fn(m.defs[name], None, ev)
        imp = m.imports.get(name)
        if imp and imp[0] == "from" and imp[1] in self.repo.modules:
            return self.lookup(imp[1], imp[2])
        if imp:
            return ("ext", imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}")
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                if any(isinstance(t, ast.Name) and t.id == name for t in ts) and st.value is not None:
                    return self.ev(st.value, Env())
        return None

    def call_fn(self, f, args, kw):
        if f.ev is not self:
            f.ev.guards, f.ev.each, f.ev.steps = self.guards, self.each, self.steps
            return f.ev.call_fn(f, args, kw)
        a = f.node.args
        env = Env(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.kwarg:
            raise Abort("variable arguments")
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise Raised()
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, v in zip(names, args):
            env[n] = v
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                defs[n] = d
        env.update(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defs:
                    raise Abort(f"missing argument {n}")
                env[n] = self.ev(defs[n], Env(f.env))
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            env["$yield"] = Coll("list")
            try:
                self.block(f.node.body, env)
            except Ret:
                pass
            return self.settle(env["$yield"], "gen")
        try:
            self.block(f.node.body, env)
        except Ret as r:
            return r.v
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 200000:
            raise Abort("step budget (a loop that does not end?)")
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Abort(type(st).__name__)
        m(st, env)

    def st_Expr(self, st, env):
        if not isinstance(st.value, ast.Constant):
            self.ev(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Import(self, st, env):
        pass

    st_ImportFrom = st_Global = st_Import

    def st_Nonlocal(self, st, env):
        env.outer |= set(st.names)

    def st_FunctionDef(self, st, env):
        env[st.name] = Fn(st, env, self)

    def st_Return(self, st, env):
        if self.guards and self.each:
            raise Abort("return that depends on the cells")
        raise Ret(self.ev(st.value, env) if st.value is not None else None)

    def st_Raise(self, st, env):
        raise Raised()

    def st_Assert(self, st, env):
        pass

    def st_Break(self, st, env):
        raise Brk()

    def st_Continue(self, st, env):
        raise Cont()

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.bind(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.bind(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        cur = self.ev(ast.copy_location(ast.Name(st.target.id, ast.Load()), st), env) if isinstance(st.target, ast.Name) else self.ev(st.target, env)
        v = self.ev(st.value, env)
        if isinstance(cur, Coll) and isinstance(st.op, (ast.BitOr, ast.Add)):
            for it in self.items(v):
                self.put(cur, it)
            return
        self.bind(st.target, self.binop(st.op, cur, v), env)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            tgt = env
            if t.id in env.outer:
                tgt = env.parent.find(t.id) or env
            old = tgt.get(t.id)
            if self.each and old is not None and tgt.get("$each:" + t.id) is None and not same_value(old, v) and t.id not in tgt.get("$loopvars", ()):
                raise Abort(f"{t.id} is carried from cell to cell")
            if self.each:
                tgt["$each:" + t.id] = True
            tgt[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Coll):
                v = tuple(i.v for i in v.items)
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Abort("unpacking")
            for x, y in zip(t.elts, v):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            b, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(b, dict) and not self.each and not self.guards and hashable(i):
                b[i] = v
            else:
                raise Abort("item assignment")
        else:
            raise Abort("assignment target")

    def st_If(self, st, env):
        c = self.truth(self.ev(st.test, env))
        if isinstance(c, Unsure):
            for neg, b in ((False, st.body), (True, st.orelse)):
                self.guards.append((c.what, neg))
                try:
                    self.block(b, env)
                except (Brk, Cont, Ret):
                    raise Abort("jump that depends on the cells")
                except Raised:
                    pass
                finally:
                    self.guards.pop()
        else:
            self.block(st.body if c else st.orelse, env)

    def st_While(self, st, env):
        n = 0
        while True:
            c = self.truth(self.ev(st.test, env))
            if isinstance(c, Unsure):
                raise Abort("loop that depends on the cells")
            if not c:
                self.block(st.orelse, env)
                return
            n += 1
            if n > 3000:
                raise Abort("loop that does not end")
            try:
                self.block(st.body, env)
            except Brk:
                return
            except Cont:
                pass

    def st_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, (Cells, Vals)):
            self.each += 1
            lv = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
            env["$loopvars"] = set(env.get("$loopvars", ())) | lv
            try:
                self.bind(st.target, (norm(it.fr), norm(it.fc)) if isinstance(it, Cells) else norm(it.f), env)
                self.block(st.body, env)
            except Brk:
                raise Abort("break that depends on the cells")
            except Cont:
                if self.guards:
                    raise Abort("continue that depends on the cells")
            finally:
                self.each -= 1
            return
        lv = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        env["$loopvars"] = set(env.get("$loopvars", ())) | lv
        for item in self.items(it):
            if item.each or item.guards:
                raise Abort("loop over a collection that depends on the cells")
            try:
                self.bind(st.target, item.v, env)
                self.block(st.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(st.orelse, env)

    # ------------------------------------------------------------ collections
    def eq(self, a, b):
        if isinstance(a, Cells) and isinstance(b, Cells):
            return a.same(b, self.sym)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else Unsure("eq")
        if isinstance(a, Coll) and isinstance(b, Coll):
            if a.kind != b.kind:
                return False
            for x, y in ((a, b), (b, a)):
                if not all(self.has(y, i.v) is True for i in x.items):
                    return False
            return len(a.items) == len(b.items)
        if isinstance(a, Lin) or isinstance(b, Lin):
            x, y = lin(a), lin(b)
            if x is None or y is None:
                return False
            d = lin(add(x, y, -1))
            return True if d == Lin() else False if not d.t else Unsure(("eq", d.key()))
        if isinstance(a, Atom) or isinstance(b, Atom):
            return a is b or Unsure(("atom", repr(a), repr(b)))
        if isinstance(a, (Text, str)) and isinstance(b, (Text, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            a, b = text(a), text(b)
            return True if a == b else False if skeleton(a) != skeleton(b) else Unsure("text")
        if type(a) is not type(b) and not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
            return False
        if isinstance(a, Fn):
            return a is b
        return a == b

    def has(self, coll, v):
        if isinstance(coll, Cells):
            return Unsure(("in", repr(v)))
        for i in self.items(coll):
            e = self.eq(i.v, v)
            if e is True:
                return True if not i.guards else Unsure("member")
            if isinstance(e, Unsure):
                return e
        return False

    def items(self, v):
        if isinstance(v, Coll):
            return list(v.items)
        if isinstance(v, dict):
            return [Item(k, 0, ()) for k in v]
        if isinstance(v, (tuple, list, range, str)):
            return [Item(x, 0, ()) for x in v]
        if isinstance(v, Cells):
            return [Item((norm(v.fr), norm(v.fc)), 1, ())]
        if isinstance(v, Vals):
            return [Item(norm(v.f), 1, ())]
        raise Abort(f"iteration over {type(v).__name__}")

    def put(self, coll, item):
        if coll.kind in ("set", "frozenset"):
            for i in coll.items:
                if i.each == item.each and self.eq(i.v, item.v) is True:
                    if i.guards and not item.guards:
                        i.guards = ()
                    elif i.guards == item.guards or not i.guards:
                        return
        coll.items.append(item)

    def settle(self, c, kind):
        """A collection that holds one two-number element per cell is a shape; one number per cell, a set of numbers."""
        if isinstance(c, Cells):
            return Cells(c.fr, c.fc, kind, c.ordered if kind in ("list", "tuple", "gen") else False)
        if isinstance(c, Coll) and len(c.items) == 1 and c.items[0].each and not c.items[0].guards:
            v = c.items[0].v
            if isinstance(v, tuple) and len(v) == 2 and all(lin(x) is not None for x in v):
                return Cells(v[0], v[1], kind)
            if lin(v) is not None:
                return Vals(v)
        return c

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Abort(type(n).__name__)
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def ex_Name(self, n, env):
        e = env.find(n.id)
        if e is not None:
            v = e[n.id]
            if isinstance(v, Coll) and not self.each:
                s = self.settle(v, v.kind)
                return s
            return v
        v = self.lookup(self.modname, n.id)
        if v is None:
            return ("ext", n.id)
        return v

    def ex_Tuple(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                its = self.items(self.ev(e.value, env))
                if any(i.each or i.guards for i in its):
                    raise Abort("star of cells")
                out += [i.v for i in its]
            else:
                out.append(self.ev(e, env))
        return tuple(out)

    def ex_List(self, n, env):
        c = Coll("list")
        for v in self.ex_Tuple(n, env):
            self.put(c, Item(v, 0, ()))
        return c

    def ex_Set(self, n, env):
        c = Coll("set")
        for v in self.ex_Tuple(n, env):
            self.put(c, Item(v, 0, ()))
        return c

    def ex_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, env)
            if not hashable(kk):
                raise Abort("dictionary key")
            out[kk] = self.ev(v, env)
        return out

    def ex_Lambda(self, n, env):
        return Fn(n, env, self)

    def ex_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.bind(n.target, v, env)
        return v

    def ex_IfExp(self, n, env):
        c = self.truth(self.ev(n.test, env))
        if isinstance(c, Unsure):
            raise Abort("value that depends on the cells")
        return self.ev(n.body if c else n.orelse, env)

    def ex_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, None, 115):
                    raise Abort("format")
                parts += text(self.ev(v.value, env)).parts
        t = Text(parts)
        return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else "" if not t.parts else t

    def ex_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            return Unsure(("not", c.what)) if isinstance(c, Unsure) else not c
        if isinstance(n.op, ast.USub) and lin(v) is not None:
            return scale(lin(v), -1)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Abort("operator")

    def ex_BoolOp(self, n, env):
        conj = isinstance(n.op, ast.And)
        unsure = []
        v = None
        for x in n.values:
            v = self.ev(x, env)
            c = self.truth(v)
            if isinstance(c, Unsure):
                unsure.append(c.what)
            elif c != conj:
                return v if not unsure else c
        if len(unsure) == 1:
            return Unsure(unsure[0])
        return Unsure((type(n.op).__name__, tuple(map(str, unsure)))) if unsure else v

    def ex_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        x, y = lin(a), lin(b)
        if x is not None and y is not None:
            if isinstance(op, ast.Add):
                return add(x, y)
            if isinstance(op, ast.Sub):
                return add(x, y, -1)
            if isinstance(op, ast.Mult):
                if x.const() is not None:
                    return scale(y, x.k)
                if y.const() is not None:
                    return scale(x, y.k)
            if x.const() is not None and y.const() is not None:
                f = {ast.FloorDiv: lambda: x.k // y.k, ast.Mod: lambda: x.k % y.k, ast.Pow: lambda: x.k ** y.k, ast.BitXor: lambda: x.k ^ y.k,
                     ast.BitAnd: lambda: x.k & y.k, ast.BitOr: lambda: x.k | y.k}.get(type(op))
                if f:
                    return f()
            raise Abort("arithmetic")
        if isinstance(op, ast.Add):
            if isinstance(a, (Text, str, Join)) or isinstance(b, (Text, str)):
                t = Text(text(a).parts + text(b).parts)
                return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t if t.parts else ""
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Coll) and isinstance(b, Coll):
                return Coll("list", a.items + b.items)
        if isinstance(a, Coll) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            out = Coll(a.kind)
            if isinstance(op, ast.BitOr):
                for i in a.items + self.items(b):
                    self.put(out, i)
                return out
            for i in a.items:
                h = self.has(b, i.v)
                if isinstance(h, Unsure):
                    raise Abort("set operation")
                if h == isinstance(op, ast.BitAnd):
                    self.put(out, i)
            return out
        if isinstance(op, ast.Mult) and (isinstance(a, str) and isinstance(b, int)):
            return a * b
        raise Abort("operator")

    def truth(self, v):
        if isinstance(v, Unsure):
            return v
        if isinstance(v, Coll):
            return bool(v.items) if not any(i.guards for i in v.items) or not v.items else Unsure("non-empty")
        if isinstance(v, (Cells, Vals, Fn)):
            return True
        if isinstance(v, Lin):
            return Unsure(("nonzero", v.key()))
        if isinstance(v, Atom):
            return Unsure(("atom", v.name))
        if isinstance(v, Text):
            return True
        return bool(v)

    def ex_Compare(self, n, env):
        left = self.ev(n.left, env)
        unsure = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            c = self.cmp(op, left, right)
            if isinstance(c, Unsure):
                unsure = c
            elif not c:
                return False
            left = right
        return unsure if unsure is not None else True

    def cmp(self, op, a, b):
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            c = self.eq(a, b)
        elif isinstance(op, (ast.In, ast.NotIn)):
            c = self.has(b, a)
        else:
            x, y = lin(a), lin(b)
            if x is not None and y is not None:
                d = lin(add(x, y, -1))
                if not d.t:
                    return {ast.Lt: d.k < 0, ast.LtE: d.k <= 0, ast.Gt: d.k > 0, ast.GtE: d.k >= 0}[type(op)]
                if d.rest().t == {("min", d.xy()): -1}:  # a coordinate minus the smallest one: at least d.k
                    if isinstance(op, (ast.GtE, ast.Lt)) and d.k >= 0 or isinstance(op, (ast.Gt, ast.LtE)) and d.k > 0:
                        return isinstance(op, (ast.GtE, ast.Gt))
                return Unsure((type(op).__name__, d.key()))
            if isinstance(a, tuple) and isinstance(b, tuple):
                if all(isinstance(z, (int, str)) for z in a + b):
                    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
                if len(a) == len(b) and all(lin(z) is not None for z in a + b):
                    ds = [lin(add(lin(x), lin(y), -1)) for x, y in zip(a, b)]
                    if not any(d.t for d in ds):  # a known distance apart
                        k = tuple(d.k for d in ds)
                        o = (0,) * len(k)
                        return {ast.Lt: k < o, ast.LtE: k <= o, ast.Gt: k > o, ast.GtE: k >= o}[type(op)]
                return Unsure((type(op).__name__, repr(a), repr(b)))
            raise Abort("comparison")
        if isinstance(c, Unsure):
            return Unsure(("not", c.what)) if neg else c
        return c != neg

    def ex_Subscript(self, n, env):
        b = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo, hi, st = (self.ev(x, env) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step))
            if isinstance(b, (tuple, list, str)):
                return b[slice(lo, hi, st)]
            if isinstance(b, Coll) and b.kind == "list" and not any(i.each or i.guards for i in b.items):
                return Coll("list", b.items[slice(lo, hi, st)])
            if isinstance(b, Cells) and (lo, hi, st) == (None, None, None):
                return b
            raise Abort("slice")
        i = self.ev(n.slice, env)
        if isinstance(b, Cells):
            if i == 0 and b.ordered:
                return b.anchor()
            if i == 0 and b.kind in ("list", "tuple"):
                return (Lin({("any", 0, id(b)): 1}), Lin({("any", 1, id(b)): 1}))  # the cell listed first
            raise Abort("a cell of an unordered shape")
        if isinstance(b, Coll) and isinstance(i, int) and not any(x.each or x.guards for x in b.items):
            return b.items[i].v
        if isinstance(b, (tuple, list, str)) and isinstance(i, int):
            return b[i]
        if isinstance(b, dict) and hashable(i):
            if i in b:
                return b[i]
            raise Raised()
        raise Abort("subscript")

    def comp(self, n, env, kind):
        c = Coll(kind)
        self.gen(n, 0, Env(env), c)
        if kind == "set" or not self.each:
            return self.settle(c, kind)
        return self.settle(c, kind)

    def gen(self, n, k, env, out, src=None):
        if k == len(n.generators):
            v = self.ev(n.elt, env)
            self.put(out, Item(v, 1 if self.each > self.base else 0, self.guards[self.gbase:]))
            return
        g = n.generators[k]
        it = self.ev(g.iter, env)
        if k == 0:
            saved = getattr(self, "base", 0), getattr(self, "gbase", 0)
            self.base, self.gbase = self.each, len(self.guards)
        try:
            if isinstance(it, (Cells, Vals)):
                self.each += 1
                e2 = Env(env)
                try:
                    self.bind(g.target, (norm(it.fr), norm(it.fc)) if isinstance(it, Cells) else norm(it.f), e2)
                    self.filters(n, k, g, e2, out)
                finally:
                    self.each -= 1
            else:
                for i in self.items(it):
                    if i.each or i.guards:
                        raise Abort("comprehension over a collection that depends on the cells")
                    e2 = Env(env)
                    self.bind(g.target, i.v, e2)
                    self.filters(n, k, g, e2, out)
        finally:
            if k == 0:
                self.base, self.gbase = saved

    def filters(self, n, k, g, env, out):
        pushed = 0
        try:
            for c in g.ifs:
                t = self.truth(self.ev(c, env))
                if isinstance(t, Unsure):
                    self.guards.append((t.what, False))
                    pushed += 1
                elif not t:
                    return
            self.gen(n, k + 1, env, out)
        finally:
            for _ in range(pushed):
                self.guards.pop()

    def keep_order(self, n, env, v):
        """A comprehension that only translates a sorted shape keeps its order."""
        if isinstance(v, Cells) and len(n.generators) == 1 and not n.generators[0].ifs:
            src = self.ev(n.generators[0].iter, env)
            if isinstance(src, Cells) and src.ordered and src.matrix() == v.matrix():
                return Cells(v.fr, v.fc, v.kind, True)
        return v

    def ex_ListComp(self, n, env):
        return self.keep_order(n, env, self.comp(n, env, "list"))

    def ex_GeneratorExp(self, n, env):
        v = self.comp(n, env, "gen")
        return self.keep_order(n, env, v)

    def ex_SetComp(self, n, env):
        return self.comp(n, env, "set")

    def ex_DictComp(self, n, env):
        raise Abort("dict comprehension")

    def ex_Attribute(self, n, env):
        b = self.ev(n.value, env)
        if isinstance(b, tuple) and b and b[0] == "ext":
            return ("ext", b[1] + "." + n.attr)
        return ("method", b, n.attr)

    def ex_Starred(self, n, env):
        raise Abort("star")

    def ex_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        self.put(env.find("$yield")["$yield"], Item(v, 1 if self.each else 0, self.guards))
        return None

    def ex_YieldFrom(self, n, env):
        for i in self.items(self.ev(n.value, env)):
            self.put(env.find("$yield")["$yield"], i)
        return None

    def ex_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                its = self.items(self.ev(a.value, env))
                if any(i.each or i.guards for i in its):
                    raise Abort("star of cells")
                args += [i.v for i in its]
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Abort("** call")
            kw[k.arg] = self.ev(k.value, env)
        return self.apply(f, args, kw)

    def apply(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, tuple) and f and f[0] == "method":
            return self.method(f[1], f[2], args, kw)
        if isinstance(f, tuple) and f and f[0] == "ext":
            return self.ext(f[1], args, kw)
        raise Abort("call of an unknown function")

    def ext(self, name, a, kw):
        name = name.split(".")[-1]
        if name in ("tuple", "list", "set", "frozenset", "deque"):
            kind = "list" if name == "deque" else name
            if not a:
                return () if name == "tuple" else Coll("set" if name == "frozenset" else kind)
            v = a[0]
            if isinstance(v, Cells):
                return Cells(v.fr, v.fc, kind, v.ordered and kind in ("list", "tuple"))
            its = self.items(v)
            if name == "tuple" and not any(i.each or i.guards for i in its):
                return tuple(i.v for i in its)
            c = Coll("set" if name in ("set", "frozenset") else "list")
            for i in its:
                self.put(c, Item(i.v, i.each, i.guards))
            return self.settle(c, kind)
        if name == "sorted":
            if isinstance(a[0], Cells):
                if set(kw) == {"key"}:
                    k = self.apply(kw["key"], [(a[0].fr, a[0].fc)], {})
                    k = k if isinstance(k, tuple) else (k,)
                    if len(k) == 1 and isinstance(k[0], Lin):  # ties keep the order in which they were listed
                        return Cells(a[0].fr, a[0].fc, "list", False)
                    if k != (a[0].fr, a[0].fc):
                        raise Abort("sorted with a key")
                elif kw:
                    raise Abort("sorted with a key")
                return Cells(a[0].fr, a[0].fc, "list", True)
            its = self.items(a[0])
            if any(i.each or i.guards for i in its):
                return Coll("list", its)
            if all(isinstance(i.v, (int, str)) for i in its) and "key" not in kw:
                return Coll("list", sorted(its, key=lambda i: i.v, reverse=bool(kw.get("reverse"))))
            return Coll("list", its)
        if name in ("min", "max"):
            v = a[0] if len(a) == 1 else Coll("list", [Item(x, 0, ()) for x in a])
            if kw:
                raise Abort("min with a key")
            if isinstance(v, Cells):
                if name == "min":
                    return v.anchor()
                raise Abort("max of cells")
            if isinstance(v, Vals):
                xy, rest = v.f.xy(), v.f.rest()
                if name == "min":
                    return add(Lin({("min", xy): 1}), rest)
                return add(Lin({("min", tuple(-z for z in xy)): -1}), rest)
            its = self.items(v)
            if all(isinstance(i.v, int) and not i.each for i in its):
                return (min if name == "min" else max)(i.v for i in its)
            raise Abort(name)
        if name == "len":
            v = a[0]
            if isinstance(v, (Cells, Vals)):
                return Lin({"size": 1})
            if isinstance(v, Coll) and any(i.each or i.guards for i in v.items):
                return Lin({"size": 1})
            return len(self.items(v))
        if name == "range":
            if all(isinstance(x, int) for x in a):
                return range(*a)
            raise Abort("range")
        if name == "enumerate":
            s = kw.get("start", a[1] if len(a) > 1 else 0)
            return Coll("list", [Item((s + k, i.v), i.each, i.guards) for k, i in enumerate(self.items(a[0]))])
        if name == "zip":
            if any(isinstance(x, (Cells, Vals)) for x in a):
                raise Abort("zip of cells")
            return Coll("list", [Item(tuple(x.v for x in t), 0, ()) for t in zip(*[self.items(x) for x in a])])
        if name == "product":
            import itertools
            its = [self.items(x) for x in a] * kw.get("repeat", 1)
            return Coll("list", [Item(tuple(x.v for x in t), 0, ()) for t in itertools.product(*its)])
        if name == "map":
            out = Coll("list")
            src = a[1]
            if isinstance(src, (Cells, Vals)):
                self.each += 1
                try:
                    v = self.apply(a[0], [(norm(src.fr), norm(src.fc)) if isinstance(src, Cells) else norm(src.f)], {})
                finally:
                    self.each -= 1
                r = self.settle(Coll("list", [Item(v, 1, ())]), "gen")
                if isinstance(r, Cells) and isinstance(src, Cells) and src.ordered and r.matrix() == src.matrix():
                    r.ordered = True
                return r
            for i in self.items(src):
                out.items.append(Item(self.apply(a[0], [i.v], {}), i.each, i.guards))
            return out
        if name in ("any", "all"):
            un = False
            for i in self.items(a[0]):
                t = self.truth(i.v)
                if isinstance(t, Unsure) or i.guards:
                    un = True
                elif t == (name == "any"):
                    return t
            return Unsure(name) if un else name == "all"
        if name == "isinstance":
            v, t = a
            names = [x[1] for x in (t if isinstance(t, tuple) and t and t[0] != "ext" else (t,)) if isinstance(x, tuple)]
            py = {"int": (int, Lin), "str": (str, Text), "tuple": (tuple,), "list": (list,), "bool": (bool,), "set": (set,)}
            if isinstance(v, (Cells, Coll, Atom)):
                raise Abort("isinstance")
            return any(isinstance(v, py.get(x.split(".")[-1], ())) for x in names)
        if name == "str":
            t = text(a[0])
            return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t
        if name in ("int", "iter", "bool") and a and isinstance(a[0], (int, Coll, Cells)):
            return a[0] if name != "bool" else self.truth(a[0])
        if name == "abs" and isinstance(a[0], int):
            return abs(a[0])
        if name == "partial":
            raise Abort("partial")
        if name in ("chain", "from_iterable"):
            out = Coll("list")
            for x in (a if name == "chain" else [i.v for i in self.items(a[0])]):
                out.items += self.items(x)
            return out
        if name == "ValueError":
            return None
        raise Abort(f"function {name}")

    def method(self, b, name, a, kw):
        if isinstance(b, Coll):
            if name in ("add", "append", "appendleft"):
                each = 1 if self.each else 0
                if self.guards and not each and not getattr(self, "soft", False):
                    pass
                self.put(b, Item(a[0], each, self.guards))
                return None
            if name in ("update", "extend"):
                for x in a:
                    for i in self.items(x):
                        self.put(b, Item(i.v, 1 if i.each or self.each else 0, tuple(i.guards) + tuple(self.guards)))
                return None
            if name == "union":
                out = Coll("set")
                for i in b.items + [i for x in a for i in self.items(x)]:
                    self.put(out, i)
                return out
            if name in ("difference", "intersection"):
                return self.binop(ast.Sub() if name == "difference" else ast.BitAnd(), b, a[0])
            if name == "issubset":
                return all(self.has(a[0], i.v) is True for i in b.items)
            if name == "copy":
                return Coll(b.kind, b.items)
            if name in ("pop", "popleft") and not self.each and not self.guards:
                if any(i.each or i.guards for i in b.items):
                    raise Abort("pop")
                if not b.items:
                    raise Raised()
                k = 0 if name == "popleft" or b.kind == "set" else (a[0] if a else -1)
                return b.items.pop(k).v
            if name == "clear":
                b.items.clear()
                return None
            if name == "sort" and not kw:
                return None
        if isinstance(b, Cells) and name == "sort":
            raise Abort("sort in place")
        if isinstance(b, dict):
            if name == "items":
                return Coll("list", [Item((k, v), 0, ()) for k, v in b.items()])
            if name == "values":
                return Coll("list", [Item(v, 0, ()) for v in b.values()])
            if name == "keys":
                return Coll("list", [Item(k, 0, ()) for k in b])
            if name == "get" and hashable(a[0]):
                return b.get(a[0], a[1] if len(a) > 1 else None)
        if isinstance(b, (str, Text)) and name == "join":
            its = self.items(a[0])
            if isinstance(b, str) and all(isinstance(i.v, str) and not i.each and not i.guards for i in its):
                return b.join(i.v for i in its)
            if isinstance(b, str) and all(isinstance(i.v, (str, Text)) and not i.each and not i.guards for i in its):
                flat = []
                for n, i in enumerate(its):
                    flat += ([b] if n else []) + list(text(i.v).parts)
                return Text(flat)
            return Text([Join(b, its)])
        if isinstance(b, (str, Text)) and name in ("strip", "rstrip", "lstrip") and not a:
            return getattr(b, name)() if isinstance(b, str) else b
        if isinstance(b, str) and all(isinstance(x, (str, int)) for x in a) and name in ("startswith", "endswith", "replace", "lower", "upper", "split", "isdigit"):
            r = getattr(b, name)(*a)
            return Coll("list", [Item(x, 0, ()) for x in r]) if isinstance(r, list) else r
        raise Abort(f"method {name} of {type(b).__name__}")


def hashable(v):
    return isinstance(v, (int, str, type(None))) or isinstance(v, tuple) and all(hashable(x) for x in v)


def same_value(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def skeleton(t):
    return tuple(p for p in t.parts if isinstance(p, str))


def shape():
    return Cells(Lin({"x": 1}), Lin({"y": 1}), "tuple", False)
