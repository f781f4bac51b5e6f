"""Parser for the (templated) answer-set programs noqx emits.

Input: flat template nodes L/H/R/S.  Holes become terms, parts of names or parts of quoted strings.
A repetition is parsed as a group of alternative element templates.
"""
import re


class AspError(Exception):
    pass


class T:
    """syntax tree node: (op, *args)"""
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __repr__(self):
        return show(self)

    def __eq__(self, o):
        return isinstance(o, T) and self.op == o.op and self.a == o.a

    def __hash__(self):
        return hash((self.op, self.a))


def show(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(map(show, t)) + ")"
        return str(t)
    return f"{t.op}[" + ", ".join(map(show, t.a)) + "]"


# ------------------------------------------------------------------ tokens
TOKEN = re.compile(
    r"(?P<ws>\s+)|(?P<num>\d+)|(?P<id>[A-Za-z_][A-Za-z0-9_']*)|(?P<dir>#[a-z]+)|(?P<op>:-|:~|\.\.|\*\*|\\\\|==|!=|<=|>=|[<>=+\-*/\\|&?^~(){}\[\],;:.@])"
)


def tokenize(nodes, depth=0):
    """-> list of tokens (kind, value, loc)
    kinds: num id var dir op str hole name(comp) rep"""
    # pieces: ('c', ch, loc) | ('h', value, loc) | ('r', ...)
    toks = []
    i = 0
    seq = []
    for n in nodes:
        if n[0] == "L":
            seq.extend(("c", ch, n[2]) for ch in n[1])
        elif n[0] == "H":
            seq.append(("h", n[1], n[2]))
        elif n[0] in ("R", "S"):
            seq.append(("r", n, None))
        else:
            raise AspError(f"unexpected node {n[0]}")
    N = len(seq)

    def ch(k):
        return seq[k][1] if k < N and seq[k][0] == "c" else None

    while i < N:
        kind, v, loc = seq[i]
        if kind == "c" and v.isspace():
            i += 1
            continue
        if kind == "c" and v == "%":
            while i < N and ch(i) != "\n":
                i += 1
            continue
        if kind == "c" and v == '"':
            i += 1
            parts = []
            txt = ""
            while True:
                if i >= N:
                    raise AspError("unterminated string")
                k2, v2, l2 = seq[i]
                i += 1
                if k2 == "c":
                    if v2 == "\\":
                        txt += v2 + (ch(i) or "")
                        i += 1
                        continue
                    if v2 == '"':
                        break
                    txt += v2
                elif k2 == "h":
                    if txt:
                        parts.append(txt)
                    txt = ""
                    parts.append(("hole", v2))
                else:
                    raise AspError("repetition inside a string")
            if txt:
                parts.append(txt)
            toks.append(("str", tuple(parts), loc))
            continue
        if kind == "c" and (v.isalpha() or v == "_") or kind == "h" and _part(seq, i):
            # composite name
            parts = []
            txt = ""
            j = i
            while j < N:
                k2, v2, _ = seq[j]
                if k2 == "c" and (v2.isalnum() or v2 in "_'"):
                    txt += v2
                elif k2 == "h":
                    if txt:
                        parts.append(txt)
                    txt = ""
                    parts.append(("hole", v2))
                else:
                    break
                j += 1
            if txt:
                parts.append(txt)
            i = j
            toks.append(("name", tuple(parts), loc))
            continue
        if kind == "h":
            toks.append(("hole", v, loc))
            i += 1
            continue
        if kind == "r":
            toks.append(("rep", v, loc))
            i += 1
            continue
        # operator / number from characters
        j = i
        s = ""
        while j < N and seq[j][0] == "c" and not seq[j][1].isspace() and j - i < 40:
            s += seq[j][1]
            j += 1
        if v.isdigit():
            m = re.match(r"\d+", s)
            nxt = i + len(m.group())
            if nxt < N and (seq[nxt][0] == "h" or (seq[nxt][0] == "c" and (seq[nxt][1].isalpha() or seq[nxt][1] == "_"))):
                raise AspError(f"number {m.group()} runs into the next token")
            toks.append(("num", int(m.group()), loc))
            i = nxt
            continue
        m = TOKEN.match(s)
        if not m:
            raise AspError(f"unexpected character {v!r}")
        g = m.group()
        if m.lastgroup == "dir":
            toks.append(("dir", g, loc))
        else:
            toks.append(("op", g, loc))
        i += len(g)
    return toks


def _part(seq, i):
    """Is the hole at i glued to name characters or another hole (so part of a name)?"""
    if i + 1 < len(seq) and seq[i + 1][0] == "c" and (seq[i + 1][1].isalnum() or seq[i + 1][1] == "_"):
        return True
    if i + 1 < len(seq) and seq[i + 1][0] == "h":
        return True
    if i + 1 < len(seq) and seq[i + 1][0] == "c" and seq[i + 1][1] == "(":
        return True
    return False


# ------------------------------------------------------------------ parser
CMP = {"=", "==", "!=", "<", "<=", ">", ">="}


class Parser:
    def __init__(self, nodes):
        self.t = tokenize(nodes)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", None, None)

    def isop(self, s, k=0):
        t = self.peek(k)
        return t[0] == "op" and t[1] == s

    def take(self):
        t = self.peek()
        self.i += 1
        return t

    def accept(self, s):
        if self.isop(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise AspError(f"expected {s!r}, found {self.peek()[1]!r}")

    def loc(self):
        for k in range(self.i, len(self.t)):
            if self.t[k][2]:
                return self.t[k][2]
        return None

    # ---- statements
    def statement(self):
        t = self.peek()
        if t[0] == "dir" and t[1] in ("#show", "#defined", "#const", "#minimize", "#maximize", "#external", "#project"):
            return self.directive()
        head = None
        if self.isop(":-"):
            head = T("false")
        elif self.isop(":~"):
            raise AspError("weak constraints are not used by noqx")
        else:
            head = self.head()
        body = ()
        if self.accept(":-"):
            body = self.body() if not self.isop(".") else ()
        self.expect(".")
        if self.peek()[0] != "eof":
            raise AspError(f"text after the end of the statement: {self.peek()[1]!r}")
        return T("rule", head, tuple(body))

    def directive(self):
        d = self.take()[1]
        if d in ("#show", "#defined"):
            if self.accept("."):
                return T(d)
            p = self.take()
            if p[0] == "hole":
                name = (("hole", p[1]),)
            elif p[0] == "name":
                name = p[1]
            else:
                raise AspError(f"{d} without a predicate")
            if self.accept("/"):
                n = self.term()
                self.expect(".")
                return T(d, name, n)
            raise AspError(f"{d} without an arity")
        if d == "#const":
            n = self.take()
            self.expect("=")
            v = self.term()
            self.expect(".")
            return T(d, n[1], v)
        raise AspError(f"unsupported directive {d}")

    def head(self):
        if self.isop("{") or self.agg_ahead():
            return self.aggregate(0, None)
        items = [self.cond_literal()]
        while self.accept(";") or self.accept("|"):
            items.append(self.cond_literal())
        if len(items) == 1 and items[0].op == "lit":
            return items[0]
        if len(items) == 1 and items[0].op == "cmp":
            return items[0]
        return T("disj", *items)

    def agg_ahead(self):
        """term cmp? { ... or #agg ahead at nesting level 0 before , . ; :-"""
        depth = 0
        k = 0
        while True:
            t = self.peek(k)
            if t[0] == "eof":
                return False
            if t[0] == "op":
                if t[1] in "([":
                    depth += 1
                elif t[1] in ")]":
                    depth -= 1
                elif t[1] == "{" and depth == 0:
                    return True
                elif depth == 0 and t[1] in (",", ".", ";", ":-", ":", "}"):
                    return False
            elif t[0] == "dir" and depth == 0:
                return True
            elif t[0] == "rep" and depth == 0:
                return False
            k += 1

    def body(self):
        out = []
        while True:
            if self.peek()[0] == "rep":
                out.append(self.rep(self.body_item_from))
            else:
                out.append(self.body_item())
            if self.accept(",") or self.accept(";"):
                continue
            if self.peek()[0] == "rep":
                continue
            break
        return out

    def body_item_from(self, p):
        return p.body_item()

    def body_item(self):
        neg = 0
        while self.peek()[0] == "name" and self.peek()[1] == ("not",):
            self.take()
            neg += 1
        if self.isop("{") or self.agg_ahead():
            return self.aggregate(neg, None)
        l = self.literal(neg)
        if self.isop(":"):
            self.take()
            cond = self.lits_until()
            return T("cond", l, tuple(cond))
        return l

    def cond_literal(self):
        neg = 0
        while self.peek()[0] == "name" and self.peek()[1] == ("not",):
            self.take()
            neg += 1
        l = self.literal(neg)
        if self.accept(":"):
            if self.isop(";") or self.isop("}") or self.isop("."):
                return T("cond", l, ())
            return T("cond", l, tuple(self.lits_until()))
        return l

    def lits_until(self):
        out = []
        while True:
            if self.peek()[0] == "rep":
                out.append(self.rep(lambda p: p.plain_lit()))
            else:
                out.append(self.plain_lit())
            if self.accept(","):
                continue
            if self.peek()[0] == "rep":
                continue
            return out

    def plain_lit(self):
        neg = 0
        while self.peek()[0] == "name" and self.peek()[1] == ("not",):
            self.take()
            neg += 1
        return self.literal(neg)

    def rep(self, item):
        """A repetition token: parse every alternative body as a sequence of items."""
        n = self.take()[1]
        return self.rep_node(n, item)

    def rep_node(self, n, item):
        if n[0] == "S":
            alts = (n[2],)
            sep, lid = n[1], None
        else:
            alts, sep, lid = n[2], n[3], n[1]
        got = []
        for body in alts:
            p = Parser(body)
            items = []
            while p.peek()[0] != "eof":
                if p.peek()[0] == "rep":
                    items.append(p.rep(item))
                else:
                    items.append(item(p))
                if p.peek()[0] == "eof":
                    break
                if p.peek()[0] == "rep" and p.peek()[1][0] == "S":
                    continue
                if not (p.accept(",") or p.accept(";")):
                    raise AspError(f"in repetition: unexpected {p.peek()[1]!r}")
            got.append(tuple(items))
        septxt = "".join(x[1] for x in sep if x[0] == "L").strip()
        # a body that brings its own trailing/leading separator
        trail = set()
        for body in alts:
            bt = tokenize(body)
            if bt:
                trail.add((bt[0][1] if bt[0][0] == "op" and bt[0][1] in (",", ";") else "", bt[-1][1] if bt[-1][0] == "op" and bt[-1][1] in (",", ";") else ""))
        return T("rep", lid, tuple(got), septxt, tuple(sorted(trail)))

    def literal(self, neg):
        if self.peek()[0] == "dir" and self.peek()[1] in ("#true", "#false"):
            return T("bool", self.take()[1])
        start = self.i
        a = self.term()
        t = self.peek()
        if t[0] == "op" and t[1] in CMP:
            parts = [a]
            while self.peek()[0] == "op" and self.peek()[1] in CMP:
                op = self.take()[1]
                parts.append("=" if op == "==" else op)
                parts.append(self.term())
            return T("cmp", neg, tuple(parts))
        if a.op == "fn":
            return T("lit", neg, a.a[0], a.a[1])
        if a.op == "neg" and a.a[0].op == "fn":
            raise AspError("classical negation")
        if a.op == "hole":
            return T("lit", neg, (("hole", a.a[0]),), ())
        raise AspError(f"expected a literal, found term {a!r}")

    # ---- aggregates
    def guard_op(self):
        t = self.peek()
        if t[0] == "op" and t[1] in CMP:
            self.take()
            return "=" if t[1] == "==" else t[1]
        if t[0] == "hole":
            self.take()
            return T("hole", t[1])
        return None

    def aggregate(self, neg, _):
        left = None
        if not self.isop("{") and self.peek()[0] != "dir":
            t = self.term()
            op = self.guard_op() or "<="
            left = (t, op)
        fn = None
        if self.peek()[0] == "dir":
            fn = self.take()[1]
            if fn not in ("#count", "#sum", "#min", "#max", "#sum+"):
                raise AspError(f"unknown aggregate {fn}")
        self.expect("{")
        elems = []
        if self.isop("}"):
            self.take()
        else:
            while True:
                if self.peek()[0] == "rep":
                    elems.append(self.rep((lambda p: p.agg_elem()) if fn else (lambda p: p.cond_literal())))
                else:
                    elems.append(self.agg_elem() if fn else self.cond_literal())
                if self.accept(";"):
                    continue
                if self.peek()[0] == "rep":
                    continue
                break
            self.expect("}")
        right = None
        op = None
        t = self.peek()
        if (t[0] == "op" and t[1] in CMP) or (t[0] in ("hole", "num", "name") and not (t[0] == "op")):
            if t[0] == "op":
                op = self.guard_op()
                right = (op, self.term())
            elif t[0] == "hole" and self.peek(1)[0] in ("hole", "num", "name"):
                op = self.guard_op()
                right = (op, self.term())
            else:
                right = ("<=", self.term())
        return T("agg", neg, fn, left, tuple(elems), right)

    def agg_elem(self):
        terms = [self.term()]
        while self.accept(","):
            terms.append(self.term())
        cond = ()
        if self.accept(":"):
            if not (self.isop(";") or self.isop("}")):
                cond = tuple(self.lits_until())
        return T("elem", tuple(terms), cond)

    # ---- terms
    def term(self):
        a = self.xor()
        if self.accept(".."):
            return T("interval", a, self.xor())
        return a

    def xor(self):
        return self.add()

    def add(self):
        a = self.mul()
        while self.peek()[0] == "op" and self.peek()[1] in ("+", "-"):
            op = self.take()[1]
            a = T("bin", op, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.peek()[0] == "op" and self.peek()[1] in ("*", "/", "\\", "**", "&"):
            op = self.take()[1]
            a = T("bin", op, a, self.unary())
        return a

    def unary(self):
        if self.accept("-"):
            return T("neg", self.unary())
        return self.primary()

    def primary(self):
        t = self.take()
        if t[0] == "num":
            return T("num", t[1])
        if t[0] == "str":
            return T("str", t[1])
        if t[0] == "hole":
            return T("hole", t[1])
        if t[0] == "dir" and t[1] in ("#inf", "#sup"):
            return T("const", t[1])
        if t[0] == "op" and t[1] == "|":
            a = self.term()
            self.expect("|")
            return T("abs", a)
        if t[0] == "op" and t[1] == "(" and self.peek()[0] == "rep":
            pools = []
            while self.peek()[0] == "rep":
                pools.append(self.rep(lambda p: p.term()))
                if self.accept(";"):
                    while self.peek()[0] != "rep":
                        pools.append(self.term())
                        if not self.accept(";"):
                            break
            self.expect(")")
            return T("pool", *pools)
        if t[0] == "op" and t[1] == "(":
            items = [self.term()]
            pools = []
            comma = False
            while True:
                if self.accept(","):
                    comma = True
                    if self.isop(")"):
                        break
                    items.append(self.term())
                elif self.accept(";"):
                    pools.append(tuple(items))
                    items = [self.term()]
                elif self.peek()[0] == "rep":
                    items.append(self.rep(lambda p: p.term()))
                else:
                    break
            self.expect(")")
            if pools:
                pools.append(tuple(items))
                return T("pool", *[x[0] if len(x) == 1 else T("tuple", *x) for x in pools])
            if len(items) == 1 and not comma:
                return items[0]
            return T("tuple", *items)
        if t[0] == "name":
            parts = t[1]
            if len(parts) == 1 and isinstance(parts[0], str):
                s = parts[0]
                if s == "_":
                    return T("anon")
                first = s.lstrip("_")
                if first[:1].isupper():
                    return T("var", s)
                if not first or not (first[0].isalpha()):
                    raise AspError(f"bad name {s!r}")
            elif isinstance(parts[0], str) and parts[0].lstrip("_")[:1].isupper():
                return T("var", tuple(parts))
            if parts == ("not",):
                raise AspError("misplaced 'not'")
            args = None
            if self.accept("("):
                args = self.args()
            return T("fn", parts, args if args is not None else ())
        raise AspError(f"unexpected {t[1]!r}")

    def args(self):
        alts = []
        items = []
        if self.accept(")"):
            return ()
        while True:
            if self.peek()[0] == "rep":
                items.append(self.rep(lambda p: p.term()))
            else:
                items.append(self.term())
            if self.accept(","):
                continue
            if self.accept(";"):
                alts.append(tuple(items))
                items = []
                continue
            if self.peek()[0] == "rep":
                continue
            break
        self.expect(")")
        if alts:
            alts.append(tuple(items))
            return (T("argpool", *alts),)
        return tuple(items)


def parse(nodes):
    return Parser(nodes).statement()
