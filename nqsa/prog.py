"""The generated program of a solver as a list of parsed rule templates."""
from .asp import AspError, T, parse
from .domain import f_and
from .emit import emissions, render, variants
from .facts import Facts
from .state import facts
from .types_ import typ


class Rule:
    __slots__ = ("tree", "pc", "loops", "loc", "nodes", "error", "problem")

    def where(self, name):
        return f"{name} ({self.loc[0]})" if self.loc else name

    def text(self):
        return render(self.nodes)


def program(res):
    """-> (rules, notes). Rules whose text cannot be parsed carry .error."""
    out = []
    notes = []
    for s in emissions(res):
        vs, over = variants(s.nodes, s.pc)
        if over:
            notes.append(f"too many variants at {s.loc}")
        for nodes, conds in vs:
            r = Rule()
            r.nodes, r.pc, r.loops, r.loc = nodes, tuple(s.pc) + tuple(conds), s.loops, s.loc
            r.tree = r.error = None
            r.problem = s.problem
            if facts(r.pc).bottom:
                continue
            try:
                r.tree = parse(nodes)
            except AspError as e:
                r.error = str(e)
            out.append(r)
    return out, notes


def flat(items):
    """Expand repetitions: every alternative's items, in order."""
    for x in items:
        if x.op == "rep":
            for alt in x.a[1]:
                yield from flat(alt)
        else:
            yield x


def iter_lits(tree):
    """(literal, role) for every predicate literal; role: head, choice, headcond, body, bodycond, agg, aggcond."""
    if tree.op != "rule":
        return
    head, body = tree.a
    yield from _head(head)
    for x in flat(body):
        yield from _body(x)


def _head(h):
    if h.op == "lit":
        yield h, "head"
    elif h.op == "disj":
        for x in flat(h.a):
            if x.op == "cond":
                yield x.a[0], "head"
                for c in flat(x.a[1]):
                    if c.op == "lit":
                        yield c, "headcond"
            elif x.op == "lit":
                yield x, "head"
    elif h.op == "agg":
        for x in flat(h.a[3]):
            if x.op == "cond":
                if x.a[0].op == "lit":
                    yield x.a[0], "choice"
                for c in flat(x.a[1]):
                    if c.op == "lit":
                        yield c, "headcond"
            elif x.op == "lit":
                yield x, "choice"
            elif x.op == "elem":
                for c in flat(x.a[1]):
                    if c.op == "lit":
                        yield c, "headcond"


def _body(x):
    if x.op == "lit":
        yield x, "body"
    elif x.op == "cond":
        if x.a[0].op == "lit":
            yield x.a[0], "body"
        for c in flat(x.a[1]):
            if c.op == "lit":
                yield c, "bodycond"
    elif x.op == "agg":
        for e in flat(x.a[3]):
            if e.op == "lit":
                yield e, "agg"
            elif e.op == "cond":
                if e.a[0].op == "lit":
                    yield e.a[0], "agg"
                for c in flat(e.a[1]):
                    if c.op == "lit":
                        yield c, "aggcond"
            elif e.op == "elem":
                for c in flat(e.a[1]):
                    if c.op == "lit":
                        yield c, "aggcond"


def subterms(t):
    yield t
    if isinstance(t, T):
        for x in t.a:
            if isinstance(x, T):
                yield from subterms(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        yield from subterms(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                yield from subterms(z)


def vars_of(t):
    return {x.a[0] for x in subterms(t) if isinstance(x, T) and x.op == "var"}


def pname(parts):
    """Readable predicate name."""
    return "".join(p if isinstance(p, str) else "{" + repr(p[1])[:40] + "}" for p in parts)


def holes(t):
    """Every hole value inside a tree (terms, names, strings)."""
    for x in subterms(t):
        if not isinstance(x, T):
            continue
        if x.op == "hole":
            yield x.a[0], "term", x
        elif x.op in ("lit",):
            for p in x.a[1]:
                if not isinstance(p, str):
                    yield p[1], "name", x
        elif x.op == "fn":
            for p in x.a[0]:
                if not isinstance(p, str):
                    yield p[1], "name", x
        elif x.op == "str":
            for p in x.a[0] if isinstance(x.a[0], tuple) else ():
                if not isinstance(p, str):
                    yield p[1], "string", x
