"""C11: rows are measured in rows and columns in columns."""
from ..domain import BoolF, Const, Str, Sym, Tup, walk
from ..framework import per_solver
from ..prog import program
from ..sorts import COL, FREE, ROW, RuleTerms, Signature, Weights, pattern, upper_bounds, w_add
from ..state import facts
from ..types_ import coll_name

NAME = {ROW: "row", COL: "column"}


def is_square(pc):
    d = Sym("lin", tuple(sorted(((Sym("attr", Sym("puzzle"), "row"), 1), (Sym("attr", Sym("puzzle"), "col"), -1)), key=lambda p: repr(p[0]))), 0)
    e = Sym("lin", tuple((t, -k) for t, k in d.args[0]), 0)
    for f in pc:
        if f is not True and f is not False and f[0] == "lit" and f[2] and isinstance(f[1], Sym) and f[1].op == "eq":
            a, b = f[1].args
            if a in (d, e) and b == Const(0) or {repr(a), repr(b)} == {"puzzle.row", "puzzle.col"}:
                return True
    return False


def shown(rules):
    """Predicates whose atoms are handed to the display, first two arguments row and column."""
    out = {}
    for r in rules:
        if r.tree is not None and r.tree.op == "#show" and len(r.tree.a) == 2 and r.tree.a[1].op == "num" and int(r.tree.a[1].a[0]) >= 2:
            out[(pattern(r.tree.a[0]), int(r.tree.a[1].a[0]))] = True
    return out


def atoms_of(f):
    if f is True or f is False or not isinstance(f, tuple):
        return
    if f[0] == "lit":
        yield f[1]
    elif f[0] in ("and", "or"):
        for x in f[1]:
            yield from atoms_of(x)


def check_solver(repo, res, rep):
    rules, notes = program(res)
    terms = []
    init = getattr(res.interp, "lv_init", {})
    bounds = upper_bounds(a for a, _, _ in python_atoms(res, rules))
    for r in rules:
        if r.tree is None:
            continue
        terms.append(RuleTerms(r, Weights(res.loops, is_square(r.pc), init, bounds)))
    sg = Signature(terms, shown(rules))
    rep.count("rules", len(terms))
    rep.count("positions with a sort", len(sg.sig))
    where = res.name
    for (p, n, consts, i), vs in sg.torn.items():
        rep.add("crossed-argument", where, f"{p}/{n} argument {i + 1}", "given a row as often as a column", None)
    for rt in terms:
        r = rt.rule
        ev = sg.var_evidence(rt)
        done = False
        for key, i, x in rt.args:
            s = sg.lookup(key, i)
            rep.count("argument positions")
            if x.ok and not x.vars and s is not None and x.w in (ROW, COL) and x.w != s[0] and (x.strong or s[1]):
                rep.add("crossed-argument", where, f"{key[0]}/{key[1]} argument {i + 1}", f"a {NAME[s[0]]} position is given a {NAME[x.w]}: {r.text()[:200]}", r.loc)
                done = True
        for v, es in ev.items():
            ss = {e[0] for e in es}
            if len(ss) == 2 and any(e[1] for e in es):
                rep.add("crossed-variable", where, f"{v.split('@')[0]} in {sorted({e[2] for e in es})}"[:200], f"one variable is both a row and a column: {r.text()[:200]}", r.loc)
                done = True

        def full(x):
            if not x.ok:
                return None
            w = x.w
            for v, c in x.vars.items():
                ss = {e[0] for e in ev.get(v, [])}
                if len(ss) != 1:
                    return None
                w = w_add(w, next(iter(ss)), c)
            return w
        for key, i, x in rt.args:
            s = sg.lookup(key, i)
            if not x.vars or x.simple is not None or s is None or done:
                continue
            w = full(x)
            if w is None:
                continue
            rep.count("sums given as positions")
            if w == (COL if s[0] == ROW else ROW) or w[0] and w[1]:
                rep.add("crossed-argument", where, f"{key[0]}/{key[1]} argument {i + 1}", f"a {NAME[s[0]]} position is given a sum of rows and columns: {r.text()[:200]}", r.loc)
                done = True
        for x, what in rt.sums + [(a.plus(b, -1), w) for a, b, w in rt.same]:
            w = full(x)
            if w is None:
                continue
            rep.count("comparisons of known kind")
            if w[0] == -w[1] != 0 and not done:
                rep.add("crossed-comparison", where, what, f"rows are compared with columns: {r.text()[:200]}", r.loc)
    python_level(res, rules, (init, bounds), rep)


def python_atoms(res, rules):
    """(atomic condition, square board, location) of every test of the solver."""
    for r in rules:
        sq = is_square(r.pc)
        for f in r.pc:
            for s in atoms_of(f):
                yield s, sq, r.loc
    for e in res.events:
        sq = is_square(e.pc)
        for f in e.pc:
            for s in atoms_of(f):
                yield s, sq, e.loc
        if e.kind == "test":
            v = e.data[0]
            if isinstance(v, BoolF):
                for s in atoms_of(v.f):
                    yield s, sq, e.loc
            elif isinstance(v, Sym):
                yield v, sq, e.loc


def python_level(res, rules, facts_, rep):
    where = res.name
    plain, square = Weights(res.loops, False, *facts_), Weights(res.loops, True, *facts_)
    seen = {}
    for s, sq, loc in python_atoms(res, rules):
        seen.setdefault((s, sq), loc)
    pairs = {}
    for e in res.events:
        if e.kind == "dict-key":
            look(e.data[0], e.data[1], e.loc, plain, pairs)
    rooms = {}
    for (s, sq), loc in seen.items():
        w = square if sq else plain
        if not isinstance(s, Sym):
            continue
        if s.op in ("lt", "eq") and len(s.args) == 2:
            (a, x), (b, y) = w(s.args[0]), w(s.args[1])
            d = w_add(a, b, -1)
            if d is not None:
                rep.count("Python comparisons of known kind")
                if d[0] == -d[1] != 0 and not only_extents(s):
                    rep.add("crossed-comparison", where, f"{s!r}"[:120], f"a row is compared with a column: {s!r}"[:300], loc)
        for t in walk(s):
            if isinstance(t, Sym):
                if t.op in ("get", "lookup") and len(t.args) >= 2:
                    look(t.args[0], t.args[1], loc, plain, pairs)
                elif t.op == "in" and len(t.args) == 2:
                    look(t.args[1], t.args[0], loc, plain, pairs)
                elif t.op == "rooms":
                    rooms.setdefault(t, loc)
    for r in rules:
        for lid in r.loops:
            lp = res.loops.get(lid)
            if lp is not None:
                for t in walk(lp.source):
                    if isinstance(t, Sym) and t.op == "rooms":
                        rooms.setdefault(t, r.loc)
        for t in syms(r.nodes):
            if t.op == "rooms":
                rooms.setdefault(t, r.loc)
            elif t.op in ("get", "lookup") and len(t.args) >= 2:
                look(t.args[0], t.args[1], r.loc, plain, pairs)
    said = {}
    for e in res.events:
        if e.kind == "raise" and len(e.data) > 1 and isinstance(e.data[1], Str):
            w = square if is_square(e.pc) else plain
            for a, b in named_places(e.data[1]):
                rep.count("places named in refusals")
                if (w(a)[0] == COL or w(b)[0] == ROW) and (a, b) not in said:
                    said[a, b] = 1
                    rep.add("crossed-message", where, f"({a!r}, {b!r})"[:120], "the refusal names a place with the column first, or one of the two twice", e.loc)
    areas = {}
    for r in rules:
        if not is_square(r.pc):
            for t in syms(r.nodes):
                areas.setdefault(t, r.loc)
    for (s, sq), loc in seen.items():
        if not sq and isinstance(s, Sym):
            for t in walk(s):
                if isinstance(t, Sym):
                    areas.setdefault(t, loc)
    for t, loc in areas.items():
        if t.op == "num" and len(t.args) == 3 and t.args[0] == "*":
            ws = [plain(x)[0] for x in t.args[1:]]
            if ws[0] in (ROW, COL) and ws[1] in (ROW, COL) and all(only_extents(x) for x in t.args[1:]):
                rep.count("areas")
                if ws[0] == ws[1]:
                    rep.add("crossed-area", where, f"{t!r}"[:120], "the number of cells is taken to be the square of one side of the board", loc)
    for t, loc in rooms.items():
        rep.count("region searches")
        if len(t.args) >= 2 and (plain(t.args[0])[0] == COL or plain(t.args[1])[0] == ROW):
            rep.add("crossed-argument", where, "region search", f"the region search is given {t.args[0]!r} rows and {t.args[1]!r} columns", loc)
    for base, uses in pairs.items():
        board = coll_name(base) if isinstance(base, Sym) else None
        rep.count("keyed collections")
        orders = {o for o, _, _ in uses}
        if board and "cr" in orders or len(orders) > 1:
            o, k, loc = next(u for u in uses if u[0] == "cr")
            rep.add("crossed-key", where, f"{board or 'a collection of cells'}: {k!r}"[:120], f"looked up with the column first: {k!r}"[:300], loc)


def named_places(msg):
    """(row, column) pairs in a message: "(_, _)"."""
    ns = [n for n in msg.nodes if n[0] in "LH"]
    for x, a, y, b, z in zip(ns, ns[1:], ns[2:], ns[3:], ns[4:]):
        if x[0] == y[0] == z[0] == "L" and a[0] == b[0] == "H" and x[1].endswith("(") and y[1].strip() == "," and z[1].startswith(")"):
            yield a[1], b[1]


def only_extents(s):
    """The board's height and width may be compared with each other."""
    return not any(isinstance(t, Sym) and t.op in ("item", "idx", "lv", "lout", "elem", "celem") for t in walk(s))


def syms(nodes):
    for n in nodes:
        if n[0] == "H":
            for t in walk(n[1]):
                if isinstance(t, Sym):
                    yield t
        elif n[0] in ("R", "S"):
            for x in n:
                if isinstance(x, (tuple, list)):
                    yield from (t for t in syms([y for y in x if isinstance(y, tuple) and y and y[0] in ("H", "R", "S")]))


def look(base, key, loc, weights, pairs):
    if not isinstance(key, Tup) or len(key.items) < 2:
        return
    a, b = weights(key.items[0])[0], weights(key.items[1])[0]
    if coll_name(base) and (a == COL or b == ROW):
        pairs.setdefault(ident(base), []).append(("cr", key, loc))
        return
    order = "cr" if COL == a and b == ROW else "rc" if ROW == a and b == COL else "cr" if a == COL and b == FREE or a == FREE and b == ROW else None
    if order is None or order == "cr" and FREE in (a, b) and not coll_name(base):
        return
    pairs.setdefault(ident(base), []).append((order, key, loc))


def ident(base):
    """What tells collections apart: the board's own by name, others by the objects they were accumulated in."""
    if coll_name(base):
        return base
    ids = set()

    def go(x, d):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "h" and isinstance(x[1], int):
                ids.add(x)
            elif d < 12:
                for y in x:
                    go(y, d + 1)
        elif hasattr(x, "args") or hasattr(x, "items") and not isinstance(x, dict):
            go(tuple(getattr(x, "args", None) or getattr(x, "items", ())), d + 1)
    go(base, 0)
    return frozenset(ids) or base


EXPLANATION = (
    "Every puzzle type's program generation is interpreted abstractly and the rule templates parsed. Numbers are given weights (how many row and column positions they sum up), from the "
    "positions of clues and cells, the board's extents and the ranges loops run over; the sorts of the arguments of every predicate are inferred from all rules of the program (shown atoms have "
    "the row first). Reported are: an argument or variable that is a row in one place and a column in another, comparisons and distances between rows and columns, board lookups with the column "
    "first, region searches and areas with exchanged sides. Puzzle types that refuse boards that are not square are exempt from the comparisons with the sides only."
)
RULES = ["crossed-argument", "crossed-variable", "crossed-comparison", "crossed-key", "crossed-area", "crossed-message"]


def check(repo, rep, tier):
    per_solver(repo, check_solver, rep)
