"""C21: no row, column, region or cell is left out of the rules."""
from ..arith import add, to_lin
from ..domain import Const, Sym, Tup, f_and, f_lits, f_map, f_not, f_or, lit, show_f, subst, walk, walk_nodes
from ..framework import per_solver
from ..linear import infeasible
from ..prog import flat, iter_lits, program, subterms
from ..types_ import typ

EXPLANATION = (
    "Every solver is interpreted on a board of unknown size with unknown regions. Each rule template that is emitted in a loop over rows, columns, regions or the cells of a region is "
    "generalised over that loop: the conditions on the loop's own position, number or size are kept, those on what is drawn are assumed to hold. Over all templates that state the same "
    "rule, the disjunction of these conditions must cover every place the rule can speak about without leaving the board, for every board size, region number and region size."
)
RULES = ["board-not-covered", "place-skipped", "region-skipped"]

PUZZLE = Sym("puzzle")
ROW, COL = Sym("attr", PUZZLE, "row"), Sym("attr", PUZZLE, "col")
EXT = {"row": ROW, "col": COL}
EDGES = Sym("attr", PUZZLE, "edge")
LOOPVAR = {"key", "val", "elem", "idx", "lv", "lout", "celem", "cnt", "nonempty"}


def arg(name):
    return Sym("arg", name, "int")


def lt(a, b):
    return lit(Sym("lt", add(a, b, -1), Const(0)), True)


def within(p, lo, hi):
    """lo <= p < hi"""
    return [f_not(lt(p, lo)), lt(p, hi)]


def shape(s):
    """Is a condition only about positions, numbers and sizes?"""
    return s.op in ("eq", "lt", "in", "truthy") and numeric(s)


def numeric(v):
    if isinstance(v, (Const, bool, int)) or v is None:
        return not isinstance(v, Const) or isinstance(v.v, int)
    if isinstance(v, Tup):
        return all(numeric(x) for x in v.items)
    if not isinstance(v, Sym):
        return False
    if v.op == "attr":
        return v in (ROW, COL)
    if v.op == "lin":
        return all(numeric(x) for x, _ in v.args[0])
    if v.op == "num":
        return all(numeric(x) for x in v.args if not isinstance(x, str))
    return v.op == "arg" or v.op in ("eq", "lt", "in", "truthy") and all(numeric(x) for x in v.args)


def weaken(f):
    """The condition with everything about drawn content assumed; opposite ways of drawing are each possible."""
    if f is True or f is False:
        return f
    if f[0] == "lit":
        if not shape(f[1]) or f[1].op == "eq" and not any(isinstance(x, Sym) and x.op == "arg" for x in walk(f[1])):
            return True  # a setting of the whole board chooses between kinds of rule
        return f
    sub = [weaken(g) for g in f[1]]
    return f_and(sub) if f[0] == "and" else f_or(sub)


def content(f):
    return f not in (True, False) and any(not shape(x[1]) for x in f_lits(f))


def name_of(parts):
    return "".join(p if isinstance(p, str) else "*" for p in parts)


class Nest:
    """The loops around a template, with canonical names for their places."""

    def __init__(self, res, r):
        self.put, self.conds, self.nat, self.names, self.why, self.part = {}, [], [], [], None, None
        self.dim = {}
        room = None
        for l in r.loops:
            L = res.loops[l]
            src = L.source
            if L.kind == "range" and isinstance(src, Sym) and src.op == "range":
                lo, hi, step = src.args
                both = [add(y, Const(k)) for y, k in smaller(hi)] if step == Const(1) else []
                ext = extent(hi) or extent(lo) or (axis(r, Sym("idx", l), res) if both else None)
                if ext is None:
                    continue
                if step not in (Const(1), Const(-1)):
                    self.why = "a range that is not gone through one by one"
                    continue
                if step == Const(-1):
                    lo, hi = add(hi, Const(1)), add(lo, Const(1))
                p = self.name(ext)
                self.dim[p] = ext
                self.put[Sym("idx", l)] = p
                self.conds += [weaken(f) for h in both or [hi] for f in within(p, lo, h)]  # a range from a drawn place is content
            elif regions(src, res) is not None:
                room = Sym("elem" if L.kind == "elems" else "key", l, src)
                n, z = self.name("region"), self.name("size of region")
                self.put[Sym("cnt", l)] = self.put[Sym("idx", l)] = n
                self.put[Sym("len", room)] = z
                if regions(src, res) == "part":
                    self.part = "regions"
                self.nat += [f_not(lt(n, Const(0))), f_not(lt(z, Const(1)))]
            elif room is not None and bare(src) == room:
                e = Sym("elem", l, src)
                if has_slice(src):
                    self.part = "cells of a region"
                for i, d in enumerate(EXT):
                    p = self.name(d)
                    self.put[Sym("item", e, Const(i))] = p
                    self.nat += within(p, Const(0), EXT[d])
                k = self.name("place in region")
                self.put[Sym("idx", l)] = self.put[Sym("cnt", l)] = k
                self.nat += within(k, Const(0), self.put[Sym("len", room)])

    def name(self, kind):
        p = arg(f"{kind} {sum(1 for k in self.names if k == kind) + 1}")
        self.names.append(kind)
        return p

    def rw(self, v):
        return subst(v, self.put.get)


def bare(src):
    """A collection without the list(...), sorted(...) or slice around it."""
    while isinstance(src, Sym) and src.op in ("coll", "sorted", "reversed", "slice") and src.args:
        src = src.args[0] if src.op == "slice" else src.args[-1]
    return src


def has_slice(src):
    while isinstance(src, Sym) and src.op in ("coll", "sorted", "reversed", "slice") and src.args:
        if src.op == "slice":
            lo, hi, step = (tuple(src.args[1:]) + (None,) * 3)[:3]
            if any(x not in (None, Const(None), Const(0) if i == 0 else Const(1) if i == 2 else None) for i, x in enumerate((lo, hi, step))):
                return True
        src = src.args[0] if src.op == "slice" else src.args[-1]
    return False


def regions(src, res):
    """'all' or 'part' when a loop goes through the regions."""
    b = bare(src)
    if isinstance(b, Sym) and b.op == "seq" and len(b.args) == 2 and isinstance(b.args[1], tuple) and len(b.args[1]) == 1 and b.args[1][0][0] == "R":
        l, parts = b.args[1][0][1], b.args[1][0][2]
        inner = res.loops[l].source if l in res.loops else None
        if isinstance(bare(inner), Sym) and bare(inner).op == "rooms" and len(parts) == 1 and parts[0][0] == "I":
            b = bare(inner)
            if has_slice(inner):
                return "part"
    if isinstance(b, Sym) and b.op == "rooms":
        return "part" if has_slice(src) else "all"
    return None


def smaller(v):
    """The bounds behind the smaller of several extents, each with what is added to it."""
    t = to_lin(v) if v is not None else None
    if t is None or len(t[0]) != 1:
        return []
    (x, k), = t[0].items()
    if k != 1 or not isinstance(x, Sym) or x.op != "fn_int" or x.args[0] != "min" or not all(extent(a) for a in x.args[1:]):
        return []
    return [(a, t[1]) for a in x.args[1:]]


def axis(r, i, res):
    """Is a number used as a row or as a column?"""
    out = set()
    if getattr(r, "tree", None) is not None and r.tree.op == "rule":
        for x, _ in iter_lits(r.tree):
            if x.op == "lit" and len(x.a[2]) == 2:
                for d, t in zip(EXT, x.a[2]):
                    if t.op == "hole" and i in (to_lin(t.a[0]) or ({},))[0]:
                        out.add(d)
    for v in [f[1] for g in r.pc for f in f_lits(g)] + [res.loops[l].source for l in r.loops if isinstance(res.loops[l].source, Sym)]:
        for x in walk(v):
            if isinstance(x, Tup) and len(x.items) == 4:
                out |= {d for d, y in zip(EXT, x.items) if y == i}
    return out.pop() if len(out) == 1 else None


def extent(v):
    t = to_lin(v) if v is not None else None
    for d, e in EXT.items():
        if t and t[0] == {e: 1}:
            return d
    return None


def args_of(x, nest):
    """Arguments that are fixed when the template is written; None for a variable or a term."""
    out = []
    for t in x.a[2]:
        if t.op == "hole":
            v = nest.rw(t.a[0])
            out.append(v if not any(isinstance(y, Sym) and y.op in LOOPVAR for y in walk(v)) else None)
        elif t.op in ("num", "int", "str"):
            out.append(repr(t.a))
        else:
            out.append(None)
    return tuple(out)


def group(tree, nest):
    """What the rule says, and the places it says it about."""
    lits = [(x, role) for x, role in iter_lits(tree)]
    head = [x for x, role in lits if role in ("head", "choice")]
    use = head or [x for x, _ in lits]
    return ("" if head else ":- ") + ", ".join(sorted({("not " if x.a[0] % 2 else "") + name_of(x.a[1]) for x in use})), frozenset((name_of(x.a[1]), args_of(x, nest)) for x in use)


def on_board(tree, nest):
    """The places a template writes down are on the board."""
    for x, _ in iter_lits(tree):
        for t in subterms(x):
            if t.op == "hole":
                v = nest.rw(t.a[0])
                q = to_lin(v)
                ps = [p for p in (q[0] if q else ()) if p in nest.dim]
                if len(ps) == 1 and all(y in (ROW, COL, ps[0]) for y in q[0]):
                    yield from within(v, Const(0), EXT[nest.dim[ps[0]]])


def rewritten(pc, n):
    return [f_map(f, lambda s, p: fold(n.rw(s), p)) for f in pc]


def fold(s, p):
    if s.op in ("eq", "lt") and all(isinstance(a, Const) for a in s.args) and all(isinstance(a.v, int) for a in s.args):
        a, b = (x.v for x in s.args)
        return ((a == b) if s.op == "eq" else a < b) == p
    return ("lit", s, p)


def border(nest):
    ds = [(p, d) for p, d in nest.dim.items()]
    return f_or([f for p, d in ds for f in (lit(Sym("eq", p, Const(0)), True), f_not(lt(p, add(EXT[d], Const(-1)))))])


def check_solver(repo, res, rep):
    rules, notes = program(res)
    rep.unknown += [f"{res.name}: {n}" for n in notes]
    groups, simple = {}, set()
    where = f"solver/{res.name}.py"
    numbers(rules, res, where, rep)
    board(rules, where, rep)
    final = tuple(f for f in (res.state.pc if res.state is not None else ()) if not content(f))
    refused = []
    for e in res.events:
        if e.kind == "raise" and e.loops:
            n = Nest(res, e)
            if n.put and not n.why and not any(content(f) for f in rewritten(e.pc, n)):
                refused.append(f_and(n.conds + rewritten(e.pc, n)))
    for r in rules:
        if r.tree is None or r.tree.op != "rule":
            continue
        n = Nest(res, r)
        what, key = group(r.tree, n)
        if not n.put:
            if not r.loops and not any(t.op == "var" for x, role in iter_lits(r.tree) if role in ("head", "choice") or what.startswith(":-") for t in subterms(x)):
                simple.add(what)
            continue
        if n.part:
            rep.add("region-skipped", where, f"{what} (part of the {n.part})", f"the rule is stated for a part of the {n.part} only: {r.text()[:120]}", r.loc)
        pairs(res, r, n, what, where, rep)
        rep.count("templates in loops over the board")
        if n.why:
            rep.unknown.append(f"{res.name}: {what}: {n.why}")
            continue
        nat = list(n.nat) + list(on_board(r.tree, n))
        if any(x == EDGES for f in r.pc for y in f_lits(f) for x in walk(y[1])):
            nat += [f_not(lt(p, Const(1))) for p in n.dim]
        nat += [c for p, d in n.dim.items() for c in within(p, Const(0), EXT[d])]
        g = groups.setdefault((what, key), [nat, [], r, n])
        g[1].append(f_and(n.conds + [weaken(f) for f in rewritten(r.pc, n)]))
    for k, (nat, conds, r, n) in groups.items():
        rep.count("rules stated place by place")
        base = tuple(nat) + final + tuple(f_not(f) for f in refused) + (f_not(lt(ROW, Const(1))), f_not(lt(COL, Const(1))))
        mine = f_or(conds)
        left = base + (f_not(mine),)
        if mine is True or False in left:
            continue
        if infeasible(left, typ) is not False:
            continue
        # a rule about the rim of the board, whose whole rim it covers
        if n.dim and infeasible(base + (mine, f_not(border(n))), typ) and infeasible(left + (border(n),), typ):
            continue
        # another rule takes over exactly where this one stops
        others = [f_or(c) for k2, (_, c, _, n2) in groups.items() if k2 != k and set(n2.names) & set(n.names)]
        others = [o for o in others if o is not True and infeasible(base + (mine, o), typ)]
        if others and infeasible(left + tuple(f_not(o) for o in others), typ):
            continue
        what = k[0]
        if what in simple:
            rep.unknown.append(f"{res.name}: {what} is also stated outside of the loop")
            continue
        rule = "region-skipped" if not n.dim else "place-skipped"
        rep.add(rule, where, what, f"the rule is not stated for every {' and '.join(sorted({x.replace('size of ', '').replace('place in ', 'cell of a ') for x in n.names}))}: only where {show_f(mine)[:160]}: {r.text()[:120]}", r.loc)


def pairs(res, r, n, what, where, rep):
    """Lists of rows or columns gone through by index, and the ranges they are selected from."""
    for l in r.loops:
        L = res.loops[l]
        if L.kind != "range" or not (isinstance(L.source, Sym) and L.source.op == "range"):
            continue
        lo, hi, step = L.source.args
        h = to_lin(hi)
        ls = [x for x in (h[0] if h else ()) if isinstance(x, Sym) and x.op == "len" and h[0][x] == 1]
        if len(ls) == 1 and len(h[0]) == 1 and isinstance(lo, Const) and step == Const(1):
            seq, i = ls[0].args[0], Sym("idx", l)
            offs = {to_lin(x.args[1])[1] for v in (*held(r), *(M.source for M in res.loops.values() if isinstance(M.source, Sym))) for x in walk(v) if isinstance(x, Sym) and x.op in ("item", "nth") and len(x.args) == 2 and x.args[0] == seq
                    and to_lin(x.args[1]) is not None and to_lin(x.args[1])[0] == {i: 1}}
            if offs:
                rep.count("lists gone through by index")
                if lo.v > -min(offs) or h[1] < -max(offs):
                    rep.add("place-skipped", where, f"{what} (list)", f"the list is gone through from {lo.v} to its length {h[1]:+d}, which leaves out some of its entries: {r.text()[:120]}", r.loc)
        for x in {y for y in walk(L.source) if isinstance(y, Sym) and y.op == "idx" and y.args[0] not in r.loops}:
            S = res.loops.get(x.args[0])
            if S is None or S.kind != "range" or not isinstance(S.source, Sym) or S.source.op != "range":
                continue
            a, b, st = S.source.args
            d = extent(b)
            if d is None or not isinstance(a, Const) or st != Const(1):
                continue
            rep.count("lists of rows or columns")
            first = 1 if any(y == EDGES for y in walk(L.source)) else 0
            if a.v > first or to_lin(b)[1] < 0:
                rep.add("place-skipped", where, f"{what} (selection of {d}s)", f"only the {d}s from {a.v} to the last {to_lin(b)[1]:+d} are looked at: {r.text()[:120]}", r.loc)


def numbers(rules, res, where, rep):
    """The rules of a region name it by the number its cells are listed under."""
    given, used = {}, []
    for r in rules:
        if r.tree is None or r.tree.op != "rule" or not r.loops:
            continue
        n = Nest(res, r)
        if "region" not in n.names or n.why:
            continue
        if not any(isinstance(y, Sym) and y.op in LOOPVAR for y in [*walk_nodes(r.nodes), *(z for f in r.pc for g in f_lits(f) for z in walk(g[1]))]) and any(
                x.op == "lit" and name_of(x.a[1]).startswith("area") and len(x.a[2]) > 2 and x.a[2][0].op == "num" for x, _ in iter_lits(r.tree)):
            rep.add("region-skipped", where, f"{r.text()[:60]} (number)", f"the rule stated for each region does not say which region it is about: {r.text()[:120]}", r.loc)
        for x, role in iter_lits(r.tree):
            if x.op == "lit" and x.a[2] and role == "head" and name_of(x.a[1]) == "area" and len(x.a[2]) == 3:
                rep.count("lists of a region's cells")
                if not any(isinstance(y, Sym) and y.op in LOOPVAR | {"arg"} for t in subterms(x.a[2][0]) for y in (walk(n.rw(t.a[0])) if t.op == "hole" else ())) and x.a[2][0].op != "var":
                    rep.add("region-skipped", where, f"{r.text()[:60]} (number)", f"the cells of every region are listed under the same number: {r.text()[:120]}", r.loc)
            if x.op != "lit" or not x.a[2] or x.a[2][0].op != "hole":
                continue
            v = to_lin(n.rw(x.a[2][0].a[0]))
            if v is None or not any(y == arg("region 1") for y in v[0]):
                continue
            if role == "head" and name_of(x.a[1]) == "area" and len(x.a[2]) == 3:
                given.setdefault(repr(v), r)
            elif role != "head" and v[0] == {arg("region 1"): 1}:
                used.append((v, r))
    if len(given) != 1:
        return
    for v, r in used:
        rep.count("regions named by their number")
        if repr(v) not in given:
            rep.add("region-skipped", where, f"{r.text()[:60]} (number)", f"the rule is stated for another region number than the one its cells are listed under (first number {given and v[1]:+d}): {r.text()[:120]}", r.loc)


def held(r):
    for x, _ in iter_lits(r.tree):
        for t in subterms(x):
            if t.op == "hole":
                yield t.a[0]


def board(rules, where, rep):
    """The facts that put the cells on the board reach its last row and column."""
    facts_ = []
    for r in rules:
        if r.tree is None or r.tree.op != "rule" or r.loops or r.tree.a[0].op != "lit":
            continue
        h = r.tree.a[0]
        if name_of(h.a[1]) != "grid" or h.a[0] % 2 or len(h.a[2]) != 2:
            continue
        iv = []
        for t in h.a[2]:
            if t.op == "var":
                cmp_ = [c for c in flat(r.tree.a[1]) if c.op == "cmp"]
                ivs = [y for c in cmp_ for y in subterms(c) if y.op == "interval" and any(z.op == "var" and z.a[0] == t.a[0] for z in subterms(c))]
                t = ivs[0] if len(ivs) == 1 else t
            iv.append(t)
        if all(t.op == "interval" for t in iv):
            facts_.append((r, iv))
    if len(facts_) != 1:
        return
    r, iv = facts_[0]
    for i, t in enumerate(iv):
        ends = [value(x) for x in t.a]
        if None in ends or to_lin(ends[0]) is None or to_lin(ends[1]) is None:
            continue
        lo, hi = to_lin(ends[0]), to_lin(ends[1])
        d = [e for e in (ROW, COL) if hi[0] == {e: 1}]
        if not d or lo[0]:
            continue
        rep.count("extents of the board")
        if lo[1] > 0 or hi[1] < -1:
            rep.add("board-not-covered", where, f"grid, {('rows', 'columns')[i]}", f"the cells of the program run from {lo[1]} to the number of {('rows', 'columns')[i]} {hi[1]:+d}: {r.text()[:120]}", r.loc)


def value(t):
    if t.op == "hole":
        return t.a[0]
    if t.op == "num":
        return Const(int(t.a[0]))
    if t.op in ("neg", "-") and len(t.a) == 1 and t.a[0].op == "num":
        return Const(-int(t.a[0].a[0]))
    return None


def check(repo, rep, tier):
    per_solver(repo, check_solver, rep)
