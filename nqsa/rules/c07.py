"""C07: every generated program parses, is safe, and tests only atoms it can produce."""
from ..asp import AspError, T, parse
from ..domain import Const, Sym, f_and, f_lits, f_not, walk
from ..facts import infeasible
from ..framework import per_solver
from ..prog import flat, iter_lits, pname, program
from ..safety import unsafe
from ..state import facts
from ..types_ import coll_name, typ

EXPLANATION = (
    "The Python that builds each puzzle type's program is interpreted abstractly (all paths, symbolic clues) into rule templates; "
    "each template variant is parsed with a grammar of clingo's input language, checked for safety, and the body atoms of all templates are "
    "matched by name and arity against the heads; constant arguments (direction names) are matched against the constants a head can carry."
)
RULES = ["syntax", "terminated", "empty-repetition", "unsafe-variable", "undefined-atom", "impossible-constant", "show-undefined"]

DIRVALS = {"center", "top", "left", "top_left", "diag_up", "diag_down"}


def name_matches(a, b):
    """Can the two name templates denote the same predicate?"""
    if a == b:
        return True
    sa = all(isinstance(p, str) for p in a)
    sb = all(isinstance(p, str) for p in b)
    if sa and sb:
        return "".join(a) == "".join(b)
    if sa:
        return name_matches(b, a) if not sb else False
    # a has holes
    if sb:
        return _match(list(a), "".join(b))
    return True


def _match(parts, text):
    if not parts:
        return text == ""
    p = parts[0]
    if isinstance(p, str):
        return text.startswith(p) and _match(parts[1:], text[len(p):])
    opts = hole_values(p[1])
    if opts is not None:
        return any(text.startswith(o) and _match(parts[1:], text[len(o):]) for o in opts)
    return any(_match(parts[1:], text[i:]) for i in range(len(text) + 1))


def hole_values(v):
    if isinstance(v, Sym) and v.op == "attr" and v.args[1] == "value" and typ(v.args[0]) == frozenset(["Direction"]):
        return DIRVALS - {"center", "top_left"}
    return None


def arity(args):
    """Possible arities, None when unknown."""
    if len(args) == 1 and args[0].op == "argpool":
        return {len(x) for x in args[0].a}
    if any(x.op == "rep" for x in args):
        return None
    return {len(args)}


# ---------------------------------------------------------------- constant domains
TOP = None


class Domains:
    """Which string constants each predicate position can hold (a flow-insensitive Datalog constant analysis)."""

    def __init__(self, rules):
        self.dom = {}
        self.rules = [r for r in rules if r.tree is not None and r.tree.op == "rule"]
        self.names = {}
        for _ in range(12):
            if not self.step():
                break

    def key(self, lit):
        if not all(isinstance(p, str) for p in lit.a[1]):
            return None
        ar = arity(lit.a[2])
        if ar is None or len(ar) != 1:
            return None
        return ("".join(lit.a[1]), next(iter(ar)))

    def args(self, lit):
        if len(lit.a[2]) == 1 and lit.a[2][0].op == "argpool":
            return list(zip(*lit.a[2][0].a))
        return [(x,) for x in lit.a[2]]

    def step(self):
        changed = False
        for r in self.rules:
            body = [x for x, role in iter_lits(r.tree) if role in ("body", "headcond") and x.a[0] == 0]
            bound = set()
            for x in flat(r.tree.a[1]):
                if x.op == "cmp" and x.a[0] == 0 and "=" in x.a[1]:
                    for p in x.a[1]:
                        if isinstance(p, T) and p.op == "var":
                            bound.add(p.a[0])
            for h, role in iter_lits(r.tree):
                if role not in ("head", "choice"):
                    continue
                k = self.key(h)
                if k is None:
                    # a templated name: everything of this arity that may match becomes unknown
                    for k2 in list(self.dom):
                        if name_matches(tuple(h.a[1]), (k2[0],)) and (arity(h.a[2]) is None or k2[1] in arity(h.a[2])):
                            for i in range(k2[1]):
                                changed |= self.join(k2, i, TOP)
                    continue
                for i, alts in enumerate(self.args(h)):
                    for t in alts:
                        changed |= self.join(k, i, self.value(t, body, bound))
        return changed

    def value(self, t, body, bound):
        if t.op == "str" and all(isinstance(p, str) for p in t.a[0]):
            return frozenset(["".join(t.a[0])])
        if t.op in ("num", "bin", "abs", "interval"):
            return frozenset([0])
        if t.op == "hole" and typ(t.a[0]) == frozenset(["int"]):
            return frozenset([0])
        if t.op == "pool":
            out = frozenset()
            for x in t.a:
                v = self.value(x, body, bound) if x.op != "rep" else TOP
                if v is TOP:
                    return TOP
                out |= v
            return out
        if t.op == "var":
            if t.a[0] in bound:
                return TOP
            res = TOP
            seen = False
            for b in body:
                k = self.key(b)
                if k is None:
                    continue
                for i, alts in enumerate(self.args(b)):
                    if len(alts) == 1 and alts[0].op == "var" and alts[0].a[0] == t.a[0]:
                        d = self.dom.get((k, i), frozenset())
                        if d is TOP:
                            continue
                        res = d if not seen else (res & d)
                        seen = True
            return res if seen else TOP
        return TOP

    def join(self, k, i, v):
        old = self.dom.get((k, i), frozenset())
        if old is TOP:
            return False
        new = TOP if v is TOP else old | v
        if new is TOP or len(new) > 40:
            new = TOP
        if new == old and (k, i) in self.dom:
            return False
        self.dom[(k, i)] = new
        return True


def doubtful(f):
    """Does the condition rest on a value of unknown type being None or some string?"""
    return any(x[1].op == "eq" and any(typ(a) is None and isinstance(a, Sym) for a in x[1].args) and any(isinstance(a, Const) and not isinstance(a.v, int) for a in x[1].args) for x in f_lits(f))


def describe(rule):
    return rule.text().strip().replace("\n", " ")[:160]


def solver(repo, res, rep):
    rules, notes = program(res)
    rep.unknown += [f"{res.name}: {n}" for n in notes]
    where = f"solver/{res.name}.py"
    opaque = any(str(n[0]).startswith("opaque") for n in res.notes)
    for r in rules:
        rep.count("rule templates")
        for n in r.nodes:
            if n[0] not in "LHRS":
                opaque = True
    for r in rules:
        if r.problem:
            rep.add("terminated", where, describe(r), "the statement is not terminated by a full stop before the program ends", r.loc)
            continue
        if r.error:
            rep.add("syntax", where, describe(r), f"not a statement of the solver's input language: {r.error}", r.loc)
            continue
        u = unsafe(r.tree)
        if u and any(doubtful(f) for f in r.pc):
            rep.unknown.append(f"{res.name}: {stable(r)}: only for a value of unknown type")
        elif u:
            rep.add("unsafe-variable", where, f"{', '.join(sorted(map(str, u)))} in {stable(r)}", "variable not bound by any positive body literal; the engine rejects the program", r.loc)
        empty_rep(res, r, rep, where)
    good = [r for r in rules if r.tree is not None]
    heads = []
    uncertain = False
    for r in good:
        for x, role in iter_lits(r.tree):
            if role in ("head", "choice") and x.a[0] == 0:
                heads.append((tuple(x.a[1]), arity(x.a[2]), r))
        if r.tree.op == "#defined":
            n = r.tree.a[1]
            heads.append((tuple(r.tree.a[0]), {int(n.a[0])} if n.op == "num" else None, None))
    for r in good:
        if r.tree.op == "#show" and len(r.tree.a) < 2:
            continue
        if r.tree.op == "#show":
            n = r.tree.a[1]
            ar = {int(n.a[0])} if n.op == "num" else None
            rep.count("show directives")
            if not any(name_matches(hn, tuple(r.tree.a[0])) and (ha is None or ar is None or ha & ar) for hn, ha, _ in heads) and not opaque:
                rep.add("show-undefined", where, f"#show {pname(r.tree.a[0])}/{sorted(ar) if ar else '?'}", "nothing in the program derives the shown predicate with that arity", r.loc)
            continue
        for x, role in iter_lits(r.tree):
            if role in ("head", "choice") and x.a[0] == 0:
                continue
            rep.count("tested atoms")
            nm, ar = tuple(x.a[1]), arity(x.a[2])
            cand = [(hn, ha, hr) for hn, ha, hr in heads if name_matches(hn, nm) and (ha is None or ar is None or ha & ar)]
            if not cand:
                if not opaque:
                    near = sorted({f"{pname(hn)}/{'|'.join(map(str, sorted(ha)))}" for hn, ha, _ in heads if ha and name_matches(hn, nm)})
                    rep.add("undefined-atom", where, f"{pname(nm)}/{'|'.join(map(str, sorted(ar or [])))} in {stable(r)}",
                            "no rule, choice or fact of this program has that atom in its head" + (f" (same name, other arity: {near})" if near else ""), r.loc)
                continue
            # is a producer there whenever the consumer is?
            F = facts(tuple(f for f in r.pc if not loop_local(f)))
            if not any(hr is None or compatible(F, hr, r) for _, _, hr in cand):
                rep.add("undefined-atom", where, f"{pname(nm)} in {stable(r)} (conditional)",
                        "every rule with that head is only emitted under conditions that exclude the conditions of this rule", r.loc)
                continue
            # is some producer there for every setting under which the consumer is?
            if any(hr is None for _, _, hr in cand):
                continue
            guards = [f_and([f for f in hr.pc if of_settings(f)]) for _, _, hr in cand]
            if True in guards or not guards:
                continue
            rep.count("settings-guarded definitions")
            if infeasible(tuple(r.pc) + tuple(f_not(g) for g in guards), typ) is False:
                rep.add("undefined-atom", where, f"{pname(nm)} in {stable(r)} (for some settings)",
                        "the rules with that head are emitted only for some parameter values, this rule also for others", r.loc)
    if not opaque:
        D = Domains(good)
        for r in good:
            if r.tree.op != "rule":
                continue
            for x, role in iter_lits(r.tree):
                if role in ("head", "choice"):
                    continue
                k = D.key(x)
                if k is None:
                    continue
                for i, alts in enumerate(D.args(x)):
                    d = D.dom.get((k, i), TOP)
                    if d is TOP or not d:
                        continue
                    for t in alts:
                        if t.op == "str" and all(isinstance(p, str) for p in t.a[0]):
                            rep.count("constant arguments")
                            s = "".join(t.a[0])
                            if s not in d:
                                rep.add("impossible-constant", where, f"{k[0]}/{k[1]} argument {i + 1} = \"{s}\" in {stable(r)}",
                                        f"the program only ever produces {sorted(map(str, d))} there, so this literal can never hold", r.loc)
    if len(rep.samples) < 2 and good:
        rep.sample(f"{where}: {len(rules)} templates, e.g. {describe(good[-1])}")


def compatible(F, hr, r):
    """The producer's path condition can hold together with the consumer's."""
    return not any(F.refutes(f) for f in hr.pc if not loop_local(f))


LOCAL = {"key", "val", "elem", "idx", "lv", "lout", "lookup", "get", "in"}


def loop_local(f):
    """The formula speaks about one element of a loop (another iteration may differ)."""
    for _, s, _ in f_lits(f):
        for x in walk(s):
            if isinstance(x, Sym) and x.op in LOCAL:
                return True
    return False


SETTINGS = {"param", "attr", "puzzle", "eq", "lt", "truthy", "int", "lin", "num", "in", "isinst", "params", "global", "mcall"}


def of_settings(f):
    """The formula speaks about parameters only (and so has one value for the whole request)."""
    has = False
    for _, s, _ in f_lits(f):
        for x in walk(s):
            if isinstance(x, Sym):
                if x.op not in SETTINGS:
                    return False
                if x.op == "attr" and x.args[1] not in ("row", "col", "margin", "param"):
                    return False
                has |= x.op == "param"
    return has


def stable(r):
    """A description of a rule that survives renumbering of symbols."""
    import re
    s = "".join(n[1] if n[0] == "L" else "_" for n in r.nodes).strip()
    return re.sub(r"\s+", " ", s)[:140]


def empty_rep(res, r, rep, where):
    reps = [n for n in r.nodes if n[0] == "R"]
    if not reps:
        return
    rep.count("templates with repetitions")
    try:
        parse(tuple(n for n in r.nodes if n[0] != "R"))
        return
    except AspError as e:
        msg = str(e)
    for n in reps:
        loop = res.loops.get(n[1]) if hasattr(res.loops, "get") else res.loops[n[1]]
        kind, src = getattr(loop, "kind", None), getattr(loop, "source", None)
        if kind not in ("items", "keys", "values", "elems") or not coll_name(src):
            return
        for f in r.pc:
            if mentions(f, n[1]):
                return
    rep.add("empty-repetition", where, stable(r), f"when the board has no such element the statement is malformed: {msg}", r.loc)


def mentions(f, lid):
    """A size/emptiness fact about a sequence built by this loop."""
    for _, s, _ in f_lits(f):
        if s.op in ("nonempty", "len", "eq", "lt", "truthy", "le"):
            txt = repr(s)
            if f"('R', {lid}" in txt or f"nonempty" in txt or "len(" in txt:
                return True
    return False


def check(repo, report, tier):
    per_solver(repo, solver, report)
