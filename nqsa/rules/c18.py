"""C18: the shape catalogue and its orientations are exact."""
import re

from ..domain import Obj
from ..interp import Interp
from ..loader import AnalysisBroken
from ..orient import D4, FLIP, ONE, ROT, SUBGROUPS, Abort, Atom, Cells, Coll, Eval, Join, Lin, Raised, Text, Unanchored, det, generate, inv, lin, mul, shape
from ..registry import Unknown, plain
from ..state import State

EXPLANATION = (
    "The catalogue is obtained by constant propagation and compared with an independent enumeration of the free polyominoes and their usual letter names. "
    "The orientation generator is evaluated in an abstract domain in which a shape is the image of an unknown set of cells under a signed permutation matrix "
    "and a translation, the set being known only by its symmetry group: all ten groups are analysed, so the result holds for every shape. "
    "The rule builder for shapes is evaluated in the same domain, and every orientation must appear once in the rules it writes, with the cells of that orientation."
)
RULES = ["catalogue-size", "catalogue-cells", "catalogue-connected", "catalogue-duplicate", "catalogue-missing", "catalogue-name", "orientation-missing", "orientation-extra", "orientation-anchor",
         "shape-rule-orientation", "shape-rule-cells", "shape-rule-index"]

SHAPES = "noqx.rule.shape"
NAMES = {  # usual names, one representative each
    3: {"I": "XXX", "L": "XX/X."},
    4: {"T": "XXX/.X.", "O": "XX/XX", "I": "XXXX", "L": "X./X./XX", "S": ".XX/XX."},
    5: {"F": ".XX/XX./.X.", "I": "XXXXX", "L": "X./X./X./XX", "N": ".X/.X/XX/X.", "P": "XX/XX/X.", "T": "XXX/.X./.X.", "U": "X.X/XXX", "V": "X../X../XXX",
        "W": "X../XX./.XX", "X": ".X./XXX/.X.", "Y": ".X/XX/.X/.X", "Z": "XX./.X./.XX"},
}


def draw(s):
    return frozenset((r, c) for r, row in enumerate(s.split("/")) for c, x in enumerate(row) if x == "X")


def free(cells):
    """Normal form of a shape up to rotation, reflection and translation."""
    best = None
    for m in D4:
        im = [(m[0][0] * r + m[0][1] * c, m[1][0] * r + m[1][1] * c) for r, c in cells]
        r0, c0 = min(r for r, _ in im), min(c for _, c in im)
        k = tuple(sorted((r - r0, c - c0) for r, c in im))
        if best is None or k < best:
            best = k
    return best


def connected(cells):
    cells = set(cells)
    todo = [next(iter(cells))]
    seen = set(todo)
    while todo:
        r, c = todo.pop()
        for n in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)):
            if n in cells and n not in seen:
                seen.add(n)
                todo.append(n)
    return seen == cells


def polyominoes(n):
    cur = {free([(0, 0)])}
    for _ in range(n - 1):
        cur = {free(set(s) | {x}) for s in cur for r, c in s for x in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)) if x not in s}
    return cur


def tables(repo):
    """Module-level tables {size: {name: cells}} of the shape module."""
    it = Interp(repo)
    it.mod = SHAPES
    env = it.module_env(SHAPES)
    st = State()
    for name, v in env.items():
        if isinstance(v, Obj):
            p = plain(it, st, v)
            if isinstance(p, dict) and p and all(isinstance(k, int) for k in p) and all(isinstance(x, dict) for x in p.values()):
                yield name, p


def catalogue(repo, rep):
    m = repo.modules[SHAPES]
    found = 0
    for name, t in tables(repo):
        found += 1
        line = next((n.lineno for n in m.tree.body if name in [getattr(x, "id", None) for x in getattr(n, "targets", [getattr(n, "target", None)])]), 1)
        loc = (m.rel, line)
        for size, shapes in t.items():
            forms = {}
            for nm, cells in shapes.items():
                rep.count("catalogued shapes")
                at = f"{name}[{size}][{nm!r}]"
                if cells is Unknown or not isinstance(cells, (tuple, list)) or not all(isinstance(x, tuple) and len(x) == 2 for x in cells):
                    rep.unknown.append(at)
                    continue
                if len(set(cells)) != len(cells):
                    rep.add("catalogue-cells", name, at, f"{at} lists a cell twice", loc)
                if len(set(cells)) != size:
                    rep.add("catalogue-size", name, at, f"{at} has {len(set(cells))} cells, not {size}", loc)
                if not cells or not connected(cells):
                    rep.add("catalogue-connected", name, at, f"{at} is not connected", loc)
                    continue
                f = free(cells)
                if f in forms:
                    rep.add("catalogue-duplicate", name, at, f"{at} is the same polyomino as {forms[f]!r}", loc)
                forms.setdefault(f, nm)
                want = NAMES.get(size, {}).get(nm)
                if want is not None and free(draw(want)) != f:
                    rep.add("catalogue-name", name, at, f"{at} is not the polyomino usually called {nm}", loc)
            for f in polyominoes(size) - set(forms) if size <= 7 else ():
                rep.add("catalogue-missing", name, f"{name}[{size}]", f"{name}[{size}] lacks the polyomino {f}", loc)
    if not found:
        raise AnalysisBroken("no catalogue of shapes found")


def cosets(ms, h):
    return {frozenset(mul(m, x) for x in h) for m in ms}


def allowed(rot, ref):
    if rot and ref:
        return [D4]
    if rot:
        return [generate([ROT])]
    if ref:
        return [generate([m]) for m in D4 if det(m) == -1]
    return [frozenset({ONE})]


def name_of(m):
    t = {((1, 0), (0, 1)): "as given", ((0, -1), (1, 0)): "turned by 90 degrees", ((-1, 0), (0, -1)): "turned by 180 degrees", ((0, 1), (-1, 0)): "turned by 270 degrees",
         ((-1, 0), (0, 1)): "flipped top to bottom", ((1, 0), (0, -1)): "flipped left to right", ((0, 1), (1, 0)): "flipped along the diagonal", ((0, -1), (-1, 0)): "flipped along the other diagonal"}
    return t.get(m, str(m))


def orientations(repo, rep):
    m = repo.modules[SHAPES]
    fn = m.defs.get("get_variants")
    if fn is None:
        raise AnalysisBroken("get_variants not found")
    loc = (m.rel, fn.lineno)
    where = "get_variants"
    for h in SUBGROUPS:
        kind = f"a shape with {len(h)} symmetries"
        for rot in (False, True):
            for ref in (False, True):
                rep.count("orientation sets")
                ev = Eval(repo, SHAPES, h)
                try:
                    out = ev.call_fn(ev.lookup(SHAPES, "get_variants"), [shape(), rot, ref], {})
                    got = [i.v for i in ev.items(out)]
                    if any(not isinstance(v, Cells) for v in got) or any(i.guards or i.each for i in ev.items(out)):
                        raise Abort("result")
                    ms = [v.matrix() for v in got]
                except Raised:
                    rep.add("orientation-missing", where, f"rotations={rot}, reflections={ref}", f"no orientation is generated for {kind}: an exception is raised", loc)
                    continue
                except Unanchored as e:
                    rep.add("orientation-anchor", where, f"rotations={rot}, reflections={ref}", f"the orientations of {kind} depend on the order in which its cells are listed ({e})", loc)
                    continue
                except Abort as e:
                    rep.unknown.append(f"get_variants: {e}")
                    continue
                flags = f"rotations={rot}, reflections={ref}"
                have = cosets([x for x in ms if x], h)
                opts = [cosets(g, h) for g in allowed(rot, ref)]
                if None in ms:
                    rep.add("orientation-extra", where, flags, f"{kind} is distorted, not only turned or flipped", loc)
                if have not in opts:
                    want = max(opts, key=lambda o: len(o & have))
                    for c in sorted(want - have, key=sorted):
                        rep.add("orientation-missing", where, f"{flags}: {name_of(min(c))}", f"{kind} is never {name_of(min(c))}", loc)
                    for c in sorted(have - want, key=sorted):
                        rep.add("orientation-extra", where, f"{flags}: {name_of(min(c))}", f"{kind} is also {name_of(min(c))}", loc)
                elif len(got) != len(have):
                    rep.add("orientation-extra", where, flags, f"{kind} has an orientation listed twice", loc)
                kinds = {v.normal() for v in got}
                if None in kinds or len(kinds) > 1:
                    rep.add("orientation-anchor", where, flags, f"the orientations of {kind} are not all moved to the same anchor", loc)


# ------------------------------------------------------------------ the rules written for a shape
def lines(t):
    """Text -> lines, each a list of parts (text | Lin | Atom | Join)."""
    out = [[]]
    for p in t.parts if isinstance(t, Text) else [t]:
        if isinstance(p, str):
            bits = p.split("\n")
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        elif isinstance(p, Join) and "\n" in p.sep:
            for i in p.items:
                out[-1].append(Join("", [i]))
                out.append([])
        else:
            out[-1].append(p)
    return [ln for ln in out if any(x != "" for x in ln)]


def skel(parts, pool):
    """Parts -> text in which numbers that depend on the shape are written as {k}."""
    s = ""
    for p in parts:
        if isinstance(p, str):
            s += p
        elif isinstance(p, Lin):
            pool.append(p)
            s += "{%d}" % (len(pool) - 1)
        elif isinstance(p, Atom):
            s += p.name
        else:
            s += "?"
    return s


ATOM = re.compile(r"(not )?(\w+)\(([^()]*)\)")


def coord(arg, var, pool):
    """Offset of an argument from the variable it contains: 'R + {3}' -> the form number 3."""
    total = Lin()
    seen = False
    for sgn, term in re.findall(r"([+-]?)\s*(\{\d+\}|\w+)", arg):
        s = -1 if sgn == "-" else 1
        if term == var and s == 1 and not seen:
            seen = True
        elif term.startswith("{"):
            v = pool[int(term[1:-1])]
            total = lin_add(total, v, s)
        elif term.isdigit():
            total = lin_add(total, Lin(None, int(term)), s)
        else:
            return None
    return total if seen else None


def lin_add(a, b, s):
    t = dict(a.t)
    for x, n in b.t.items():
        t[x] = t.get(x, 0) + s * n
    return Lin(t, a.k + s * b.k)


def places(s, pool):
    """Atoms with a position: (negated, name, row form, column form, other arguments)."""
    for neg, name, args in ATOM.findall(s):
        a = [x.strip() for x in args.split(",")]
        for i in range(len(a) - 1):
            r, c = coord(a[i], "R", pool), coord(a[i + 1], "C", pool)
            if r is not None and c is not None:
                yield bool(neg), name, r, c, a[:i] + a[i + 2:]
                break


def shape_rules(repo, rep):
    m = repo.modules[SHAPES]
    fn = m.defs.get("general_shape")
    if fn is None:
        raise AnalysisBroken("general_shape not found")
    loc = (m.rel, fn.lineno)
    for h in SUBGROUPS:
        for kw in ({"_type": "grid"}, {"_type": "area"}, {"_type": "grid", "adj_type": "edge"}, {"_type": "area", "simple": True}):
            rep.count("shape rule sets")
            ev = Eval(repo, SHAPES, h)
            try:
                out = ev.call_fn(ev.lookup(SHAPES, "general_shape"), ["sample"], {"_id": Atom("ID"), "deltas": shape(), "color": "hue", **kw})
                one_builder(out, h, kw, rep, loc)
            except Raised:
                rep.add("shape-rule-orientation", "general_shape", str(kw), f"no rule is written for a shape of {len(h)} symmetries: an exception is raised", loc)
            except Abort as e:
                rep.unknown.append(f"general_shape: {e}")


def one_builder(out, h, kw, rep, loc):
    where, flags = "general_shape", ", ".join(f"{k}={v}" for k, v in kw.items())
    placed, covers = {}, {}
    for ln in lines(out):
        pool = []
        flat, items = [], []
        for p in ln:
            if isinstance(p, Join):
                for i in p.items:
                    items.append((i.each, bool(i.guards), i.v.parts if isinstance(i.v, Text) else (i.v,)))
                flat.append("%")
            else:
                flat.append(p)
        head = skel(flat, pool)
        if head.strip("%. ") == "" and len(items) == 1:  # one rule per cell
            each, guarded, parts = items[0]
            s = skel(parts, pool)
            hd, _, body = s.partition(":-")
            src = [x for x in places(body, pool) if x[1].startswith("shape_")]
            dst = list(places(hd, pool))
            if each and not guarded and len(src) == 1 and len(dst) == 1:
                covers.setdefault(tuple(src[0][4]), set()).add((dst[0][2], dst[0][3], src[0][2].key(), src[0][3].key(), tuple(dst[0][4])))
            continue
        hd, _, _ = head.partition(":-")
        ats = [x for x in places(hd, pool) if x[1].startswith("shape_")]
        if len(ats) != 1:
            continue
        cells, near = set(), set()
        for each, guarded, parts in items:
            for neg, name, r, c, _ in places(skel(parts, pool), pool):
                if each and not guarded and name == "hue" and not neg:
                    cells.add((r, c))
        placed.setdefault(tuple(ats[0][4]), []).append(cells)
    if not placed:
        if not any("shape_" in skel([p for p in ln if not isinstance(p, Join)], []).partition(":-")[0] for ln in lines(out)) and (out == "" or isinstance(out, (str, Text))):
            rep.add("shape-rule-orientation", where, f"{flags}: none", "no placement rule is written for a shape", loc)
            return
        raise Abort("no placement rule recognised")
    got = []
    for idx, cs in placed.items():
        if len(cs) > 1:
            rep.add("shape-rule-index", where, f"{flags}: {idx[-1]}", f"two placement rules of a shape share the number {idx[-1]}", loc)
        for cells in cs:
            if len(cells) != 1:
                rep.add("shape-rule-cells", where, flags, f"a placement rule does not require exactly the cells of its orientation to be coloured ({len(cells)} families of cells)", loc)
                continue
            r, c = next(iter(cells))
            cell = Cells(r, c)
            if cell.matrix() is None or cell.normal() != "smallest cell" and cell.normal() != "corner":
                rep.add("shape-rule-cells", where, flags, f"a placement rule colours cells that are no orientation of the shape: ({r}, {c})", loc)
                continue
            got.append(cell.matrix())
            cov = covers.get(idx, set())
            if not any(a == r and b == c and x == Lin().key() and y == Lin().key() for a, b, x, y, _ in cov):
                rep.add("shape-rule-cells", where, f"{flags}: cover", f"the cells said to belong to a placed shape are not those of its orientation {name_of(cell.matrix())}", loc)
    have, want = cosets(got, h), cosets(D4, h)
    for c in sorted(want - have, key=sorted):
        rep.add("shape-rule-orientation", where, f"{flags}: {name_of(min(c))}", f"no rule is written for the orientation {name_of(min(c))}", loc)
    if len(got) > len(have):
        rep.add("shape-rule-orientation", where, f"{flags}: repeated", "an orientation is written twice, so a placed shape is counted twice", loc)


def check(repo, rep, tier):
    if SHAPES not in repo.modules:
        raise AnalysisBroken(f"{SHAPES} not found")
    catalogue(repo, rep)
    orientations(repo, rep)
    shape_rules(repo, rep)
    rep.count("symmetry groups", len(SUBGROUPS))
