"""C15: an answer keeps the puzzle and adds only the solution layer."""
import ast

from ..codec import HISTORY, KINDS, Run, anchor, canon, compare, cut, expand, plus, ref, show, special_names, template, token
from ..domain import Const, EnumV, Str, Sym, Tup
from ..loader import AnalysisBroken
from ..state import PathDead, Unsupported
from .c14 import C, NUM, R, readings, writings

EXPLANATION = (
    "Reading a puzzle, storing an answer and writing it are interpreted abstractly on a board of unknown size whose lines other than the answer layer are "
    "opaque. The text that is compressed must be the text that was read, line by line, except for the answer layer; the written answer layer must be "
    "the one that was read plus the answer's elements; for every kind of answer element, a given element of the same kind at the same place must keep the "
    "answer element from being written; for every stored form, the given layer must win over a conflicting entry of the answer layer; and a stored answer "
    "must start with no element of the puzzle. Writes to a puzzle's raw content outside the puzzle classes are looked up in the syntax tree of every module."
)
RULES = ["line-changed", "wrong-line", "layer-changed", "overwrites-given", "answer-layer-wins", "not-cleared", "raw-content-written"]
GIVEN = {  # a given element in every form the editor gives it: colors, text styles, symbol layers, line styles
    "surface": [*range(1, 14)],
    "number": [["7", 1, "1"], ["", 1, "1"]] + [["7", c, x] for c, x in zip((2, 4, 5, 6, 7, 8, 9, 10, 11), ("2", "3", "4", "5", "6", "8", "9", "10", "11"))] + [["?", 1, "1"], ["2_3", 1, "2"]],
    "symbol": [[5, "square_M", 1], [1, "square_M", 2], [0, "ox_B", 1], [[1, 0, 1, 0], "tents", 2]],
    "edge": [2, 1, 3, 5, 8, 9, 12, 13, 21, 30, 80],
    "line": [5, 1, 2, 3, 8, 9, 12, 13, 30, 40, 80],
}
EXEMPT = {("nondango", "symbol"), ("hashi", "line")}  # the given element and the answer's share the place on purpose
RAW = {"content", "parts", "problem", "solution", "margin", "cell_shape", "puzzle_name"}


def loc_of(repo, name):
    for m in sorted(repo.modules.values(), key=lambda m: m.name == "noqx.puzzle"):
        if m.name.startswith("noqx.puzzle") or m.name == "noqx.manager":
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return (m.rel, n.lineno), name
    return None, name


def check_text(repo, rep):
    """Only the answer layer differs between the text that is read and the text that is written."""
    loc, fn = loc_of(repo, "encode")
    cases = [("no element", None, None)] + [(w[1], w[2], w) for w in writings()]
    for label, name, w in cases:
        r = Run(repo, name or "generic")
        p = r.prepare()
        r.clear(p)
        if w:
            r.inject(p, w[0], ((w[3], w[4]),))
        try:
            r.encode(p)
        except PathDead:
            continue  # C14
        got = r.lines()
        want = cut(r.it.text().nodes, ("\n",))
        if got is None or not r.it.dumped:
            rep.unknown.append(f"text written with {label}: not fully known")
            continue
        at = r.written_line()
        rep.count("written texts")
        if at is None:
            rep.unknown.append(f"text written with {label}: the written layer is not recognised")
            continue
        if len(got) != len(want):
            rep.add("line-changed", fn, "number of lines", f"the text that is read has {len(want)} lines, the text that is written {len(got)}", loc)
            return
        layer_lines = [i for i, x in enumerate(want) if x in (template(token("line 4")),)]
        for i, (a, b) in enumerate(zip(want, got)):
            if i == at[0]:
                if i not in layer_lines:
                    rep.add("wrong-line", fn, f"line {i}", f"the answer is written into line {i}, not into the answer layer (line {layer_lines})", loc)
                continue
            rep.count("lines compared")
            if canon(a) != canon(b):
                rep.add("line-changed", fn, f"line {i}", f"line {i} of the puzzle is {show(a)} when read but {show(b)} when written (with {label})", loc)
        if rep.findings:
            return


SAMPLE = {"zS": {Const("17"): 1}, "zN": {Const("18"): ["5", 1, "1"]}, "z1": {Const("80"): ["5", 1, "1"]}, "zY": {Const("19"): [2, "ox_B", 1]}, "zL": {Const("20,21"): 3}, "zE": {Const("22,23"): 3},
          "zW": {Const("24,25"): 3}, "zC": {Const("26,27"): 3}, "zF": {Const("28,29"): 3}, "z2": {Const("30,31"): 3}, "z4": {Const("32,33"): 1}, "zT": [[1, 2]], "z3": [[3, 4]], "z5": [[5, 6]], "z6": [[7, 8]], "z0": [[9]], "zD": [[10]], "z7": [[11]],
          "zR": {"z_": []}, "zU": {"z_": [1, 2]}, "z8": {"z_": [3]}}


def expand_key(k, pairs):
    if isinstance(k, Const) and isinstance(k.v, str):
        return Const(expand(f'"{k.v}"', pairs))
    return k


def plain(x):
    if isinstance(x, dict):
        return {k if not isinstance(k, (str, int)) else Const(k): plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x if not isinstance(x, (str, int)) else Const(x)


def check_layer(repo, rep):
    """What was in the answer layer stays there."""
    loc, fn = loc_of(repo, "encode")
    r = Run(repo, "generic")
    r.it.layers[token("line 4")] = dict(SAMPLE)
    p = r.prepare()
    r.clear(p)
    key = Tup((R, C, EnumV("Direction", "CENTER"), Const("normal")))
    r.inject(p, "text", ((key, NUM),))
    r.encode(p)
    out = r.written()
    if out is None:
        rep.unknown.append("the written layer is not fully known")
        return
    for s, want in SAMPLE.items():
        if s not in out:
            rep.add("layer-changed", fn, s, f"section {s} of the answer layer is dropped from the answer", loc)
            continue
        got = out[s]
        w = plain(want)
        rep.count("sections compared")
        if isinstance(got, Sym):
            rep.unknown.append(f"section {s}: {show(got)}")
            continue
        if isinstance(w, dict):
            if s in HISTORY:
                got = {expand_key(k, r.written_line()[1]): v for k, v in got.items()}
                w = {Const(k.v): v for k, v in w.items()}
            gone = [k for k, v in w.items() if got.get(k) != v]
            extra = [k for k in got if k not in w and (s != "zN")]
            for k in gone:
                rep.add("layer-changed", fn, f"{s} {show(k)}", f"an entry of section {s} of the answer layer is lost or changed: {show(got.get(k))}", loc)
            for k in extra:
                rep.add("layer-changed", fn, f"{s} {show(k)}", f"section {s} of the answer layer gets an entry {show(k)} that belongs to no element of the answer", loc)
        elif got != w:
            rep.add("layer-changed", fn, s, f"section {s} of the answer layer changes from {show(w)} to {show(got)}", loc)
    for s in out:
        if s not in SAMPLE:
            rep.add("layer-changed", fn, str(s), f"the answer layer gets a section {s} that was not there", loc)


def check_given(repo, rep):
    """A given element keeps an answer element away from its place."""
    cases = [w for w in writings() if (w[2], w[0]) not in EXEMPT]
    for name in special_names(repo):
        cases += [(kind, f"{label} of {name}", name, *rest) for kind, label, old, *rest in writings() if old == "generic" and (name, kind) not in EXEMPT]
    for kind, label, name, key, value, section, want_key, _ in cases:
        loc, fn = anchor(repo, kind, False)
        k = want_key
        for given in GIVEN[section]:
            if given_kept(repo, rep, loc, fn, kind, label, name, key, value, section, k, given):
                break


def given_kept(repo, rep, loc, fn, kind, label, name, key, value, section, k, given):
    r = Run(repo, name, {section: {k: given}})
    try:
        p = r.prepare()
        r.clear(p)
        r.inject(p, kind, ((key, value),))
        r.encode(p)
    except PathDead:
        return True  # C14
    out = r.written()
    if out is None or not isinstance(out.get(KINDS[section]), dict):
        rep.unknown.append(f"{label} on a given one: the written layer is not fully known")
        return True
    rep.count("places with a given element")
    verdicts = [compare(x, k) for x in out[KINDS[section]]]
    if True in verdicts:
        rep.add("overwrites-given", fn, label, f"the {label} of an answer is written into the answer although the puzzle has one given at the same place (as {given})", loc)
        return True
    if None in verdicts:
        rep.unknown.append(f"{label} on a given one: {show(out[KINDS[section]])}")
    return False


def conflicts():
    """(kind, label, puzzle type, section, given entry, answer entry, element, value that the given layer stands for)"""
    cell = template(ref(R, C))
    E = EnumV
    p = lambda d="CENTER", pos="normal": Tup((R, C, E("Direction", d), Const(pos)))
    yield "surface", "shaded cell", "generic", "surface", {cell: 4}, {cell: 2}, p(), E("Color", "BLACK")
    yield "surface", "cleared cell", "generic", "surface", {cell: 2}, {cell: 8}, p(), E("Color", "GREEN")
    yield "text", "number", "generic", "number", {cell: ["5", 1, "1"]}, {cell: ["6", 1, "1"]}, p(), Const(5)
    yield "symbol", "symbol", "generic", "symbol", {cell: [2, "ox_B", 1]}, {cell: [1, "ox_B", 1]}, p(), Const("ox_B__2")
    top = template(ref(plus(R, -1), plus(C, -1), 1), ",", ref(plus(R, -1), C, 1))
    cross = template(ref(plus(R, -1), C, 2))
    yield "edge", "border", "generic", "edge", {top: 2}, {cross: 98}, p("TOP"), Const(True)
    yield "edge", "crossed-out border", "generic", "edge", {cross: 98}, {top: 3}, p("TOP"), Const(False)
    right = template(ref(R, C), ",", ref(R, plus(C, 1)))
    lcross = template(ref(R, C, 3))
    yield "line", "line", "generic", "line", {right: 3}, {lcross: 98}, p("CENTER", "r"), Const(True)
    yield "line", "crossed-out line", "generic", "line", {lcross: 98}, {right: 3}, p("CENTER", "r"), Const(False)


def check_order(repo, rep):
    for kind, label, name, section, given, answer, elem, want in conflicts():
        loc, fn = anchor(repo, kind, True)
        r = Run(repo, name, {section: given}, {section: answer})
        try:
            p = r.prepare()
        except PathDead:
            continue
        got = r.coll(p, kind)
        if got is None:
            rep.unknown.append(f"conflict of a {label}: not fully known")
            continue
        rep.count("conflicts between the layers")
        d = {k: canon(v) if isinstance(v, (Str, Sym)) else v for k, v in got}
        have = d.get(elem)
        if have is None or compare(have, want) is False:
            rep.add("answer-layer-wins", fn, label, f"a given {label} with a conflicting entry in the answer layer is read as {show(have)}", loc)
        elif compare(have, want) is None:
            rep.unknown.append(f"conflict of a {label}: {show(have)}")


def check_cleared(repo, rep):
    """A stored answer starts with no element of the puzzle."""
    loc, fn = loc_of(repo, "store_solution")
    for kind, label, name, section, key, value, want in readings():
        for which in ("given", "answer"):
            r = Run(repo, name, **{which: {section: {key: value}}})
            try:
                p = r.prepare()
                s = r.store(p, Const(""))
            except PathDead:
                continue
            rep.count("elements a stored answer must not contain")
            for n in ("surface", "text", "symbol", "edge", "line"):
                got = r.coll(s, n)
                if got is None:
                    rep.unknown.append(f"answer to a puzzle with {label}: {n} not fully known")
                elif got:
                    rep.add("not-cleared", fn, f"{n} of the {which} layer", f"an answer without any element contains the {label} that the puzzle has in its {which} layer", loc)
            if s == p:
                rep.add("not-cleared", fn, "the puzzle itself", "an answer is stored in the puzzle itself, so it is carried over to the next answer", loc)


def check_raw(repo, rep):
    """Nobody but the puzzle classes writes a puzzle's raw content."""
    for m in repo.modules.values():
        if m.name.startswith("noqx.puzzle"):
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            params = {a.arg for a in fn.args.args}
            for n in ast.walk(fn):
                tg = []
                if isinstance(n, (ast.Assign, ast.Delete)):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                for t in tg:
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    if isinstance(t, ast.Attribute) and t.attr in RAW and isinstance(t.value, ast.Name) and t.value.id in params | {"solution", "puzzle"} and t.value.id != "self":
                        rep.add("raw-content-written", f"{m.rel} {fn.name}", f"{t.value.id}.{t.attr}", f"{t.value.id}.{t.attr} is changed outside the puzzle classes, so the answer no longer contains the puzzle that was sent", (m.rel, n.lineno))
            rep.count("functions outside the puzzle classes")


def check(repo, rep, tier):
    for part in (check_text, check_layer, check_given, check_order, check_cleared, check_raw):
        try:
            part(repo, rep)
        except (Unsupported, PathDead) as e:
            rep.unknown.append(f"{part.__name__}: {type(e).__name__} {e}")
    if not rep.counts.get("written texts") and not rep.counts.get("places with a given element"):
        raise AnalysisBroken(f"reading and writing could not be analysed: {rep.unknown[:3]}")
