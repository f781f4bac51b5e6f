"""C14: positions and editor codes are translated consistently both ways."""
from ..codec import (A, B, BOARD, CC, COL, KINDS, LEFT, PREFIX, ROW, RR, TOP, Run, anchor, canon, compare, plus, ref, show, special_names, template)
from ..domain import Const, EnumV, Str, Sym, Tup
from ..loader import AnalysisBroken
from ..state import PathDead, Unsupported

EXPLANATION = (
    "Reading and writing are interpreted abstractly on a board of unknown size and margins that holds one element at an unknown cell; indices are kept "
    "as polynomials in the sizes, margins and cell position. For every kind of element and every form in which the editor stores it, the element read "
    "must be the one at that place (polynomial identity); for every kind of answer element, the stored key must be the editor's index of that place, and "
    "the stored entry, read again from the answer layer, must give the same element. The abbreviation table used for reading is compared with the "
    "one used for writing and checked for overlaps, and the compression used for writing with the one undone for reading."
)
RULES = ["read-wrong", "read-fails", "written-elsewhere", "written-wrong", "write-fails", "not-read-back", "abbreviation", "prefix", "compression", "encoding", "size"]
CENTER, T, L, TL = (EnumV("Direction", x) for x in ("CENTER", "TOP", "LEFT", "TOP_LEFT"))
UP, DOWN = EnumV("Direction", "DIAG_UP"), EnumV("Direction", "DIAG_DOWN")
GREEN, GRAY, BLACK = (EnumV("Color", x) for x in ("GREEN", "GRAY", "BLACK"))
NUM = Sym("fn_int", "codec", Const("a number"))
BOARD.add(NUM)
R, C = ROW, COL
R1, C1 = plus(R, 1), plus(C, 1)
R_1, C_1 = plus(R, -1), plus(C, -1)


def pt(r, c, d=CENTER, pos="normal"):
    return Tup((r, c, d, Const(pos)))


def one(*parts):
    return template(*parts)


def readings():
    """(kind of element, description, puzzle type, section, key, stored value, expected elements)"""
    cell = one(ref(R, C))
    for code in range(1, 9):
        want = {1: GRAY, 3: GRAY, 8: GRAY, 4: BLACK, 2: GREEN}.get(code)
        yield "surface", f"surface color {code}", "generic", "surface", cell, code, {pt(R, C): want} if want else {}
    places = {0: (R, C, CENTER), 1: (R1, C1, TL), 2: (R1, C, T), 3: (R, C1, L)}
    for cat, (r, c, d) in places.items():
        k = one(ref(R, C, cat))
        yield "text", f"number at position kind {cat}", "generic", "number", k, [one(NUM), 1, "1"], {pt(r, c, d): NUM}
        yield "text", f"unquoted number at position kind {cat}", "generic", "number", k, [NUM, 1, "1"], {pt(r, c, d): NUM}
        yield "symbol", f"symbol at position kind {cat}", "generic", "symbol", k, [3, "circle_M", 1], {pt(r, c, d): Const("circle_M__3")}
        yield "symbol", f"flagged symbol at position kind {cat}", "generic", "symbol", k, [[0, 1, 1, 0, 1], "arrow_cross", 1], {pt(r, c, d, "multiple"): Const("arrow_cross__13")}
    yield "text", "letter", "generic", "number", cell, ["A", 1, "1"], {pt(R, C): Const("A")}
    yield "text", "number in small type", "generic", "number", cell, ["12", 1, "6"], {pt(R, C): Const(12)}
    for sub, txt in (("2", "3_1"), ("5", "ab"), ("8", "long text"), ("9", "x"), ("10", "y")):
        yield "text", f"text of type {sub}", "generic", "number", cell, [txt, 1, sub], {pt(R, C): Const(txt)}
    yield "text", "candidates", "generic", "number", cell, ["123", 1, "7"], {}
    yield "text", "tapa clue", "generic", "number", cell, ["13?", 1, "4"], {pt(R, C, CENTER, "tapa_0"): Const(1), pt(R, C, CENTER, "tapa_1"): Const(3), pt(R, C, CENTER, "tapa_2"): Const("?")}
    for cat in (1, 2):
        for k in range(4):
            key = one(plus_times(4, ref(R, C, cat), k))
            yield "text", f"small number {(cat - 1) * 4 + k}", "generic", "sudoku", key, [one(NUM), 1, "1"], {pt(R, C, CENTER, f"sudoku_{(cat - 1) * 4 + k}"): NUM}
    yield "symbol", "nondango mark", "nondango", "symbol", cell, [4, "circle_M", 1], {pt(R, C, CENTER, "nondango_mark"): Const("circle_M__4")}
    yield "symbol", "nondango circle", "nondango", "symbol", cell, [1, "circle_M", 1], {pt(R, C): Const("circle_M__1")}
    yield "symbol", "circle of another puzzle type", "generic", "symbol", cell, [4, "circle_M", 1], {pt(R, C): Const("circle_M__4")}
    corner = {"tl": ref(R_1, C_1, 1), "tr": ref(R_1, C, 1), "bl": ref(R, C_1, 1), "br": ref(R, C, 1)}
    for name, a, b, d in (("upper border", "tl", "tr", T), ("left border", "tl", "bl", L), ("rising diagonal", "tr", "bl", UP), ("falling diagonal", "tl", "br", DOWN)):
        yield "edge", name, "generic", "edge", one(corner[a], ",", corner[b]), 2, {pt(R, C, d): Const(True)}
    yield "edge", "crossed-out upper border", "generic", "edge", one(ref(R_1, C, 2)), 98, {pt(R, C, T): Const(False)}
    yield "edge", "crossed-out left border", "generic", "edge", one(ref(R, C_1, 3)), 98, {pt(R, C, L): Const(False)}
    for name, types in (("generic", ((3, ""),)), ("hashi", ((3, "_1"), (30, "_2")))):
        for v, suf in types:
            h = f" of {name}{suf}" if suf else ""
            yield "line", "line to the right neighbor" + h, name, "line", one(ref(R, C), ",", ref(R, C1)), v, {pt(R, C, CENTER, "r" + suf): Const(True), pt(R, C1, CENTER, "l" + suf): Const(True)}
            yield "line", "line to the lower neighbor" + h, name, "line", one(ref(R, C), ",", ref(R1, C)), v, {pt(R, C, CENTER, "d" + suf): Const(True), pt(R1, C, CENTER, "u" + suf): Const(True)}
            for dd, k in (("r", ref(R, C, 3)), ("d", ref(R, C, 2)), ("l", ref(R, C_1, 3)), ("u", ref(R_1, C, 2))):
                yield "line", f"half line to the {dd}" + h, name, "line", one(ref(R, C), ",", k), v, {pt(R, C, CENTER, dd + suf): Const(True)}
    yield "line", "crossed-out line to the right", "generic", "line", one(ref(R, C, 3)), 98, {pt(R, C, CENTER, "r"): Const(False), pt(R, C1, CENTER, "l"): Const(False)}
    yield "line", "crossed-out line downwards", "generic", "line", one(ref(R, C, 2)), 98, {pt(R, C, CENTER, "d"): Const(False), pt(R1, C, CENTER, "u"): Const(False)}


def plus_times(k, v, c):
    from ..arith import lin_build
    return lin_build([(v, k)], c)


def writings():
    """(kind, description, puzzle type, element key, element value, section, expected key, expected stored value)"""
    cell = one(ref(R, C))
    corner = {"tl": ref(R_1, C_1, 1), "tr": ref(R_1, C, 1), "bl": ref(R, C_1, 1), "br": ref(R, C, 1)}
    yield "surface", "gray cell", "generic", pt(R, C), GRAY, "surface", cell, 8
    yield "surface", "black cell", "generic", pt(R, C), BLACK, "surface", cell, 4
    yield "text", "number", "generic", pt(R, C), NUM, "number", cell, [one(NUM), None, "1"]
    yield "text", "number zero", "generic", pt(R, C), Const(0), "number", cell, ["0", None, "1"]
    yield "text", "letter", "generic", pt(R, C), Const("A"), "number", cell, ["A", None, "1"]
    yield "symbol", "symbol", "generic", pt(R, C), Const("circle_M__3"), "symbol", cell, [3, "circle_M", None]
    yield "symbol", "symbol with underscores", "generic", pt(R, C), Const("ox_B__12"), "symbol", cell, [12, "ox_B", None]
    yield "symbol", "symbol of nondango", "nondango", pt(R, C), Const("circle_M__2"), "symbol", cell, [2, "circle_M", None]
    for name, a, b, d in (("upper border", "tl", "tr", T), ("left border", "tl", "bl", L), ("rising diagonal", "tr", "bl", UP), ("falling diagonal", "tl", "br", DOWN)):
        yield "edge", name, "generic", pt(R, C, d), Const(True), "edge", one(corner[a], ",", corner[b]), None
    for name, types in (("generic", (("", 3),)), ("hashi", (("_1", 3), ("_2", 30)))):
        for suf, v in types:
            for dd, k in (("r", ref(R, C, 3)), ("d", ref(R, C, 2)), ("l", ref(R, C_1, 3)), ("u", ref(R_1, C, 2))):
                yield "line", f"half line to the {dd}{suf}", name, pt(R, C, CENTER, dd + suf), Const(True), "line", one(ref(R, C), ",", k), v


def same(want, got):
    """The stored value fits: None stands for any plain value (the editor's color or pen)."""
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(same(x, y) for x, y in zip(want, got))
    if want is None:
        return not isinstance(got, Const) or isinstance(got.v, (int, str))
    return compare(got, want if not isinstance(want, (int, str)) else Const(want)) is not False




def read(repo, name, given=None, answer=None):
    r = Run(repo, name, given, answer)
    p = r.prepare()
    return r, p


def check_reading(repo, rep, kind, label, name, section, key, value, want):
    loc, fn = anchor(repo, kind, True)
    try:
        r, p = read(repo, name, {section: {key: value}})
        got = r.coll(p, kind)
    except PathDead:
        rep.add("read-fails", fn, label, f"a {label} stored by the editor makes reading the puzzle fail", loc)
        return
    if got is None:
        rep.unknown.append(f"reading {label}: the result is not fully known")
        return
    got = {k: canon(v) if isinstance(v, (Str, Sym)) else v for k, v in got}
    others = [(n, r.coll(p, n)) for n in ("surface", "text", "symbol", "edge", "line") if n != kind]
    rep.count("stored forms read")
    fits = compare(want, got)
    if fits is None:
        rep.unknown.append(f"reading {label}: {show(got)}")
    elif not fits:
        rep.add("read-wrong", fn, label, f"a {label} stored by the editor is read as {show(got)} instead of {show(want)}", loc)
    for n, x in others:
        if x:
            rep.add("read-wrong", fn, f"{label}: {n}", f"a {label} stored by the editor is also read as {n} {show(x)}", loc)


def check_writing(repo, rep, kind, label, name, key, value, section, want_key, want_value):
    loc, fn = anchor(repo, kind, False)
    r, p = read(repo, name)
    r.clear(p)
    r.inject(p, kind, ((key, value),))
    try:
        r.encode(p)
    except PathDead:
        rep.add("write-fails", fn, label, f"an answer with a {label} cannot be written", loc)
        return
    out = r.written()
    if out is None:
        rep.unknown.append(f"writing {label}: the written layer is not fully known")
        return
    rep.count("answer elements written")
    entries = [(s, k, v) for s, c in out.items() if s not in ("zR", "zU", "z8") for k, v in (c.items() if isinstance(c, dict) else enumerate(c if isinstance(c, list) else ()))]
    code = KINDS[section]
    if any(not isinstance(c, (dict, list)) for c in out.values()):
        rep.unknown.append(f"writing {label}: {show(entries)}")
        return
    if len(entries) == 1 and entries[0][0] == code and compare(entries[0][1], want_key) is None:
        rep.unknown.append(f"writing {label}: {show(entries)}")
        return
    if len(entries) != 1 or entries[0][0] != code or not compare(entries[0][1], want_key):
        rep.add("written-elsewhere", fn, label, f"a {label} of an answer is stored as {show(entries)} instead of in section {code} under {show(want_key)}", loc)
        return
    if not same(want_value, entries[0][2]) and want_value is not None:
        rep.add("written-wrong", fn, label, f"a {label} of an answer is stored with the value {show(entries[0][2])}", loc)
        return
    # read the written entry again, from the answer layer
    r2, p2 = read(repo, name, None, {section: {entries[0][1]: entries[0][2]}})
    try:
        got = r2.coll(p2, kind)
    except PathDead:
        got = []
    if got is None:
        rep.unknown.append(f"reading back {label}")
        return
    got = {k: canon(v) if isinstance(v, (Str, Sym)) else v for k, v in got}
    fits = compare({key: value}, got)
    if fits is None:
        rep.unknown.append(f"reading back {label}: {show(got)}")
    elif not fits:
        rep.add("not-read-back", fn, label, f"a {label} written into an answer is read back as {show(got)}", loc)


def check_frame(repo, rep):
    """Header, prefix, compression and abbreviations."""
    from ..arith import lin_build
    from ..codec import BOTTOM, RIGHT
    r, p = read(repo, "generic")
    loc, fn = anchor(repo, "surface", True)
    rel = loc[0] if loc else "noqx/puzzle/penpa.py"
    want = {"row": lin_build([(RR, 1), (TOP, -1), (BOTTOM, -1)], -4), "col": lin_build([(CC, 1), (LEFT, -1), (RIGHT, -1)], -4)}
    for n, w in want.items():
        v = r.attr(p, n)
        rep.count("size fields")
        if compare(v, w) is None:
            rep.unknown.append(f"number of {n}s: {show(v)}")
        elif not compare(v, w):
            rep.add("size", rel, n, f"the number of {n}s is read as {show(v)} instead of {show(w)}", loc)
    for rule, msg in r.it.problems:
        rep.add(rule, rel, rule, msg, loc)
    r.clear(p)
    seen = len(r.it.problems)
    url = r.encode(p)
    for rule, msg in r.it.problems[seen:]:
        rep.add(rule, rel, f"{rule} when written", msg, loc)
    reads = {t: dict_ for t, dict_ in r.it.reads}
    line = r.written_line()
    if not reads or line is None:
        rep.unknown.append("the replacements made before reading or writing a layer are not recognised")
        return
    write = line[1]
    for t, pairs in reads.items():
        rep.count("abbreviations compared", len(pairs))
        back = [(b, a) for a, b in write]
        for x in sorted(set(back) ^ set(pairs)):
            rep.add("abbreviation", rel, f"{x[0]} {x[1]}", f"the abbreviation {x} is {'written but not read' if x in back else 'read but not written'}", loc)
    shorts, longs = [b for _, b in write], [a for a, _ in write]
    for xs, what in ((shorts, "abbreviation"), (longs, "section name")):
        for x in {x for x in xs if xs.count(x) > 1}:
            rep.add("abbreviation", rel, x, f"the {what} {x} occurs twice", loc)
    for i, s in enumerate(shorts):
        if len(s) < 2:
            rep.add("abbreviation", rel, s, f"the abbreviation {s!r} is too short to be told from ordinary text", loc)
        for j, t in enumerate(shorts):
            if any(s[-k:] == t[:k] for k in range(1, min(len(s), len(t)))) or (i != j and s in t):
                rep.add("abbreviation", rel, f"{s} {t}", f"the abbreviations {s} and {t} can overlap, so undoing them is ambiguous", loc)
        for lg in longs:
            if s in lg or any(lg.endswith(s[:k]) or lg.startswith(s[k:]) for k in range(1, len(s))):
                rep.add("abbreviation", rel, f"{s} {lg}", f"the abbreviation {s} can arise from the name {lg}", loc)
    for a, b in EDITOR.items():
        for pairs, verb in [(dict(v), "read") for v in reads.values()] + [({y: x for x, y in write}, "written")]:
            if a not in pairs:
                rep.add("abbreviation", rel, a, f"the editor's abbreviation {a} is not {verb}", loc)
            elif (b == "null") != (pairs[a] == "null") or (b != "null" and not (pairs[a].startswith('"') and pairs[a].endswith('"') and len(pairs[a]) > 2)):
                rep.add("abbreviation", rel, a, f"the abbreviation {a} is {verb} as {pairs[a]}", loc)
    # the address: prefix + base64(raw deflate(text))
    url = canon(url) if isinstance(url, (Str, Sym)) else url
    if isinstance(url, Str) and len(url.nodes) == 2 and url.nodes[0][0] == "L" and url.nodes[1][0] == "H":
        rep.count("addresses")
        if url.nodes[0][1] != PREFIX:
            rep.add("prefix", rel, url.nodes[0][1], f"answers are written with the prefix {url.nodes[0][1]!r} but puzzles are read with {PREFIX!r}", loc)
        h = url.nodes[1][1]
        zips = [x for x in walk_(h) if isinstance(x, Sym) and x.op == "zip"]
        cuts = [x for x in walk_(h) if isinstance(x, Sym) and x.op == "slice"]
        if zips and (len(cuts) != 1 or cuts[0].args[1:3] != (Const(2), Const(-4))):
            rep.add("compression", rel, "raw deflate", "the compressed text is not cut to raw deflate data (2 bytes of header, 4 bytes of checksum), which reading expects", loc)
    else:
        rep.unknown.append(f"the address {show(url)} is not recognised")


def walk_(v):
    from ..domain import walk
    return walk(v)


# what the editor itself writes
EDITOR = {s: "name" for s in ("z9", "zQ", "zA", "zG", "zM", "zS", "zL", "zE", "zW", "zC", "zN", "z1", "zY", "zP", "zB", "zR", "zU", "z8", "zF", "z2", "zT", "z3", "zD", "z0", "z5", "z4", "z6", "z7", "z_")}
EDITOR["zO"] = "null"


def check(repo, rep, tier):
    try:
        check_frame(repo, rep)
    except PathDead:
        raise AnalysisBroken("an empty board cannot be read or written on any path")
    except Unsupported as e:
        raise AnalysisBroken(f"reading or writing an empty board: {e}")
    read_cases, write_cases = list(readings()), list(writings())
    for name in special_names(repo):  # a puzzle type the codec mentions is coded like any other, apart from what is listed above
        own_r = {(x[3], x[4], repr(x[5])) for x in read_cases if x[2] == name}
        own_w = {x[0] for x in write_cases if x[2] == name}
        read_cases += [(k, f"{label} of {name}", name, *rest) for k, label, old, *rest in readings() if old == "generic" and (rest[0], rest[1], repr(rest[2])) not in own_r and not (name == "hashi" and k == "line" and rest[2] != 98)]
        write_cases += [(k, f"{label} of {name}", name, *rest) for k, label, old, *rest in writings() if old == "generic" and k not in own_w]
    for case in read_cases:
        try:
            check_reading(repo, rep, *case)
        except Unsupported as e:
            rep.unknown.append(f"reading {case[1]}: {e}")
    for case in write_cases:
        try:
            check_writing(repo, rep, *case)
        except Unsupported as e:
            rep.unknown.append(f"writing {case[1]}: {e}")
    if rep.counts.get("stored forms read", 0) < 10 or rep.counts.get("answer elements written", 0) < 5:
        raise AnalysisBroken(f"most of the codec could not be analysed: {rep.unknown[:3]}")
