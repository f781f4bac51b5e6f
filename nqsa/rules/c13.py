"""C13: the shared rules mean what they promise."""
import ast
import itertools
import re

from ..asp import AspError
from ..domain import Const, Str, Sym, Tup, V
from ..facts import Facts
from ..framework import per_solver
from ..interp import Interp
from ..loader import AnalysisBroken
from ..normal import Knowledge, Norm, NRule, Unclear, covers, lit_vars, normalise, only_var, permutations_closed, set_match, show, sub, text_rules, tvars, unify_all
from ..prog import iter_lits, program
from ..solve import Result
from ..state import PathDead, State, Unsupported, as_nodes

EXPLANATION = (
    "Every shared rule builder is interpreted abstractly for every supported argument combination (numbers and cells symbolic) and the text it returns is parsed and brought "
    "into a normal form in which loops, intervals, distances, negated comparisons and counted sets coincide with the ways they can also be written. The result is compared, by "
    "theta-subsumption in both directions, with a contract stated separately for that combination: a contract rule nothing covers, or a produced rule outside the contract, is reported. "
    "Starts of connectivity are judged by what they select, not by their text. The region search (which cells it visits, which borders stop it, what becomes of a second clue) and the "
    "argument checks are analysed from the syntax tree; placed shapes must be closed off and joined exactly along their cells; and in each solver's own program, every relation of "
    "connectivity must be used for one adjacency and one kind of cell."
)
RULES = ["rule-missing", "rule-weaker", "rule-stronger", "rule-differs", "rule-extra", "operator-complement", "start-cell", "refusal-condition", "bit-width", "region-neighbours", "region-search", "shape-closed", "shape-joined", "relation-mixed"]

N = "noqx.rule."
OPS = {"eq": "!=", "ge": "<", "gt": "<=", "le": ">", "lt": ">=", "ne": "="}  # what a constraint must forbid
SYMMETRIC = ["adj_4", "adj_8", "adj_x", "adj_edge", "adj_loop", "adj_loop_directed"]
ON_GRID = {"clr": [(0, 1)], "in_clr": [(0, 1)], "number": [(0, 1)], "grid_direction": [(0, 1)], "grid_in": [(0, 1)], "grid_out": [(0, 1)], "area": [(1, 2)], "loop_sign": [(0, 1)],
           "area_border": [(1, 2)], "dead_end": [(0, 1)], "path_start": [(0, 1)], "path_end": [(0, 1)], **{a: [(0, 1), (2, 3)] for a in SYMMETRIC}}


def I(n):
    return Sym("arg", n, "int")


CELLS = Sym("arg", "cells", "cells")
EDGE = Sym("attr", Sym("puzzle"), "edge")
SRC = (I("r"), I("c"))


def adj_text(t, self_=False):
    pairs4 = [("R", "C + 1"), ("R", "C - 1"), ("R + 1", "C"), ("R - 1", "C")]
    pairsx = [("R + 1", "C + 1"), ("R + 1", "C - 1"), ("R - 1", "C + 1"), ("R - 1", "C - 1")]
    out = []
    if t in (4, 8):
        out += [f"adj_{t}(R, C, {a}, {b}) :- grid(R, C), grid({a}, {b})." for a, b in pairs4]
    if t in ("x", 8):
        out += [f"adj_{t}(R, C, {a}, {b}) :- grid(R, C), grid({a}, {b})." for a, b in pairsx]
    if t == "edge":
        wall = ["edge_left(R, C + 1)", "edge_left(R, C)", "edge_top(R + 1, C)", "edge_top(R, C)"]
        out += [f"adj_edge(R, C, {a}, {b}) :- grid(R, C), grid({a}, {b}), not {w}." for (a, b), w in zip(pairs4, wall)]
    if t in ("loop", "loop_directed"):
        # the right or lower cell of a pair says so, by its own direction towards the left or upper one
        for p in ("grid_direction",) if t == "loop" else ("grid_in", "grid_out"):
            seen = ['{}(R, C + 1, "l")', '{}(R, C, "l")', '{}(R + 1, C, "u")', '{}(R, C, "u")']
            out += [f"adj_{t}(R, C, {a}, {b}) :- grid(R, C), grid({a}, {b}), {w.format(p)}." for (a, b), w in zip(pairs4, seen)]
    if self_:
        out.append(f"adj_{t}(R, C, R, C) :- grid(R, C).")
    return "\n".join(out)


def targets():
    yield I("n"), "!=", "="
    for o, f in OPS.items():
        yield (o, I("n")), f, o


def contracts():
    """(label, [(module, function, args, kwargs)], contract text)"""
    A = []

    def add(label, calls, text):
        A.append((label, calls if isinstance(calls, list) else [calls], text))

    add("display", ("common", "display", ("clr",), {"size": 3}), "#show clr/3.")
    add("defined", ("common", "defined", ("clr",), {"size": 3}), "#defined clr/3.")
    add("grid", ("common", "grid", (I("rows"), I("cols")), {}), "grid(R, C) :- R = 0..$rows - 1, C = 0..$cols - 1.")
    add("grid with holes", ("common", "grid", (I("rows"), I("cols")), {"with_holes": True}), "grid(R, C) :- R = 0..$rows - 1, C = 0..$cols - 1, not hole(R, C).")
    add("area", ("common", "area", (I("id"), CELLS), {}), "area($id, R, C) :- py_cells(R, C).")
    add("shade_c", ("common", "shade_c", ("clr",), {}), "{ clr(R, C) } :- grid(R, C).")
    add("shade_cc", ("common", "shade_cc", (("clr", "clr2", "not clr3"),), {}), "{ clr(R, C); clr2(R, C); not clr3(R, C) } = 1 :- grid(R, C).")
    add("invert_c", ("common", "invert_c", ("clr", "inv"), {}), "inv(R, C) :- grid(R, C), not clr(R, C).")
    add("edge", ("common", "edge", (I("rows"), I("cols")), {}), """
        vertical_range(R, C) :- R = 0..$rows - 1, C = 0..$cols.
        horizontal_range(R, C) :- R = 0..$rows, C = 0..$cols - 1.
        { edge_left(R, C) } :- vertical_range(R, C).
        { edge_top(R, C) } :- horizontal_range(R, C).
        edge_left(R, 0) :- R = 0..$rows - 1.
        edge_left(R, $cols) :- R = 0..$rows - 1.
        edge_top(0, C) :- C = 0..$cols - 1.
        edge_top($rows, C) :- C = 0..$cols - 1.""")
    add("direction", ("common", "direction", ("lurd",), {}), "\n".join(f'direction("{d}").' for d in "lurd"))
    add("direction (list)", ("common", "direction", (("ul", "dr"),), {}), 'direction("ul").\ndirection("dr").')
    add("fill_path", ("common", "fill_path", ("clr",), {}), "{ grid_direction(R, C, D): direction(D) } :- grid(R, C), clr(R, C).")
    add("fill_path directed", ("common", "fill_path", ("clr",), {"directed": True}), "\n".join(f"{{ grid_{x}(R, C, D): direction(D) }} <= 1 :- grid(R, C), clr(R, C)." for x in ("in", "out")))
    for clr, extra in ((None, ""), ("clr", "; clr(R, C)")):
        add(f"fill_num grid {clr}", ("common", "fill_num", ((1, 2, 3, 5),), {"_type": "grid", "color": clr}), f"{{ number(R, C, (1..3;5)){extra} }} = 1 :- grid(R, C).")
        add(f"fill_num area {clr}", ("common", "fill_num", ((1, 2, 3, 5),), {"_type": "area", "_id": I("id"), "color": clr}), f"{{ number(R, C, (1..3;5)){extra} }} = 1 :- area($id, R, C).")
    for clr in ("clr", "not clr", "grid"):
        add(f"unique_num row {clr}", ("common", "unique_num", (clr,), {"_type": "row"}), f":- grid(R, _), number(_, _, N), #count {{ C : grid(R, C), {clr}(R, C), number(R, C, N) }} > 1.")
        add(f"unique_num col {clr}", ("common", "unique_num", (clr,), {"_type": "col"}), f":- grid(_, C), number(_, _, N), #count {{ R : grid(R, C), {clr}(R, C), number(R, C, N) }} > 1.")
        add(f"unique_num area {clr}", ("common", "unique_num", (clr,), {"_type": "area"}),
            f":- area(A, _, _), number(_, _, N), #count {{ R, C : grid(R, C), {clr}(R, C), area(A, R, C), number(R, C, N) }} > 1.")
    for tgt, f, o in targets():
        add(f"count grid {o}", ("common", "count", (tgt, "clr"), {"_type": "grid"}), f":- #count {{ R, C : grid(R, C), clr(R, C) }} {f} $n.")
        add(f"count row {o}", ("common", "count", (tgt, "clr"), {"_type": "row"}), f":- grid(R, _), #count {{ C : clr(R, C) }} {f} $n.")
        add(f"count col {o}", ("common", "count", (tgt, "clr"), {"_type": "col"}), f":- grid(_, C), #count {{ R : clr(R, C) }} {f} $n.")
        add(f"count one row {o}", ("common", "count", (tgt, "clr"), {"_type": "row", "_id": I("id")}), f":- grid($id, _), #count {{ C : clr($id, C) }} {f} $n.")
        add(f"count one col {o}", ("common", "count", (tgt, "clr"), {"_type": "col", "_id": I("id")}), f":- grid(_, $id), #count {{ R : clr(R, $id) }} {f} $n.")
        add(f"count area {o}", ("common", "count", (tgt, "clr"), {"_type": "area", "_id": I("id")}), f":- #count {{ R, C : area($id, R, C), clr(R, C) }} {f} $n.")
        for t in (4, 8, "x", "edge", "loop"):
            add(f"count_adjacent {t} {o}", ("neighbor", "count_adjacent", (tgt, SRC), {"color": "clr", "adj_type": t}), f":- #count {{ R, C : clr(R, C), adj_{t}(R, C, $r, $c) }} {f} $n.")
        add(f"count_adjacent_edges {o}", ("neighbor", "count_adjacent_edges", (tgt, SRC), {}), f":- {{ edge_left($r, $c); edge_left($r, $c + 1); edge_top($r, $c); edge_top($r + 1, $c) }} {f} $n.")
        for kind, clr, t in (("grid", "clr", 4), ("grid", "clr", "edge"), ("grid", None, "edge"), ("grid", "clr", "loop"), ("bulb", "clr", 4)):
            base = ("reachable", f"{kind}_src_color_connected", (SRC,), {"color": clr, "adj_type": t})
            add(f"count_reachable_src {kind} {t} {clr} {o}", [base, ("reachable", "count_reachable_src", (tgt, SRC), {"main_type": kind, "color": clr, "adj_type": t})],
                src_text(kind, clr, t) + f"\n:- {{ TAG($r, $c, R, C) }} {f} $n.")
        for clr, t in (("clr", 4), (None, "edge")):
            base = ("reachable", "bulb_src_color_connected", (SRC,), {"color": clr, "adj_type": t})
            add(f"count_rect_src {t} {o}", [base, ("reachable", "count_rect_src", (tgt, SRC), {"color": clr, "adj_type": t})],
                src_text("bulb", clr, t) + f"\n:- #count {{ R : TAG($r, $c, R, C) }} = CR, #count {{ C : TAG($r, $c, R, C) }} = CC, CR * CC {f} $n.")
        for kind, pre, body in (("grid", "", ""), ("area", "area(A, _, _), ", "A, ")):
            add(f"count_shape {kind} {o}", ("shape", "count_shape", (tgt, "shp"), {"_id": I("id"), "color": "clr", "_type": kind}), f":- {pre}{{ TAG({body}R, C, $id, V) }} {f} $n.")
            add(f"count_shape any {kind} {o}", ("shape", "count_shape", (tgt, "shp"), {"_id": None, "color": "clr", "_type": kind}), f":- {pre}{{ TAG({body}R, C, K, V) }} {f} $n.")
    for t in (4, 8, "x", "edge", "loop", "loop_directed"):
        for s in (False, True):
            add(f"adjacent {t}{' with itself' if s else ''}", ("neighbor", "adjacent", (t, s), {}), adj_text(t, s))
        add(f"avoid_adjacent_color {t}", ("neighbor", "avoid_adjacent_color", ("clr", t), {}), f":- clr(R, C), clr(R1, C1), adj_{t}(R, C, R1, C1).")
        add(f"area_adjacent {t}", ("neighbor", "area_adjacent", (t,), {}), f"TAG(A, A1) :- area(A, R, C), area(A1, R1, C1), adj_{t}(R, C, R1, C1), A < A1.")
        add(f"area_adjacent {t} clr", ("neighbor", "area_adjacent", (t, "clr"), {}), f"TAG(A, A1) :- area(A, R, C), area(A1, R1, C1), adj_{t}(R, C, R1, C1), A < A1, clr(R, C), clr(R1, C1).")
        add(f"avoid_num_adjacent {t}", ("neighbor", "avoid_num_adjacent", (t,), {}), f":- number(R, C, N), number(R1, C1, N), adj_{t}(R, C, R1, C1).")
        add(f"nori_adjacent {t}", ("variety", "nori_adjacent", ("clr", t), {}), f":- grid(R, C), clr(R, C), #count {{ R1, C1 : clr(R1, C1), adj_{t}(R, C, R1, C1) }} != 1.")
    for clr in ("clr", "not clr"):
        add(f"area_same_color {clr}", ("neighbor", "area_same_color", (clr,), {}), f":- area(A, R, C), area(A, R1, C1), {clr}(R, C), not {clr}(R1, C1).")
    add("area_border", ("neighbor", "area_border", (I("id"), CELLS, EDGE), {}), """
        area_border($id, R, C, "u") :- py_cells(R, C), py_edge(R, C, "TOP").
        area_border($id, R, C, "d") :- py_cells(R, C), py_edge(R + 1, C, "TOP").
        area_border($id, R, C, "l") :- py_cells(R, C), py_edge(R, C, "LEFT").
        area_border($id, R, C, "r") :- py_cells(R, C), py_edge(R, C + 1, "LEFT").""")
    # connectivity
    for clr in ("clr", "not clr"):
        for t in (4, 8, "x", "loop", "loop_directed"):
            for size in (None, (I("rows"), I("cols"))):
                add(f"grid_color_connected {t} {clr}{' from the middle' if size else ''}", ("reachable", "grid_color_connected", (clr, t), {"grid_size": size}),
                    f"START TAG(R, C) | {clr}(R, C)\nTAG(R, C) :- TAG(R1, C1), grid(R, C), {clr}(R, C), adj_{t}(R, C, R1, C1).\n:- grid(R, C), {clr}(R, C), not TAG(R, C).")
        for t in (4, 8, "x"):
            add(f"area_color_connected {t} {clr}", ("reachable", "area_color_connected", (clr, t), {}),
                f"START TAG(A, R, C) | area(A, R, C), {clr}(R, C)\nTAG(A, R, C) :- TAG(A, R1, C1), area(A, R, C), {clr}(R, C), adj_{t}(R, C, R1, C1).\n:- area(A, R, C), {clr}(R, C), not TAG(A, R, C).")
            add(f"border_color_connected {t} {clr}", ("reachable", "border_color_connected", (I("rows"), I("cols"), clr, t), {}), f"""
                TAG(0, C) :- {clr}(0, C), C = 0..$cols - 1.
                TAG($rows - 1, C) :- {clr}($rows - 1, C), C = 0..$cols - 1.
                TAG(R, 0) :- {clr}(R, 0), R = 0..$rows - 1.
                TAG(R, $cols - 1) :- {clr}(R, $cols - 1), R = 0..$rows - 1.
                TAG(R, C) :- TAG(R1, C1), grid(R, C), {clr}(R, C), adj_{t}(R, C, R1, C1).
                :- grid(R, C), {clr}(R, C), not TAG(R, C).""")
    for clr, t in (("clr", 4), ("not clr", 4), ("clr", 8), ("clr", "x"), ("clr", "loop"), ("clr", "loop_directed"), ("clr", "edge"), (None, "edge")):
        f = ("reachable", "grid_src_color_connected", (SRC,), {"color": clr, "adj_type": t})
        add(f"grid_src_color_connected {t} {clr}", f, src_text("grid", clr, t))
        g = (f[0], f[1], f[2], {**f[3], "include_cells": CELLS})
        add(f"grid_src_color_connected {t} {clr} with more sources", g, src_text("grid", clr, t) + "\nTAG($r, $c, R, C) :- py_cells(R, C).")
        g = (f[0], f[1], f[2], {**f[3], "exclude_cells": CELLS})
        add(f"grid_src_color_connected {t} {clr} with excluded cells", g, src_text("grid", clr, t) + "\n:- TAG($r, $c, R, C), py_cells(R, C).")
        if clr and t in (4, 8, "loop", "loop_directed"):
            add(f"avoid_unknown_src {t} {clr}", [f, ("reachable", "avoid_unknown_src", (clr, t), {})], src_text("grid", clr, t) + f"\n:- grid(R, C), {clr}(R, C), not TAG(_, _, R, C).")
        if clr is None:
            add(f"avoid_unknown_src {t} {clr}", [f, ("reachable", "avoid_unknown_src", (clr, t), {})], src_text("grid", clr, t) + "\n:- grid(R, C), not TAG(_, _, R, C).")
    for clr, t in (("clr", 4), ("not clr", 4), (None, "edge")):
        add(f"bulb_src_color_connected {t} {clr}", ("reachable", "bulb_src_color_connected", (SRC,), {"color": clr, "adj_type": t}), src_text("bulb", clr, t))
    for t in (4, 8, "x", "loop", "loop_directed"):
        b = f"""
            {{ TAG(R, C, B) }} :- grid(R, C), clr(R, C), bit_range(B).
            TAG(R, C, B) :- clue_bit(R, C, B).
            :- TAG(R, C, B), grid(R, C), clr(R, C), bit_range(B), clue(R, C), not clue_bit(R, C, B).
            TAG(R, C, B) :- TAG(R1, C1, B), grid(R, C), bit_range(B), clr(R, C), adj_{t}(R, C, R1, C1).
            :- TAG(R, C, B), not TAG(R1, C1, B), grid(R, C), grid(R1, C1), bit_range(B), clr(R, C), clr(R1, C1), adj_{t}(R, C, R1, C1)."""
        add(f"grid_bit_color_connected {t}", ("reachable", "grid_bit_color_connected", ("clr", t), {}), b)
        add(f"avoid_unknown_src_bit {t}", [("reachable", "grid_bit_color_connected", ("clr", t), {}), ("reachable", "avoid_unknown_src_bit", ("clr", t), {})], b + "\n:- grid(R, C), clr(R, C), not TAG(R, C, _).")
    for t, clr in ((4, "clr"), (8, "clr"), ("x", "clr"), (4, "not clr")):
        add(f"grid_branch_color_connected {t} {clr}", ("reachable", "grid_branch_color_connected", (clr, t), {}),
            f"TAG(R, C, R, C) :- grid(R, C), {clr}(R, C).\nTAG(R0, C0, R, C) :- TAG(R0, C0, R1, C1), grid(R, C), {clr}(R, C), adj_{t}(R, C, R1, C1).")
    for clr in ("clr", None):
        add(f"grid_branch_color_connected edge {clr}", ("reachable", "grid_branch_color_connected", (clr, "edge"), {}), """
            TAG(R, C, R, C) :- grid(R, C).
            TAG(R0, C0, R, C) :- TAG(R0, C0, R1, C1), grid(R, C), adj_edge(R, C, R1, C1).
            :- TAG(R, C, R, C + 1), edge_left(R, C + 1).
            :- TAG(R, C, R + 1, C), edge_top(R + 1, C).
            :- TAG(R, C + 1, R, C), edge_left(R, C + 1).
            :- TAG(R + 1, C, R, C), edge_top(R + 1, C).""")
    # loops
    match = [("l", "R, C - 1", "r"), ("u", "R - 1, C", "d"), ("r", "R, C + 1", "l"), ("d", "R + 1, C", "u")]
    pair = "\n".join(f':- grid(R, C), grid_direction(R, C, "{a}"), not grid_direction({p}, "{b}").' for a, p, b in match)
    dpair = "\n".join(f':- grid(R, C), grid_{x}(R, C, "{a}"), not grid_{y}({p}, "{b}").' for x, y in (("in", "out"), ("out", "in")) for a, p, b in match)
    for path in (False, True):
        end = ", not dead_end(R, C)" if path else ""
        one = "\n:- dead_end(R, C), grid(R, C), #count { D : grid_direction(R, C, D) } != 1." if path else ""
        two = "pass_by_loop(R, C) :- grid(R, C), #count { D : grid_direction(R, C, D) } = 2."
        for clr in ("clr", "not clr"):
            add(f"single_loop {clr} {'path' if path else 'loop'}", ("loop", "single_loop", (clr,), {"path": path}), f"{two}\n:- grid(R, C), {clr}(R, C), not pass_by_loop(R, C){end}.{one}\n{pair}")
            add(f"intersect_loop {clr} {'path' if path else 'loop'}", ("loop", "intersect_loop", (clr,), {"path": path}),
                f"{two}\nintersection(R, C) :- grid(R, C), #count {{ D : grid_direction(R, C, D) }} = 4.\npass_by_loop(R, C) :- intersection(R, C).\n:- grid(R, C), {clr}(R, C), not pass_by_loop(R, C){end}.{one}\n{pair}")
        ends = ", not path_start(R, C), not path_end(R, C)" if path else ""
        cnt = "".join(f"\n:- path_{p}(R, C), grid(R, C), #count {{ D : grid_{x}(R, C, D) }} != {k}." for p, x, k in (("start", "out", 1), ("start", "in", 0), ("end", "in", 1), ("end", "out", 0))) if path else ""
        add(f"directed_loop {'path' if path else 'loop'}", ("loop", "directed_loop", ("clr",), {"path": path}),
            "pass_by_loop(R, C) :- grid(R, C), clr(R, C), #count { D : grid_in(R, C, D) } = 1, #count { D : grid_out(R, C, D) } = 1, grid_in(R, C, D0), not grid_out(R, C, D0)."
            f"\n:- grid(R, C), clr(R, C), not pass_by_loop(R, C){ends}.{cnt}\n{dpair}")
    add("count_area_pass", ("loop", "count_area_pass", (I("n"), I("id")), {}), ":- #count { R, C, D : area_border($id, R, C, D), grid_direction(R, C, D) } != 2 * $n.")
    ray = "outside_loop(-1, C) :- grid(_, C).\noutside_loop(R, C) :- grid(R, C), outside_loop(R - 1, C), not grid_direction(R, C, \"r\").\noutside_loop(R, C) :- grid(R, C), not outside_loop(R - 1, C), grid_direction(R, C, \"r\")."
    for i, o in (("ins", "out"), ("ins", ""), ("", "out")):
        add(f"separate_item_from_loop {i or '-'} {o or '-'}", ("loop", "separate_item_from_loop", (i, o), {}),
            ray + ("\n:- ins(R, C), outside_loop(R, C)." if i else "") + ("\n:- out(R, C), not outside_loop(R, C)." if o else ""))
    turn = ("lu", "ld", "ru", "rd")
    both = 'grid(R, C), clr(R, C), grid_direction(R, C, "{0}"), grid_direction(R, C, "{1}")'
    add("loop_sign", ("loop", "loop_sign", ("clr",), {}), "\n".join(f'loop_sign(R, C, "{d}") :- {both.format(*d)}.' for d in (*turn, "lr", "ud")))
    add("loop_straight", ("loop", "loop_straight", ("clr",), {}), "\n".join(f"straight(R, C) :- {both.format(*d)}." for d in ("lr", "ud")))
    add("loop_turning", ("loop", "loop_turning", ("clr",), {}), "\n".join(f"turning(R, C) :- {both.format(*d)}." for d in turn))
    ext = {"u": '#max { R0 : grid(R0 + 1, $c), not loop_sign(R0, $c, "ud"), R0 < $r }', "d": '#min { R0 : grid(R0 - 1, $c), not loop_sign(R0, $c, "ud"), R0 > $r }',
           "l": '#max { C0 : grid($r, C0 + 1), not loop_sign($r, C0, "lr"), C0 < $c }', "r": '#min { C0 : grid($r, C0 - 1), not loop_sign($r, C0, "lr"), C0 > $c }'}
    seg = [(d, "T", d[1], d[0]) for d in turn] + [("ud", "V", "u", "d"), ("lr", "H", "l", "r")]
    add("loop_segment", ("loop", "loop_segment", (SRC,), {}), "\n".join(f'segment($r, $c, N1, N2, "{k}") :- loop_sign($r, $c, "{d}"), N1 = {ext[a]}, N2 = {ext[b]}.' for d, k, a, b in seg))
    for directed in (False, True):
        src = ("grid_in", "grid_out") if directed else ("grid_direction",)
        add(f"convert_direction_to_edge{' directed' if directed else ''}", ("loop", "convert_direction_to_edge", (), {"directed": directed}),
            "\n".join(f'edge_top(R, C) :- {p}(R, C, "r").\nedge_left(R, C) :- {p}(R, C, "d").' for p in src))
        add(f"convert_direction_to_edge diagonal{' directed' if directed else ''}", ("loop", "convert_direction_to_edge", (), {"directed": directed, "diagonal": True}),
            "\n".join(f'edge_diag_down(R, C) :- {p}(R, C, "dr").\nedge_diag_up(R, C) :- {p}(R + 1, C, "ur").' for p in src))
    # shapes
    add("all_shapes grid", ("shape", "all_shapes", ("shp", "clr"), {"_type": "grid"}), ":- grid(R, C), clr(R, C), not TAG(R, C, _, _).")
    add("all_shapes area", ("shape", "all_shapes", ("shp", "clr"), {"_type": "area"}), ":- area(A, R, C), clr(R, C), not TAG(A, R, C, _, _).")
    for sq in (False, True):
        extra = """
            :- upleft(R, C), MR = #min { R0 : grid(R0 - 1, C), not clr(R0, C), R0 > R }, MC = #min { C0 : grid(R, C0 - 1), not clr(R, C0), C0 > C }, MR - R != MC - C.
            :- upleft(R, C), left(R + 1, C), not up(R, C + 1).
            :- upleft(R, C), not left(R + 1, C), up(R, C + 1).""" if sq else ""
        add(f"all_rect{' square' if sq else ''}", ("shape", "all_rect", ("clr",), {"square": sq}), """
            upleft(R, C) :- grid(R, C), clr(R, C), not clr(R - 1, C), not clr(R, C - 1).
            left(R, C) :- grid(R, C), clr(R, C), upleft(R - 1, C), clr(R - 1, C), not clr(R, C - 1).
            left(R, C) :- grid(R, C), clr(R, C), left(R - 1, C), clr(R - 1, C), not clr(R, C - 1).
            up(R, C) :- grid(R, C), clr(R, C), upleft(R, C - 1), clr(R, C - 1), not clr(R - 1, C).
            up(R, C) :- grid(R, C), clr(R, C), up(R, C - 1), clr(R, C - 1), not clr(R - 1, C).
            remain(R, C) :- grid(R, C), left(R, C - 1), up(R - 1, C).
            remain(R, C) :- grid(R, C), left(R, C - 1), remain(R - 1, C).
            remain(R, C) :- grid(R, C), remain(R, C - 1), up(R - 1, C).
            remain(R, C) :- grid(R, C), remain(R, C - 1), remain(R - 1, C).
            :- grid(R, C), clr(R, C), not upleft(R, C), not left(R, C), not up(R, C), not remain(R, C).
            :- grid(R, C), remain(R, C), not clr(R, C).""" + extra)
    for sq in (False, True):
        extra = "\n:- upleft(R, C), MR = #min { R0 : grid(R0 - 1, C), edge_top(R0, C), R0 > R }, MC = #min { C0 : grid(R, C0 - 1), edge_left(R, C0), C0 > C }, MR - R != MC - C." if sq else ""
        add(f"all_rect_region{' square' if sq else ''}", ("shape", "all_rect_region", (), {"square": sq}), """
            upleft(R, C) :- grid(R, C), edge_left(R, C), edge_top(R, C).
            left(R, C) :- grid(R, C), upleft(R - 1, C), edge_left(R, C), not edge_top(R, C).
            left(R, C) :- grid(R, C), left(R - 1, C), edge_left(R, C), not edge_top(R, C).
            up(R, C) :- grid(R, C), upleft(R, C - 1), edge_top(R, C), not edge_left(R, C).
            up(R, C) :- grid(R, C), up(R, C - 1), edge_top(R, C), not edge_left(R, C).
            remain(R, C) :- grid(R, C), left(R, C - 1), up(R - 1, C).
            remain(R, C) :- grid(R, C), left(R, C - 1), remain(R - 1, C).
            remain(R, C) :- grid(R, C), remain(R, C - 1), up(R - 1, C).
            remain(R, C) :- grid(R, C), remain(R, C - 1), remain(R - 1, C).
            :- grid(R, C), { upleft(R, C); left(R, C); up(R, C); remain(R, C) } != 1.
            :- grid(R, C), remain(R, C), left(R, C + 1), not edge_left(R, C + 1).
            :- grid(R, C), remain(R, C), upleft(R, C + 1), not edge_left(R, C + 1).
            :- grid(R, C), remain(R, C), up(R + 1, C), not edge_top(R + 1, C).
            :- grid(R, C), remain(R, C), upleft(R + 1, C), not edge_top(R + 1, C).
            :- grid(R, C), left(R, C), remain(R, C + 1), edge_left(R, C + 1).
            :- grid(R, C), remain(R, C), remain(R, C + 1), edge_left(R, C + 1).
            :- grid(R, C), up(R, C), remain(R + 1, C), edge_top(R + 1, C).
            :- grid(R, C), remain(R, C), remain(R + 1, C), edge_top(R + 1, C).""" + extra)
    for h, w in ((2, 2), (1, 3), (3, 2)):
        for rr, cc in (("R", "C"), ("$cr", "C"), ("R", "$cc"), ("$cr", "$cc")):
            cells = ", ".join(f"clr({rr} + {i}, {cc} + {j})" for i in range(h) for j in range(w))
            inside = "" if "R" not in rr + cc and "C" not in rr + cc else f", grid({rr}, {cc}), grid({rr} + {h - 1}, {cc} + {w - 1})"
            corner = (I("cr") if rr == "$cr" else None, I("cc") if cc == "$cc" else None)
            add(f"avoid_rect {h}x{w} at {rr}, {cc}", ("shape", "avoid_rect", (h, w, "clr"), {"corner": corner}), f":- {cells}{inside}.")
    square4 = ["clr(R, C)", "clr(R, C + 1)", "clr(R + 1, C)", "clr(R + 1, C + 1)"]
    ell = [f"TAG({'R, C' if i else 'R + 1, C + 1'}) :- grid(R, C), grid(R + 1, C + 1), " + ", ".join(("not " if i == j else "") + x for j, x in enumerate(square4)) + "." for i in range(4)]
    add("no_rect", ("shape", "no_rect", ("clr",), {}), "\n".join(ell) + "\nTAG(R, C) :- TAG(R1, C1), clr(R, C), adj_4(R, C, R1, C1).\n:- grid(R, C), clr(R, C), not TAG(R, C).")
    add("avoid_region_border_crossover", ("shape", "avoid_region_border_crossover", (), {}), ":- grid(R, C), edge_left(R, C + 1), edge_left(R + 1, C + 1), edge_top(R + 1, C), edge_top(R + 1, C + 1).")
    for k, n in ((5, 3), (6, 3), (1, 1), (9, 5)):
        add(f"clue_bit {k}", ("reachable", "clue_bit", (I("r"), I("c"), k, n), {}), "clue($r, $c).\n" + "\n".join(f"clue_bit($r, $c, {i})." for i in range(n) if k >> i & 1))
    # counting along an arrow: 0 up, 1 left, 2 right, 3 down
    for d, elem in enumerate(("R1 : clr(R1, $c), R1 < $r", "C1 : clr($r, C1), C1 < $c", "C1 : clr($r, C1), C1 > $c", "R1 : clr(R1, $c), R1 > $r")):
        add(f"yaji_count {d}", ("variety", "yaji_count", (I("n"), SRC, d), {"color": "clr"}), f":- #count {{ {elem} }} != $n.")
        add(f"yaji_count {d} clue may be shaded", ("variety", "yaji_count", (I("n"), SRC, d), {"color": "clr", "unshade_clue": False}), f":- not clr($r, $c), #count {{ {elem} }} != $n.")
    return A


def src_text(kind, clr, t):
    if kind == "bulb":
        c = f", {clr}(R, C)" if t == 4 and clr else ""
        return f"TAG($r, $c, $r, $c).\nTAG($r, $c, R, C) :- TAG($r, $c, R1, C1){c}, adj_{t}(R, C, R1, C1), (R - $r) * (C - $c) == 0."
    if t == "edge":
        return ("TAG($r, $c, $r, $c).\nTAG($r, $c, R, C) :- TAG($r, $c, R1, C1), grid(R, C), adj_edge(R, C, R1, C1).\n"
                ":- TAG($r, $c, R, C), TAG($r, $c, R, C + 1), edge_left(R, C + 1).\n:- TAG($r, $c, R, C), TAG($r, $c, R + 1, C), edge_top(R + 1, C).")
    return f"TAG($r, $c, $r, $c).\nTAG($r, $c, R, C) :- TAG($r, $c, R1, C1), grid(R, C), {clr}(R, C), adj_{t}(R, C, R1, C1)."


# ------------------------------------------------------------------ interpretation of a builder
def value(v, it=None, st=None):
    if isinstance(v, V):
        return v
    if isinstance(v, tuple):
        return Tup([value(x) for x in v])
    return Const(v)


def find(repo, mod, fn):
    """Module in which the builder is defined: its own, or the one it was moved to."""
    m = N + mod
    if m in repo.modules and fn in repo.modules[m].defs:
        return m
    for k, x in repo.modules.items():
        if k.startswith(N[:-1]) and fn in x.defs:
            return k
    return None


def call(repo, mod, fn, args, kw):
    m = find(repo, mod, fn)
    if m is None:
        raise Unclear(f"no function {fn}")
    it = Interp(repo)
    it.mod = m
    it.frame_id_stack = ["top"]
    node = repo.modules[m].defs[fn]
    it.stack = [("<contract>", (repo.modules[m].rel, node.lineno))]
    st = State()
    st.frames["top"] = {}
    st.pc = ()
    v = it.call_func(it.module_env(m)[fn], [value(a) for a in args], {k: value(x) for k, x in kw.items()}, st, node)
    r = Result()
    r.program = v if isinstance(v, Str) else Str(as_nodes(v))
    r.state, r.interp, r.events, r.loops, r.notes = st, it, it.events, it.loops, it.notes
    return r, (repo.modules[m].rel, node.lineno)


def produced(repo, calls):
    rules = []
    loc = None
    for mod, fn, args, kw in calls:
        r, loc = call(repo, mod, fn, args, kw)
        rs, notes = program(r)
        if notes:
            raise Unclear(notes[0])
        for x in rs:
            if x.error or x.problem:
                raise Unclear(x.error or x.problem)
            rules += [NRule(n.head, n.body, x.loc or loc) for n in normalise(x.tree, r.loops, x.pc, x.loc)]
    return rules, loc


# ------------------------------------------------------------------ comparison
def preds(rules):
    out = set()

    def lit(l):
        if l[0] == "lit":
            out.add((l[2], len(l[3])))
        elif l[0] == "agg":
            for _, c, _ in l[2]:
                for x in c:
                    lit(x)
        elif l[0] == "cond":
            lit(l[1])
            for x in l[2]:
                lit(x)
        elif l[0] == "choice":
            for t, c, _ in l[1]:
                for x in t:
                    if x[0] == "f":
                        out.add((x[1].replace("not ", ""), len(x[2])))
                for x in c:
                    lit(x)
    for r in rules:
        lit(r.head)
        for l in r.body:
            lit(l)
    return out


def rename(text, tag):
    return text.replace("TAG", tag)


def skeleton(r):
    out = []
    if r.head[0] == "lit":
        out.append(("head", r.head[2]))
    elif r.head[0] == "choice":
        out.append(("head", "choice", tuple(sorted(x[1] for t, _, _ in r.head[1] for x in t if x[0] == "f"))))
    for l in r.body:
        if l[0] == "lit" and l[2] != "grid" and not l[2].startswith("py_"):
            out.append(("lit", l[1], l[2]))
        elif l[0] == "agg":
            out.append(("agg", l[1], tuple(sorted(x[2] for _, c, _ in l[2] for x in c if x[0] == "lit" and x[2] != "grid"))))
    return out


def renamed(x, y):
    """Do two skeletons differ in the name of one relation only?"""
    pairs = set()
    if len(x) != len(y):
        return False
    left = list(y)
    for e in x:
        if e in left:
            left.remove(e)
        else:
            pairs.add(e)
    a, b = {e[-1] for e in pairs}, {e[-1] for e in left}
    return len(a) == len(b) == 1 and all(isinstance(n, str) for n in a | b) and sorted(e[:-1] for e in pairs for _ in range(x.count(e) - (y.count(e)))) == sorted(e[:-1] for e in left)


def distance(a, b):
    x, y = list(skeleton(a)), list(skeleton(b))
    if x != y and renamed(x, y):
        return 1, 2
    for e in list(x):
        if e in y:
            x.remove(e)
            y.remove(e)
    return max(len(x), len(y)), len(x) + len(y)


def start_rule(r, tag, text):
    """Does r start the relation at one well-defined cell satisfying the text's condition? None: r is no start rule."""
    pat = text_rules(text.replace(" | ", " :- ") + ".")[0]
    if r.head[0] != "lit" or r.head[2] != tag or any(l[0] == "lit" and l[2] == tag for l in r.body):
        return None
    aggs = [l for l in r.body if l[0] == "agg" and l[1] in ("#min", "#max") and l[3] == "="]
    if len(aggs) != 1:
        return None
    a = aggs[0]
    if len(a[2]) != 1:
        return False
    tup, conds, _ = a[2][0]
    bound = a[4][1] if a[4][0] == "t" else (a[4],)
    tup = tup[0][1] if len(tup) == 1 and tup[0][0] == "t" else tup
    if len(tup) != len(bound):
        return False
    # the selected tuple's components, read back through the head's variables
    back = {}
    for b, t in zip(bound, tup):
        v = only_var(b)
        if v and v[1] == 0:
            back[v[0]] = t
    head = tuple(sub(x, back) for x in r.head[3])
    cell_args = head[-2:]
    if any(v in set().union(*map(tvars, cell_args)) for v in lit_vars(r.head)):
        return False  # a coordinate of the start is not that of the selected cell
    e = unify_all(pat.head[3], head, {})
    if e is None:
        return False
    know = Knowledge(ON_GRID, SYMMETRIC)
    sat = know.saturate(conds)
    return any(all(any(sub_eq(x, y, env) for y in pat.body) or x[2:3] == ("grid",) for x in conds if x[0] == "lit") and all(x[0] == "lit" for x in conds) for env in set_match(pat.body, sat, e, know))


def sub_eq(x, y, env):
    from ..normal import sub_lit
    return sub_lit(y, env) == x


def compare(label, obs, text, rep, loc):
    fn = label.split()[0]
    base = preds(text_rules("\n".join(l for l in text.split("\n") if not l.strip().startswith("START")).replace("TAG", "tAG")))
    heads = {(r.head[2], len(r.head[3])) for r in obs if r.head[0] == "lit"} | preds([NRule(r.head, ()) for r in obs if r.head[0] == "choice"])
    used = preds(obs)
    tags = [p for p, n in sorted(heads | used) if (p, n) not in base and p not in ON_GRID and p != "grid" and any(t == ("tAG", n) for t in base)] if "TAG" in text else [""]
    if "TAG" in text and not tags:
        tags = ["TAG"]
    best = None
    for tag in dict.fromkeys(tags):
        found = judge(obs, rename(text, tag), tag, loc)
        if best is None or len(found[0]) + len(found[1]) < len(best[0]) + len(best[1]):
            best = found
        if not found[0] and not found[1]:
            break
    for rule, construct, msg, l in best[0]:
        rep.add(rule, fn, f"{label}: {construct}", msg, l or loc)
    for u in best[1]:
        rep.unknown.append(f"{label}: {u}")
    rep.count("rules compared", len(obs))


def judge(obs, text, tag, loc):
    viol, unk = [], []
    starts = [l.strip()[6:] for l in text.split("\n") if l.strip().startswith("START")]
    want = text_rules("\n".join(l for l in text.split("\n") if not l.strip().startswith("START")))
    for w in want:
        if w.head[0] == "lit" and not w.body and not w.src:
            w.src = show(w.head)
    know = Knowledge(ON_GRID, SYMMETRIC)
    know.implied = implied(want, tag)
    obs_all = permutations_closed(obs)
    want_all = permutations_closed(want)
    obs_left = []
    got_start = False
    for o in obs_all:
        done = False
        for s in starts:
            k = start_rule(o, tag, s)
            if k is True:
                got_start = done = True
            elif k is False:
                viol.append(("start-cell", "start", f"the search does not start at one cell satisfying {s.split('|')[1].strip()}: {o!r}"[:300], o.loc))
                got_start = done = True
        if not done:
            obs_left.append(o)
    covered_by = {id(o): [c for c in want_all if covers(c, o, know)] for o in obs_left}
    full = {id(c): [o for o in obs_left if covers(o, c, know)] for c in want_all}
    extra = [o for o in obs_left if not covered_by[id(o)]]
    missing = [c for c in want_all if not full[id(c)]]
    if starts and not got_start:
        if extra:
            unk.append("start of the search not recognised")
        else:
            viol.append(("rule-missing", "start", "the search has no start", loc))
    used = set()
    for c in missing:
        weaker = [o for o in obs_left if c in covered_by[id(o)] and not any(o in full[id(x)] for x in want_all)]
        near = sorted(((distance(c, o), i) for i, o in enumerate(extra) if id(o) not in used and distance(c, o)[0] <= 1), key=lambda x: x)
        src = c.src or repr(c)
        if weaker and not extra:
            if len(weaker) == 1:
                viol.append(("rule-weaker", short(c), f"promised: {src}; produced only: {weaker[0]!r}"[:400], weaker[0].loc))
            else:
                unk.append(f"rule split into {len(weaker)} cases")
        elif near:
            o = extra[near[0][1]]
            used.add(id(o))
            rule = "rule-stronger" if covers(o, c, know) else "rule-differs"
            viol.append((rule, short(c), f"promised: {src}; produced: {o!r}"[:400], o.loc))
        elif not extra and not weaker:
            viol.append(("rule-missing", short(c), f"promised but not produced: {src}"[:300], loc))
        else:
            unk.append(f"no counterpart recognised for {src}"[:200])
    for o in extra:
        if id(o) in used:
            continue
        same = [c for c in want_all if full[id(c)] and o in full[id(c)]]
        if same:
            viol.append(("rule-stronger", short(same[0]), f"promised: {same[0].src or same[0]!r}; produced: {o!r}"[:400], o.loc))
        elif any(distance(c, o)[1] == 0 for c in want_all):
            viol.append(("rule-extra", short(o), f"produced but not promised: {o!r}"[:300], o.loc))
        else:
            unk.append(f"rule outside the contract: {o!r}"[:200])
    return viol, unk


def short(r):
    h = r.head
    if h[0] == "lit":
        return f"{h[2]} from {', '.join(sorted({('not ' if l[1] else '') + l[2] for l in r.body if l[0] == 'lit'})) or 'nothing'}"
    if h[0] == "choice":
        return "choice"
    if h[0] == "directive":
        return h[1]
    return "constraint on " + ", ".join(sorted({('not ' if l[1] else '') + l[2] for l in r.body if l[0] == "lit"} | {l[1] for l in r.body if l[0] == "agg"}))


def implied(want, tag):
    """Literals every definition of a predicate provides about its own arguments."""
    out = []
    from ..normal import var
    for p in {r.head[2] for r in want if r.head[0] == "lit"}:
        rs = [r for r in want if r.head[0] == "lit" and r.head[2] == p]
        sets = []
        for r in rs:
            names = {}
            ok = True
            for i, a in enumerate(r.head[3]):
                v = only_var(a)
                if v is None or v[1] or v[0] in names:
                    ok = False
                    break
                names[v[0]] = var(f"X{i}")
            if not ok:
                sets = None
                break
            from ..normal import sub_lit
            s = set()
            for l in r.body:
                if l[0] == "lit" and l[1] == 0 and l[2] != p and lit_vars(l) <= set(names):
                    s.add(sub_lit(l, names))
            sets.append(s)
        if sets:
            common = set.intersection(*sets)
            n = len(rs[0].head[3])
            pat = ("lit", 0, p, tuple(var(f"X{i}") for i in range(n)))
            out += [(pat, l) for l in common]
    return out


# ------------------------------------------------------------------ arguments, directions, regions
class Outcome:
    """What a helper does: value, condition under which it returns, whether it can refuse."""

    def __init__(self, repo, mod, fn, args, kw=None):
        m = find(repo, mod, fn)
        if m is None:
            raise Unclear(f"no function {fn}")
        it = Interp(repo)
        it.mod = m
        it.frame_id_stack = ["top"]
        node = repo.modules[m].defs[fn]
        self.loc = (repo.modules[m].rel, node.lineno)
        it.stack = [("<contract>", self.loc)]
        st = State()
        st.frames["top"] = {}
        st.pc = ()
        self.it, self.st = it, st
        try:
            self.value = it.call_func(it.module_env(m)[fn], [value(a) for a in args], {k: value(x) for k, x in (kw or {}).items()}, st, node)
            self.pc = st.pc
        except PathDead:
            self.value, self.pc = None, None
        self.refuses = [e for e in it.events if e.kind == "raise"]


def alternatives(pc):
    """A path condition as a set of literals, or of one disjunction of literals."""
    if pc is None:
        return None
    out = set()
    for p in pc:
        if p[0] == "lit":
            out.add((str(p[1]), p[2]))
        elif p[0] == "or" and all(x[0] == "lit" for x in p[1]):
            out.add(("or", frozenset((str(x[1]), x[2]) for x in p[1])))
        else:
            raise Unclear("condition not understood")
    return out


def refusals(repo, rep):
    D, T, E, O = Sym("arg", "d", "Direction"), Sym("arg", "t", "str"), Sym("arg", "e", "bool"), Sym("arg", "o", "Direction")
    tests = [
        ("validate_direction", (I("r"), I("c"), D), {}, {(f"{D} == Direction.CENTER", True)}, "exactly the marks placed in the middle of a cell"),
        ("validate_direction", (I("r"), I("c"), D, O), {}, {(f"{D} == {O}", True)}, "exactly the marks placed at the required position"),
        ("validate_type", (T, "normal"), {}, {(f"{T} == 'normal'", True)}, "exactly the required kind"),
        ("validate_type", (T, ("a", "b")), {}, {("or", frozenset({(f"{T} == 'a'", True), (f"{T} == 'b'", True)}))}, "exactly the listed kinds"),
        ("validate_type", (None, ("a", "b")), {}, None, "no missing kind"),
        ("validate_type", ("c", ("a", "b")), {}, None, "exactly the listed kinds"),
        ("validate_type", ("a", ("a", "b")), {}, set(), "the listed kinds"),
        ("validate_type", (4, (4, "x")), {}, set(), "the listed kinds"),
        ("fail_false", (E, "message"), {}, {(f"{E} == True", True)}, "exactly the conditions that hold"),
        ("fail_false", (True, "message"), {}, set(), "a condition that holds"),
        ("fail_false", (False, "message"), {}, None, "no condition that fails"),
    ]
    for fn, args, kw, want, what in tests:
        rep.count("argument checks")
        try:
            o = Outcome(repo, "helper", fn, args, kw)
            got = alternatives(o.pc)
        except (Unclear, Unsupported) as e:
            rep.unknown.append(f"{fn}: {e}")
            continue
        if got == want:
            continue
        label = f"{fn}({', '.join(str(a) for a in args)})"
        if want is None or got == set():
            rep.add("refusal-condition", fn, label, f"{fn} must accept {what}, but it accepts more", o.loc)
        elif got is None or want == set():
            rep.add("refusal-condition", fn, label, f"{fn} must accept {what}, but it refuses", o.loc)
        elif all(x != "or" and " == " in x and not pos for x, pos in got):
            rep.add("refusal-condition", fn, label, f"{fn} must accept {what}, but it accepts more", o.loc)
        elif want < got:
            rep.add("refusal-condition", fn, label, f"{fn} must accept {what}, but it refuses some of them", o.loc)
        elif {x for x, _ in got if x != "or"} & {x for x, _ in want if x != "or"} or any(x == "or" for x, _ in got) and any(x == "or" for x, _ in want):
            rep.add("refusal-condition", fn, label, f"{fn} must accept {what}, but accepts: {sorted(map(str, got))}"[:300], o.loc)
        else:
            rep.unknown.append(f"{label}: {sorted(map(str, got))}"[:200])
    for o, f in OPS.items():
        rep.count("operators")
        try:
            x = Outcome(repo, "helper", "reverse_op", (o,))
        except (Unclear, Unsupported) as e:
            rep.unknown.append(f"reverse_op: {e}")
            continue
        if isinstance(x.value, Const) and x.value.v != f and not (x.value.v, f) == ("<>", "!="):
            rep.add("operator-complement", "reverse_op", o, f"what must not hold when {o!r} is asked for is {f!r}, not {x.value.v!r}", x.loc)
    for n in range(1, 70):
        rep.count("bit widths")
        try:
            x = Outcome(repo, "reachable", "num_binary_range", (n,))
        except (Unclear, Unsupported) as e:
            rep.unknown.append(f"num_binary_range: {e}")
            break
        v = x.value
        if not (isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Const)):
            rep.unknown.append("num_binary_range: value not understood")
            break
        if 2 ** v.items[1].v <= n:
            rep.add("bit-width", "num_binary_range", "too few bits", f"{n} is not distinguished from smaller numbers by {v.items[1].v} bits", x.loc)
            break
        r = Result()
        r.program = v.items[0] if isinstance(v.items[0], Str) else Str(as_nodes(v.items[0]))
        r.state, r.interp, r.events, r.loops, r.notes = x.st, x.it, x.it.events, x.it.loops, x.it.notes
        try:
            rules, _ = program(r)
            got = [g for p in rules for g in normalise(p.tree, r.loops, p.pc, p.loc)]
        except (Unclear, AspError):
            continue
        want = text_rules(f"bit_range(0..{v.items[1].v - 1}).")
        if got and all(g.head[0] == "lit" and g.head[2] == "bit_range" for g in got):
            know = Knowledge(ON_GRID, SYMMETRIC)
            if not all(any(covers(w, g, know) for g in got) and all(covers(g, w, know) for g in got) for w in want):
                rep.add("bit-width", "num_binary_range", "range", f"the rules speak of other bits than the {v.items[1].v} the clues are written with", x.loc)
                break


def displacements(v):
    out = set()
    for x in v.items:
        if not isinstance(x, Tup) or len(x.items) != 2:
            raise Unclear("neighbour not understood")
        out.add(tuple(offset(c, b) for c, b in zip(x.items, SRC)))
    return out


def offset(c, base):
    from ..arith import diff_const
    k = diff_const(c, base)
    if k is None:
        raise Unclear("neighbour not understood")
    return k


FOUR = {(0, 1), (0, -1), (1, 0), (-1, 0)}
CROSS = {(a, b) for a in (1, -1) for b in (1, -1)}


def neighbours(repo, rep):
    for t, want in ((4, FOUR), ("x", CROSS), (8, FOUR | CROSS)):
        rep.count("neighbour lists")
        try:
            o = Outcome(repo, "shape", "get_neighbor", (*SRC, t))
            got = displacements(o.value) if isinstance(o.value, Tup) else None
        except (Unclear, Unsupported, AttributeError) as e:
            rep.unknown.append(f"get_neighbor: {e}")
            continue
        if o.pc is None:
            rep.add("refusal-condition", "get_neighbor", str(t), "a supported adjacency is refused", o.loc)
            continue
        if got is None:
            rep.unknown.append("get_neighbor: value not understood")
        elif got != want:
            rep.add("region-neighbours", "get_neighbor", str(t), f"the {t} neighbours of a cell lie at {sorted(want)}, not at {sorted(got)}", o.loc)


SIDE = {(0, -1): (0, 0, "LEFT"), (0, 1): (0, 1, "LEFT"), (-1, 0): (0, 0, "TOP"), (1, 0): (1, 0, "TOP")}  # where the border towards a neighbour is recorded


def edge_of(sym, base):
    """(row, column offsets, side) of the border a term looks up."""
    found = []

    def walk(x):
        if isinstance(x, Tup) and len(x.items) in (3, 4) and str(x.items[2]).startswith("Direction."):
            found.append(x)
            return
        if isinstance(x, Tup):
            for y in x.items:
                walk(y)
        for y in getattr(x, "args", ()) or ():
            if isinstance(y, V):
                walk(y)
    walk(sym)
    if len(found) != 1:
        return None
    t = found[0].items
    return (offset(t[0], base[0]), offset(t[1], base[1]), str(t[2]).split(".")[1])


def guarded(parts, pc=()):
    for p in parts:
        if p[0] == "I":
            yield p[1], pc
        elif p[0] == "A":
            for cond, sub_ in p[1]:
                yield from guarded(sub_, (*pc, cond))
        else:
            raise Unclear("list of neighbours not understood")


def region_neighbours(repo, rep, fb, mod, rel):
    """The cells reached in one step: each orthogonal neighbour, exactly when no border lies between."""
    outer = [x.arg for x in fb.args.args]
    ran = False
    for n in ast.walk(fb):
        if not isinstance(n, ast.FunctionDef) or n is fb or len(n.args.args) != 2:
            continue
        it = Interp(repo)
        it.mod = mod
        it.frame_id_stack = ["top"]
        it.stack = [("<contract>", (rel, n.lineno)), ("full_bfs", (rel, n.lineno))]
        st = State()
        st.frames["top"] = {}
        st.frames["bfs"] = dict(zip(outer, (I("rows"), I("cols"), EDGE, Sym("attr", Sym("puzzle"), "text"))))
        st.pc = ()
        got = {}
        bad = False
        try:
            v = it.call_func(it.make_func(n, st, "bfs", f"full_bfs.{n.name}"), list(SRC), {}, st, n)
            c = it.content(st, v)
            parts = c.parts if c is not None else tuple(("I", x) for x in v.items)
            for x, pc in guarded(parts):
                d = tuple(offset(a, b) for a, b in zip(x.items, SRC))
                lits = [l for l in pc if l[0] == "lit"]
                if len(lits) != len(pc) or len(lits) > 1:
                    raise Unclear("condition on a neighbour not understood")
                got.setdefault(d, []).append((edge_of(lits[0][1], SRC), lits[0][2]) if lits else None)
                s = lits[0][1] if lits else None
                if s is not None and s.op == "in" and not lits[0][2] or s is not None and s.op == "eq" and s.args[1] == Const(None) and lits[0][2]:
                    rep.add("region-neighbours", "full_bfs", f"crossed-out border {d}", "a border that is crossed out (its entry is False) keeps a region from being continued like a drawn one", (rel, n.lineno))
        except (Unclear, Unsupported, PathDead, AttributeError, TypeError, IndexError) as e:
            rep.unknown.append(f"full_bfs.{n.name}: {e}")
            continue
        ran = True
        rep.count("steps of the region search", len(got))
        loc = (rel, n.lineno)
        for d in sorted(FOUR | set(got)):
            name = {(0, -1): "left", (0, 1): "right", (-1, 0): "upper", (1, 0): "lower"}.get(d, str(d))
            if d not in FOUR:
                rep.add("region-neighbours", "full_bfs", name, f"a region is continued to the cell {d} away, which is no neighbour", loc)
            elif d not in got:
                rep.add("region-neighbours", "full_bfs", name, f"a region is never continued to the {name} neighbour", loc)
            else:
                for g in got[d]:
                    if g is None:
                        rep.add("region-neighbours", "full_bfs", name, f"a region is continued to the {name} neighbour whatever border lies between", loc)
                    elif g[0] is None:
                        rep.unknown.append("full_bfs: border lookup not understood")
                    elif g[0] != SIDE[d]:
                        rep.add("region-neighbours", "full_bfs", name, f"the border towards the {name} neighbour is recorded at {SIDE[d]}, but {g[0]} is looked up", loc)
                    elif g[1]:
                        rep.add("region-neighbours", "full_bfs", name, f"a region is continued to the {name} neighbour only when a border lies between", loc)
    if not ran:
        rep.unknown.append("full_bfs: step function not found")


def named(call, names, arg=None):
    return (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr in names and isinstance(call.func.value, ast.Name)
            and (arg is None or len(call.args) == 1 and isinstance(call.args[0], ast.Name) and call.args[0].id == arg))


def region_search(repo, rep):
    mod = find(repo, "helper", "full_bfs")
    if mod is None:
        rep.unknown.append("full_bfs not found")
        return
    fb, rel = repo.modules[mod].defs["full_bfs"], repo.modules[mod].rel
    region_neighbours(repo, rep, fb, mod, rel)
    # worklist: a cell not yet explored is taken out of the unexplored ones, joins the region and is visited in turn
    for w in (n for n in ast.walk(fb) if isinstance(n, ast.While)):
        pops = {n.func.value.id for n in ast.walk(w) if named(n, ("pop", "popleft"))}
        for f in (n for n in ast.walk(w) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)):
            x = f.target.id
            for g in f.body:
                if not (isinstance(g, ast.If) and isinstance(g.test, ast.Compare) and len(g.test.ops) == 1 and isinstance(g.test.left, ast.Name) and g.test.left.id == x and isinstance(g.test.comparators[0], ast.Name)):
                    continue
                pool = g.test.comparators[0].id
                block = g.body
                inn = isinstance(g.test.ops[0], ast.In)
                if not inn and not isinstance(g.test.ops[0], ast.NotIn):
                    continue
                if block and isinstance(block[-1], ast.Continue) and len(block) == 1:
                    block, inn = f.body[f.body.index(g) + 1:], not inn
                rep.count("worklist steps")
                calls = [n for b in block for n in ast.walk(b) if isinstance(n, ast.Call)]
                opaque = any(not isinstance(n.func, ast.Attribute) and any(isinstance(a, ast.Name) and a.id == x for a in n.args) for n in calls) or any(isinstance(n, ast.AugAssign) for b in block for n in ast.walk(b))
                if opaque:
                    rep.unknown.append("full_bfs: step of the search not understood")
                    continue
                loc = (rel, g.lineno)
                put = {n.func.value.id for n in calls if named(n, ("append", "appendleft", "add"), x)}
                if inn and not any(named(n, ("remove", "discard"), x) and n.func.value.id == pool for n in calls) or not inn and pool not in put:
                    rep.add("region-search", "full_bfs", "explored", "a cell joining a region is not marked as explored", loc)
                if pops and not put & pops:
                    rep.add("region-search", "full_bfs", "queue", "the neighbours of a cell joining a region are not visited in turn", loc)
                returned = {n.id for r in ast.walk(fb) if isinstance(r, ast.Return) and r.value is not None for n in ast.walk(r.value) if isinstance(n, ast.Name)}
                if returned and not put & returned and inn:
                    rep.add("region-search", "full_bfs", "region", "a cell found by the search does not join the region", loc)
    # the clue of a region
    for fn in [n for n in ast.walk(fb) if isinstance(n, ast.FunctionDef)]:
        empty = {t.id for n in fn.body if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None for t in n.targets if isinstance(t, ast.Name)}
        for loop in (n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While))):
            for parent in ast.walk(loop):
                for field in ("body", "orelse"):
                    block = getattr(parent, field, None)
                    if not isinstance(block, list):
                        continue
                    for i, n in enumerate(block):
                        if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in empty):
                            continue
                        if isinstance(n.value, ast.Constant):
                            continue
                        v = n.targets[0].id
                        if not any(isinstance(r, ast.Return) and r.value is not None and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(r.value)) for r in ast.walk(fn)):
                            continue
                        rep.count("region clues")
                        if not refuses_second(fn, v):
                            rep.add("region-search", "full_bfs", f"clue {v}", "a second clue in a region is silently ignored or replaces the first one", (rel, n.lineno))


def refuses_second(fn, v):
    """Some refusal in fn is reached when v is already set: under no test that v is None, and depending on v."""
    def mentions(e):
        return any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(e))

    def unset(test, pol):
        """The test (or its negation) says that v is None."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return isinstance(test.operand, ast.Name) and test.operand.id == v and pol or unset(test.operand, not pol)
        if isinstance(test, ast.Name):
            return test.id == v and not pol
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == pol:
            return any(unset(x, pol) for x in test.values)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and mentions(test) and any(isinstance(x, ast.Constant) and x.value is None for x in (test.left, test.comparators[0])):
            return isinstance(test.ops[0], (ast.Is, ast.Eq)) == pol
        return False

    def walk(block, on, off):
        """on: the path depends on v; off: the path requires v to be unset."""
        for n in block:
            if isinstance(n, ast.Raise) and on and not off:
                return True
            if isinstance(n, ast.Assert) and mentions(n.test) and not off:
                return True
            if isinstance(n, (ast.Expr, ast.Assign)) and isinstance(n.value, ast.Call) and not off:
                args = [*n.value.args, *(k.value for k in n.value.keywords)]
                if isinstance(n.value.func, (ast.Name, ast.Attribute)) and (any(mentions(a) for a in args) or on and any(isinstance(a, ast.Constant) and a.value is False for a in args)):
                    if not (isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("append", "add", "remove", "discard", "popleft", "pop")):
                        return True
            if isinstance(n, ast.If):
                m = on or mentions(n.test)
                if walk(n.body, m, off or unset(n.test, True)) or walk(n.orelse, m, off or unset(n.test, False)):
                    return True
                if n.body and isinstance(n.body[-1], (ast.Continue, ast.Return, ast.Break)) and not n.orelse:
                    on, off = m, off or unset(n.test, False)
            elif not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for f in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(n, f, None), list) and walk(getattr(n, f), on, off):
                        return True
                for h in getattr(n, "handlers", []):
                    if walk(h.body, on, off):
                        return True
        return False
    return walk(fn.body, False, False)


def closures(repo, rep):
    """Whether a placed shape is closed: no further cell is joined to it, and its own cells are joined to each other."""
    from ..orient import SUBGROUPS, Abort, Atom, Eval, Join, Raised, Text, add, lin, shape
    from .c18 import SHAPES, lines, places, skel, coord
    if SHAPES not in repo.modules or "general_shape" not in repo.modules[SHAPES].defs:
        return
    loc = (repo.modules[SHAPES].rel, repo.modules[SHAPES].defs["general_shape"].lineno)
    plain_ = min(SUBGROUPS, key=len)
    for kind in ("grid", "area"):
        for t in (4, 8, "x", "edge", "loop"):
            for clr in ("hue", "grid"):
                rep.count("shape closures")
                ev = Eval(repo, SHAPES, plain_)
                try:
                    out = ev.call_fn(ev.lookup(SHAPES, "general_shape"), ["sample"], {"_id": Atom("ID"), "deltas": shape(), "color": clr, "_type": kind, "adj_type": t})
                except (Abort, Raised) as e:
                    rep.unknown.append(f"general_shape {kind} {t}: {e}")
                    continue
                for ln in lines(out):
                    items = [i for p in ln if isinstance(p, Join) for i in p.items]
                    head = skel([p for p in ln if not isinstance(p, Join)], [])
                    if not head.lstrip().startswith("shape_") or not items:
                        continue
                    closure(items, t, clr, kind, rep, loc, Text, add, lin, places, skel, coord)


def closure(items, t, clr, kind, rep, loc, Text, add, lin, places, skel, coord):
    want = {4: FOUR, "x": CROSS, 8: FOUR | CROSS}.get(t, FOUR)
    cell = None
    rest = []
    for i in items:
        parts = i.v.parts if isinstance(i.v, Text) else (i.v,)
        pool = []
        s = skel(parts, pool)
        if i.each and not i.guards:
            for neg, name, r, c, _ in places(s, pool):
                if not neg and name in (clr, "area" if kind == "area" else "grid"):
                    cell = (r, c)
        else:
            rest.append((i, s, pool))
    if cell is None:
        rep.unknown.append("general_shape: cells of a placement not recognised")
        return
    tag = f"adj_{t}"

    def pos(r, c):
        d = tuple(lin(add(lin(a), lin(b), -1)) for a, b in zip((r, c), cell))
        return tuple(x.k for x in d) if not any(x.t for x in d) else None

    def members(guards):
        """Which cells the guards say are (not) in the shape."""
        out = {}
        for what, neg in guards:
            while isinstance(what, tuple) and what[0] == "not":
                what, neg = what[1], not neg
            if not (isinstance(what, tuple) and what[0] == "in"):
                return None
            for d in FOUR | CROSS:
                if repr(tuple(lin(add(lin(a), lin(k))) for a, k in zip(cell, d))) == what[1]:
                    out[d] = not neg
                    break
            else:
                return None
        return out

    closed, joined, odd = set(), set(), False
    for i, s, pool in rest:
        ms = members(i.guards)
        if ms is None or len(ms) != 1 or not i.each:
            odd = True
            continue
        (d, inside), = ms.items()
        alts = set()
        m = re.fullmatch(r"\{(.*)\}\s*(> *0|>= *1|!= *0)", s.strip())
        body = m.group(1) if m else s
        pieces = re.split(r";", body) if m else [body]
        for q in pieces:
            a = re.fullmatch(r"\s*(not )?(\w+)\(([^()]*)\)\s*", q)
            if not a:
                alts = None
                break
            args = [z.strip() for z in a.group(3).split(",")]
            ps = []
            try:
                for k in range(0, len(args) - 1, 2):
                    ps.append(pos(coord(args[k], "R", pool), coord(args[k + 1], "C", pool)))
            except (TypeError, AttributeError):
                ps = [None]
            alts.add((bool(a.group(1)), a.group(2), tuple(ps)))
        if re.fullmatch(r"\{(.*)\}\s*>= *0", s.strip()):
            continue  # requires nothing
        if not alts or any(None in ps for _, _, ps in alts):
            odd = True
            continue
        here = (0, 0)
        links = {(True, tag, (here, d)), (True, tag, (d, here))}
        if not inside and len(alts & links) >= 1 and alts <= links | {(True, clr, (d,))}:
            if clr != "grid" and (True, clr, (d,)) not in alts:
                rep.add("shape-closed", "general_shape", f"{t} {d}", f"a shape may not be placed beside a cell of another colour ({d} away, adjacency {t})", loc)
            closed.add(d)
        elif inside and alts & {(False, tag, (here, d)), (False, tag, (d, here))} and len(alts) == 1:
            joined |= {d, (-d[0], -d[1])}
        elif inside and len(alts) == 1 and not min(alts)[0] and min(alts)[2] == (d,):
            if min(alts)[1] not in (clr, "grid", "area"):
                rep.add("shape-joined", "general_shape", f"{t} {d}", f"a cell of the shape is required to be {min(alts)[1]} instead of {clr}", loc)
        elif any(n == tag for _, n, _ in alts):
            rep.add("shape-closed" if not inside else "shape-joined", "general_shape", f"{t} {d}", f"a cell {d} away that is {'part' if inside else 'no part'} of the shape is required to satisfy: {sorted(alts)}"[:300], loc)
            (joined if inside else closed).add(d)
        else:
            odd = True
    if odd:
        rep.unknown.append(f"general_shape {t} {clr}: a requirement of a placement was not understood")
        return
    for d in sorted(want - closed):
        rep.add("shape-closed", "general_shape", f"{t} {d}", f"nothing keeps the cell {d} away (adjacency {t}) from being joined to a placed shape", loc)
    for d in sorted(closed - want):
        rep.add("shape-closed", "general_shape", f"{t} {d}", f"the cell {d} away is no neighbour (adjacency {t}), but is kept from being joined to a placed shape", loc)
    if t not in (4, 8, "x"):
        for d in sorted(want - joined):
            rep.add("shape-joined", "general_shape", f"{t} {d}", f"neighbouring cells of a placed shape ({d} apart, adjacency {t}) need not be joined", loc)


NEUTRAL = ("grid", "area", "bit_range", "clue", "clue_bit")


def mixing(repo, res, rep):
    """A connectivity relation spreads through one colour and one kind of neighbour only."""
    rules, notes = program(res)
    rel = {}
    for r in rules:
        t = r.tree
        if t is None or t.op != "rule":
            continue
        lits = [(l, role) for l, role in iter_lits(t) if l.op == "lit"]
        hs = [l for l, role in lits if role == "head" and not l.a[0]]
        if len(hs) != 1:
            continue
        n = name_text(hs[0])
        body = {(l.a[0] % 2, name_text(l)) for l, role in lits if role != "head"}
        if not n.startswith("reachable") or (0, n) not in body:
            continue
        sig = frozenset((a, b) for a, b in body if b != n and b not in NEUTRAL and not b.startswith("adj_"))
        adj = frozenset(b for _, b in body if b.startswith("adj_"))
        if any("{}" in b for _, b in sig | {(0, a) for a in adj}):
            continue
        rel.setdefault(n, {}).setdefault((sig, adj), r)
    for n, sigs in rel.items():
        rep.count("connectivity relations")
        colours = {s for s, _ in sigs}
        adjs = {a for _, a in sigs}
        if len(colours) > 1 or len(adjs) > 1:
            a, b = sorted(sigs, key=repr)[:2]
            rep.add("relation-mixed", res.name, n, f"{n} spreads through {words(a)} as well as {words(b)}, so cells that are not connected are taken for connected", sigs[b].loc)


def name_text(l):
    return "".join(p if isinstance(p, str) else "{}" for p in l.a[1])


def words(x):
    return " and ".join(sorted(("not " if n else "") + p for n, p in x[0]) or ["any cell"]) + " by " + "/".join(sorted(x[1]))


def check(repo, rep, tier):
    ran = 0
    for label, calls, text in contracts():
        rep.count("contracts")
        try:
            obs, loc = produced(repo, calls)
        except PathDead:
            m = find(repo, calls[-1][0], calls[-1][1])
            rep.add("refusal-condition", calls[-1][1], label, "the builder refuses arguments it promises to support", (repo.modules[m].rel, repo.modules[m].defs[calls[-1][1]].lineno) if m else None)
            continue
        except (Unclear, Unsupported, AspError) as e:
            rep.unknown.append(f"{label}: {e}")
            continue
        try:
            compare(label, obs, text, rep, loc)
            ran += 1
        except Unclear as e:
            rep.unknown.append(f"{label}: {e}")
    refusals(repo, rep)
    neighbours(repo, rep)
    region_search(repo, rep)
    closures(repo, rep)
    per_solver(repo, mixing, rep)
    if not ran:
        raise AnalysisBroken("no shared rule builder could be analysed")
