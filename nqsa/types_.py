"""Declared types of symbolic values (no path facts)."""
from .domain import BoolF, Const, EnumV, Obj, Phi, Str, Sym, Tup

F = frozenset
COLLS = {"text", "symbol", "surface", "edge", "line"}
VALTYPE = {
    "text": F(["int", "str"]),
    "symbol": F(["str"]),
    "surface": F(["Color"]),
    "edge": F(["bool"]),
    "line": F(["bool"]),
}
STR_METHODS = {"strip", "lower", "upper", "replace", "lstrip", "rstrip", "zfill", "title", "format", "join", "capitalize"}
BOOL_METHODS = {"isdigit", "isspace", "isalpha", "startswith", "endswith", "isnumeric", "isdecimal", "isalnum", "isupper", "islower", "issubset"}


def coll_name(v):
    """'text' etc. when v is the puzzle's collection attribute."""
    if isinstance(v, Sym) and v.op == "attr" and v.args[1] in COLLS:
        return v.args[1]
    return None


def typ(v):
    if isinstance(v, Const):
        return F(["none" if v.v is None else type(v.v).__name__])
    if isinstance(v, EnumV):
        return F([v.cls])
    if isinstance(v, Str):
        return F(["str"])
    if isinstance(v, BoolF):
        return F(["bool"])
    if isinstance(v, Tup):
        return F(["tuple+"]) if v.items else F(["tuple"])
    if isinstance(v, Phi):
        out = F()
        for _, x in v.alts:
            t = typ(x)
            if t is None:
                return None
            out |= t
        return out
    if not isinstance(v, Sym):
        return None
    op, a = v.op, v.args
    if op in ("lin", "idx", "len", "int", "bin_int", "num", "cnt"):
        return F(["int"])
    if op == "bin" and len(a) == 3 and a[0] in ("+", "-", "//") and F(["int"]) in (typ(a[1]), typ(a[2])):
        return F(["int"])  # an int goes with numbers only
    if op in ("str",):
        return F(["str"])
    if op in ("eq", "lt", "in", "truthy", "isinst"):
        return F(["bool"])
    if op == "attr":
        if a[1] in ("row", "col"):
            return F(["int"])
        if a[1] == "value" and typ(a[0]) == F(["Direction"]):
            return F(["str"])
        if a[1] in ("puzzle_name", "content"):
            return F(["str"])
        return None
    if op == "key":
        if len(a) > 1 and coll_name(a[1]):
            return F(["Point"])
        if len(a) > 1 and isinstance(a[1], Sym) and a[1].op == "rooms":
            return F(["tuple+"])
        return None
    if op == "val":
        c = coll_name(a[1])
        if c:
            return VALTYPE[c]
        if isinstance(a[1], Sym) and a[1].op == "rooms":
            return F(["tuple+", "none"])
        return None
    if op == "lookup":
        c = coll_name(a[0])
        if c:
            return VALTYPE[c]
        return None
    if op == "get":
        c = coll_name(a[0])
        if c:
            return VALTYPE[c] | F(["none"])
        return None
    if op == "item" and isinstance(a[0], Sym) and a[0].op == "call" and a[0].args[0] == "collections.Counter":
        return F(["int"])
    if op == "item":
        base, i = part_of(a[0]), a[1]
        if i == Const(1) and isinstance(base, Sym) and base.op == "elem" and len(base.args) > 1 and counter_items(base.args[1]):
            return F(["int"])
        if isinstance(base, Sym) and base.op == "seq" and typ(i) == F(["int"]):
            return parts_type(base.args[1])
        if isinstance(base, Sym):
            if typ(base) == F(["Point"]) and isinstance(i, Const):
                return (F(["int"]), F(["int"]), F(["Direction"]), F(["str"]))[i.v] if -4 <= i.v < 4 else None
            if is_cell(base):
                return F(["int"])
            if base.op == "mcall" and base.args[0] in ("split", "rsplit", "splitlines"):
                return F(["str"])
            if base.op == "mcall" and base.args[0] in ("partition", "rpartition"):
                return F(["str"])
            if typ(base) == F(["str"]):
                return F(["str"])
        return None
    if op == "elem":
        base = part_of(a[1])
        if isinstance(base, Sym) and base.op == "seq":
            return parts_type(base.args[1])
        if is_cells(base):
            return F(["tuple+"])
        if isinstance(base, Sym) and base.op == "arg" and base.args[1] in ("ints", "strs"):
            return F([base.args[1][:-1]])
        if typ(base) == F(["str"]):
            return F(["str"])
        if isinstance(base, Sym) and base.op == "mcall" and base.args[0] in ("split", "rsplit"):
            return F(["str"])
        return None
    if op == "mcall":
        if a[0] in BOOL_METHODS:
            return F(["bool"])
        if a[0] in STR_METHODS:
            return F(["str"])
        if a[0] in ("find", "count", "index"):
            return F(["int"])
        if a[0] in ("split", "rsplit"):
            return F(["list"])
        return None
    if op in ("lv", "lout"):
        return a[2] if len(a) > 2 and isinstance(a[2], frozenset) else None
    if op in ("param_str",):
        return F(["str"])
    if op in ("substr",):
        return F(["str"])
    if op == "fn_int":
        return F(["int"])
    if op == "arg" and a[1] in ("int", "str", "bool"):
        return F([a[1]])
    return None


def part_of(v):
    """A collection without the slice around it: its elements are of the same types."""
    while isinstance(v, Sym) and v.op == "slice":
        v = v.args[0]
    return v


def counter_items(v):
    """Counter(...).items() or .most_common()"""
    return isinstance(v, Sym) and v.op == "mcall" and v.args[0] in ("items", "most_common") and isinstance(v.args[1], Sym) and v.args[1].op == "call" \
        and str(v.args[1].args[0]).strip("'").endswith("Counter")


def parts_type(parts):
    """Union of the types of a sequence's elements, None when one is unknown."""
    out = F()
    for p in parts:
        if p[0] == "I":
            t = typ(p[1])
        elif p[0] == "A":
            t = F()
            for _, x in p[1]:
                u = parts_type(x)
                if u is None:
                    return None
                t |= u
        elif p[0] == "R":
            t = parts_type(p[2])
        else:
            return None
        if t is None:
            return None
        out |= t
    return out


def is_cell(v):
    """A value known to be an (row, column) pair of the board."""
    if not isinstance(v, Sym):
        return False
    if v.op == "elem" and is_cells(v.args[1]):
        return True
    if v.op == "val" and isinstance(v.args[1], Sym) and v.args[1].op == "rooms":
        return True
    if v.op == "lookup" and isinstance(v.args[0], Sym) and v.args[0].op == "rooms":
        return True
    return False


def is_cells(v):
    """A value known to be a collection of cells."""
    if not isinstance(v, Sym):
        return False
    if v.op == "key" and len(v.args) > 1 and isinstance(v.args[1], Sym) and v.args[1].op == "rooms":
        return True
    if v.op == "param_cells" or v.op == "arg" and v.args[1] == "cells":
        return True
    if v.op in ("coll", "sorted", "keys", "seqof") and v.args and is_cells(v.args[-1]):
        return True
    return False
