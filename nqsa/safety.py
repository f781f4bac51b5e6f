"""Safety of rule templates: every variable must be bound by a positive body literal."""
from .asp import T
from .prog import flat, subterms, vars_of


def bindable(t, bound):
    """Variables bound when term t is matched against a ground value."""
    if t.op == "var":
        return {t.a[0]}
    if t.op in ("tuple",):
        out = set()
        for x in t.a:
            if isinstance(x, T):
                out |= bindable(x, bound)
        return out
    if t.op == "fn":
        out = set()
        for x in t.a[1]:
            out |= bindable(x, bound)
        return out
    if t.op == "neg":
        return bindable(t.a[0], bound)
    if t.op == "bin":
        op, a, b = t.a
        va, vb = vars_of(a), vars_of(b)
        if op in ("+", "-"):
            if va and not vb:
                return bindable(a, bound)
            if vb and not va:
                return bindable(b, bound)
        if op == "*":
            if va and not vb:
                return bindable(a, bound)
            if vb and not va:
                return bindable(b, bound)
        return set()
    if t.op == "argpool":
        sets = []
        for alt in t.a:
            s = set()
            for x in alt:
                s |= bindable(x, bound)
            sets.append(s)
        return set.intersection(*sets) if sets else set()
    if t.op == "rep":
        out = set()
        for x in flat([t]):
            out |= bindable(x, bound)
        return out
    return set()


def bind_items(items, bound):
    """Fixpoint of variables bound by a conjunction of body items."""
    bound = set(bound)
    items = list(flat(items))
    while True:
        n = len(bound)
        lower, upper = set(), set()
        for x in items:
            if x.op == "lit" and x.a[0] == 0:
                for a in x.a[2]:
                    bound |= bindable(a, bound)
            elif x.op == "cmp" and x.a[0] == 0:
                parts = x.a[1]
                for i in range(1, len(parts), 2):
                    if parts[i] in ("<", "<=", ">", ">="):
                        for a, b, up in ((parts[i - 1], parts[i + 1], parts[i][0] == "<"), (parts[i + 1], parts[i - 1], parts[i][0] == ">")):
                            v = vars_of(a)
                            if len(v) == 1 and vars_of(b) <= bound and bindable(a, bound):
                                (upper if up else lower).update(v)
                    if parts[i] != "=":
                        continue
                    l, r = parts[i - 1], parts[i + 1]
                    if vars_of(r) <= bound:
                        bound |= bindable(l, bound)
                    if vars_of(l) <= bound:
                        bound |= bindable(r, bound)
            elif x.op == "agg" and x.a[0] == 0:
                _, fn, left, elems, right = x.a
                if left and left[1] == "=":
                    bound |= bindable(left[0], bound)
                if right and right[0] == "=":
                    bound |= bindable(right[1], bound)
        bound |= lower & upper
        if len(bound) == n:
            return bound


def global_vars(items):
    out = set()
    for x in flat(items):
        if x.op == "lit":
            for a in x.a[2]:
                out |= vars_of(a)
        elif x.op == "cmp":
            for p in x.a[1]:
                if isinstance(p, T):
                    out |= vars_of(p)
        elif x.op == "agg":
            for g in (x.a[2], x.a[4]):
                if g:
                    for p in g:
                        if isinstance(p, T):
                            out |= vars_of(p)
    return out


def unsafe(tree):
    """Set of unsafe variables of a rule."""
    if tree.op != "rule":
        return set()
    head, body = tree.a
    bound = bind_items(body, ())
    bad = global_vars(body) - bound
    if head.op == "lit":
        bad |= global_vars([head]) - bound
    elif head.op == "disj":
        bad |= _elems(head.a, bound)
    elif head.op == "agg":
        bad |= global_vars([head]) - bound
        bad |= _elems(head.a[3], bound)
    for x in flat(body):
        if x.op == "agg":
            bad |= _elems(x.a[3], bound, x.a[1] is None)
        elif x.op == "cond":
            bad |= _elems([x], bound)
    return bad


def _elems(elems, bound, selfbind=False):
    bad = set()
    for e in flat(elems):
        if e.op == "cond":
            b = bind_items(list(e.a[1]) + ([e.a[0]] if selfbind else []), bound)
            bad |= (global_vars([e.a[0]]) | global_vars(e.a[1])) - b
        elif e.op == "elem":
            b = bind_items(e.a[1], bound)
            v = set()
            for t in e.a[0]:
                v |= vars_of(t)
            bad |= (v | global_vars(e.a[1])) - b
        elif e.op in ("lit", "cmp"):
            bad |= global_vars([e]) - bind_items([e] if selfbind else [], bound)
    return bad
