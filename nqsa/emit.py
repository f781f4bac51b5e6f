"""Flatten a symbolic program into statements: text templates with a path condition and enclosing loops."""
from .domain import Const, EnumV, f_and, f_not
from .facts import Facts
from .state import facts
from .types_ import typ


class Stmt:
    """One statement template: nodes of L/H/A/R/S, emitted under pc inside loops."""
    __slots__ = ("nodes", "pc", "loops", "loc", "problem")

    def __init__(self, nodes, pc, loops, problem=None):
        self.nodes, self.pc, self.loops, self.problem = tuple(nodes), tuple(pc), tuple(loops), problem
        self.loc = first_loc(nodes)

    def text(self):
        return render(self.nodes)


def first_loc(nodes):
    for n in nodes:
        if n[0] == "L" and n[1].strip() and n[2]:
            return n[2]
        if n[0] == "H" and n[2]:
            return n[2]
        if n[0] == "R":
            r = first_loc(n[2])
            if r:
                return r
        if n[0] == "A":
            for _, x in n[1]:
                r = first_loc(x)
                if r:
                    return r
        if n[0] == "S":
            r = first_loc(n[2])
            if r:
                return r
    return None


def render(nodes):
    out = []
    if isinstance(nodes, str):
        return nodes
    for n in nodes:
        if isinstance(n, tuple) and (not n or isinstance(n[0], tuple)):
            out.append("<" + render(n) + ">")
        elif not isinstance(n, tuple):
            out.append(str(n))
        elif n[0] == "L":
            out.append(n[1])
        elif n[0] == "H":
            out.append("{" + repr(n[1]) + "}")
        elif n[0] == "R":
            out.append(f"<rep{n[1]} {render(n[2])} sep {render(n[3]) if len(n) > 3 and isinstance(n[3], tuple) else ''!r}>")
        elif n[0] == "A":
            out.append("<" + " | ".join(render(x) for _, x in n[1]) + ">")
        elif n[0] == "S":
            out.append(f"<sep {render(n[1])!r}>{render(n[2])}")
        else:
            out.append(f"<{n[0]}>")
    return "".join(out)


def split_points(text, inq):
    """Positions just after a statement terminator; and the quote state at the end."""
    pts = []
    i = 0
    while i < len(text):
        ch = text[i]
        if inq:
            if ch == "\\":
                i += 1
            elif ch == '"':
                inq = False
        elif ch == '"':
            inq = True
        elif ch == ".":
            if i + 1 < len(text) and text[i + 1] == ".":
                i += 2
                continue
            pts.append(i + 1)
        i += 1
    return pts, inq


def has_term(nodes):
    for n in nodes:
        if n[0] == "L":
            if split_points(n[1], False)[0]:
                return True
        elif n[0] == "A":
            if any(has_term(x) for _, x in n[1]):
                return True
        elif n[0] in ("R",):
            if has_term(n[2]) or has_term(n[3]):
                return True
        elif n[0] == "S":
            if has_term(n[1]) or has_term(n[2]):
                return True
        elif n[0] == "G":
            if has_term(n[2]):
                return True
    return False


def closed(nodes):
    """A node list that starts and ends at a statement boundary (whatever alternatives are taken)."""
    clean = True
    inq = False
    for n in nodes:
        if n[0] == "L":
            pts, inq = split_points(n[1], inq)
            if pts:
                clean = not n[1][pts[-1]:].strip()
            elif n[1].strip():
                clean = False
        elif n[0] == "H":
            clean = False
        elif n[0] == "A":
            if not clean:
                if any(has_term(x) for _, x in n[1]):
                    return False
                continue
            if not all(closed(x) for _, x in n[1]):
                if any(has_term(x) for _, x in n[1]):
                    return False
                clean = False
        elif n[0] == "R":
            if not clean:
                if has_term(n[2]) or has_term(n[3]):
                    return False
                continue
            if not closed(n[2]):
                clean = False
        elif n[0] == "S":
            if not clean and has_term(n[2]):
                return False
            if clean and not closed(n[2]):
                clean = False
        elif n[0] == "G":
            if not closed(n[2]):
                clean = False
        else:
            return False
    return clean and not inq


class Emitter:
    def __init__(self, cap=4000):
        self.out = []
        self.trail = []  # unterminated text
        self.cap = cap

    def flush(self, buf, pc, loops):
        if buf:
            self.out.append(Stmt(buf, pc, loops))

    def is_blank(self, buf):
        return all(n[0] == "L" and not n[1].strip() for n in buf)

    def run(self, nodes, pc=(), loops=()):
        buf = self.seq(list(nodes), pc, loops, [])
        if not self.is_blank(buf):
            self.out.append(Stmt(buf, pc, loops, problem="unterminated"))
        return self.out

    def seq(self, nodes, pc, loops, buf):
        """Process nodes; returns the unfinished buffer."""
        inq = False
        for n in buf:
            if n[0] == "L":
                _, inq = split_points(n[1], inq)
        i = 0
        while i < len(nodes):
            if len(self.out) > self.cap:
                return buf
            n = nodes[i]
            i += 1
            k = n[0]
            if k == "L":
                pts, q2 = split_points(n[1], inq)
                start = 0
                for p in pts:
                    buf.append(("L", n[1][start:p], n[2]))
                    self.flush(self.lstrip(buf), pc, loops)
                    buf = []
                    start = p
                rest = n[1][start:]
                if rest and (buf or rest.strip()):
                    buf.append(("L", rest, n[2]))
                inq = q2
                continue
            if k == "G":
                if self.is_blank(buf):
                    b2 = self.seq(list(n[2]), tuple(n[1]), loops, [])
                    if not self.is_blank(b2):
                        self.out.append(Stmt(b2, tuple(n[1]), loops, problem="unterminated"))
                    buf = []
                else:
                    buf.extend(n[2])
                continue
            if k == "A":
                blank = self.is_blank(buf)
                if blank and all(closed(x) for _, x in n[1]):
                    F = facts(tuple(pc))
                    for f, x in n[1]:
                        g = F.simplify(f)
                        if g is False:
                            continue
                        self.seq(list(x), pc + (() if g is True else (g,)), loops, [])
                    buf = []
                    continue
                if any(has_term(x) for _, x in n[1]):
                    rest = nodes[i:]
                    F = facts(tuple(pc))
                    last = None
                    for f, x in n[1]:
                        g = F.simplify(f)
                        if g is False:
                            continue
                        pc2 = pc + (() if g is True else (g,))
                        b = self.seq(list(x) + rest, pc2, loops, list(buf))
                        if not self.is_blank(b):
                            self.out.append(Stmt(b, pc2, loops, problem="unterminated"))
                    return []
                buf.append(n)
                continue
            if k == "R":
                if self.is_blank(buf) and closed(n[2]):
                    b2 = self.seq(list(n[2]), pc, loops + (n[1],), [])
                    if not self.is_blank(b2):
                        self.out.append(Stmt(b2, pc, loops + (n[1],), problem="unterminated"))
                    buf = []
                    continue
                buf.append(n)
                continue
            if k == "S":
                if self.is_blank(buf):
                    buf = self.seq(list(n[2]), pc, loops, [])
                    continue
                buf.append(n)
                continue
            buf.append(n)
        return buf

    @staticmethod
    def lstrip(buf):
        buf = list(buf)
        while buf and buf[0][0] == "L":
            t = buf[0][1].lstrip()
            if t:
                buf[0] = ("L", t, buf[0][2])
                break
            buf.pop(0)
        return buf


def emissions(res):
    return Emitter().run(res.program.nodes)


# ---------------------------------------------------------------- variants
ENUMS = {"Direction": {"CENTER": "center", "TOP": "top", "LEFT": "left", "TOP_LEFT": "top_left", "DIAG_UP": "diag_up", "DIAG_DOWN": "diag_down"}}


def variants(nodes, pc, cap=256):
    """Expand inline alternatives: yields (flat nodes of L/H/R/S, extra conditions)."""
    out = []
    over = [False]

    def go(done, todo, conds):
        if len(out) >= cap:
            over[0] = True
            return
        while todo:
            n, todo = todo[0], todo[1:]
            if n[0] == "A":
                F = facts(tuple(pc) + tuple(conds))
                for f, x in n[1]:
                    g = F.simplify(f)
                    if g is False or F.refutes(g):
                        continue
                    go(done, tuple(x) + todo, conds + (() if g is True else (g,)))
                return
            if n[0] == "G":
                todo = tuple(n[2]) + todo
                continue
            if n[0] == "R":
                subs = [v for v, c in variants(n[2], tuple(pc) + tuple(conds), 64)[0]]
                done = done + (("R", n[1], tuple(subs), n[3]),)
                continue
            if n[0] == "S":
                subs, _ = variants(n[2], tuple(pc) + tuple(conds), 64)
                if len(subs) == 1:
                    if subs[0][0]:
                        done = done + (("S", n[1], subs[0][0]),)
                    continue
                for v, c in subs:
                    go(done + ((("S", n[1], v),) if v else ()), todo, conds + tuple(c))
                return
            done = done + (n,)
        out.append((done, conds))

    go((), tuple(nodes), ())
    return out, over[0]
