"""A small tokenizer for the front end's JavaScript and a few queries over its token stream."""
import os
import re

from .loader import AnalysisBroken

TOK = re.compile(
    r"""(?P<ws>\s+)|(?P<com>//[^\n]*|/\*.*?\*/)|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<tpl>`(?:\\.|[^`\\])*`)"""
    r"""|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_$][\w$]*)|(?P<op>===|!==|=>|==|!=|<=|>=|&&|\|\||\?\.|\?\?|\+\+|--|\.\.\.|.)""",
    re.S | re.X,
)


class Js:
    def __init__(self, root, rel):
        p = os.path.join(root, rel)
        if not os.path.exists(p):
            raise AnalysisBroken(f"{rel} not found")
        with open(p, encoding="utf-8") as f:
            self.src = f.read()
        self.rel = rel
        self.toks = []
        line = 1
        for m in TOK.finditer(self.src):
            k, t = m.lastgroup, m.group()
            if k not in ("ws", "com"):
                self.toks.append((k, unquote(t) if k in ("str", "tpl") else t, line))
            line += t.count("\n")

    def find(self, *pat):
        """Indices where the token texts match (None matches anything; a kind in <> matches the kind)."""
        out = []
        n = len(pat)
        for i in range(len(self.toks) - n + 1):
            for j, p in enumerate(pat):
                k, t, _ = self.toks[i + j]
                if p is None:
                    continue
                if p.startswith("<"):
                    if k != p[1:-1]:
                        break
                elif k == "str" or t != p:
                    break
            else:
                out.append(i)
        return out

    def close(self, i):
        """Index of the bracket that closes the one at i."""
        pairs = {"(": ")", "[": "]", "{": "}"}
        st = []
        for j in range(i, len(self.toks)):
            k, t, _ = self.toks[j]
            if k != "op":
                continue
            if t in pairs:
                st.append(pairs[t])
            elif st and t == st[-1]:
                st.pop()
                if not st:
                    return j
        raise AnalysisBroken(f"{self.rel}: unbalanced brackets")

    def args(self, i):
        """Token index ranges of the arguments of the call whose '(' is at i."""
        e = self.close(i)
        out, depth, s = [], 0, i + 1
        for j in range(i + 1, e):
            t = self.toks[j][1] if self.toks[j][0] == "op" else ""
            if t in "([{" and t:
                depth += 1
            elif t in ")]}" and t:
                depth -= 1
            elif t == "," and depth == 0:
                out.append((s, j))
                s = j + 1
        if s < e:
            out.append((s, e))
        return out

    def keys(self, i):
        """Property names of the object literal whose '{' is at i: {name: (value start, value end)}."""
        e = self.close(i)
        out, depth, s = {}, 0, i + 1
        bounds = []
        for j in range(i + 1, e):
            t = self.toks[j][1] if self.toks[j][0] == "op" else ""
            if t and t in "([{":
                depth += 1
            elif t and t in ")]}":
                depth -= 1
            elif t == "," and depth == 0:
                bounds.append((s, j))
                s = j + 1
        if s < e:
            bounds.append((s, e))
        for a, b in bounds:
            if self.toks[a][0] in ("id", "str"):
                out[self.toks[a][1]] = (a + 2 if b - a > 1 else a, b)
        return out

    def const(self, name):
        """String/number constants assigned to a name (const/let/var or plain assignment)."""
        out = []
        for i in self.find(name, "="):
            if self.toks[i + 2][0] in ("str", "tpl", "num") and (i == 0 or self.toks[i - 1][1] != "."):
                out.append(self.toks[i + 2][1])
        return out

    def value(self, a, b):
        """Constant text of an expression (a string, template without holes, or a name bound to one), else None."""
        if b - a == 1:
            k, t, _ = self.toks[a]
            if k in ("str", "num") or (k == "tpl" and "${" not in t):
                return t
            if k == "id":
                c = self.const(t)
                return c[0] if len(c) == 1 else None
        return None


def unquote(t):
    body = t[1:-1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), body)
