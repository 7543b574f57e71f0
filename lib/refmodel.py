"""Reference model: JSON with source spans, JSONPath evaluation, filters.

Written from the README's operator table and Goessner's JSONPath; it shares no
code and no data structure with the implementation (tree walking here, a
compiled automaton over a token stream there)."""
import math
import re

ARR = object()


class Node:
    __slots__ = ("kind", "s", "e", "kids", "keys", "depth")

    def __init__(self, kind, s):
        self.kind, self.s, self.kids, self.keys = kind, s, None, None


WS = b" \t\n\r"


def parse(b):
    """bytes -> Node tree; kinds: o a p(primitive) with [s, e) spans.  Strict enough for generated docs."""
    n = len(b)

    def ws(i):
        while i < n and b[i] in WS:
            i += 1
        return i

    def string_end(i):
        i += 1
        while b[i] != 34:
            i += 2 if b[i] == 92 else 1
        return i + 1

    def value(i):
        c = b[i]
        if c == 123:
            nd = Node("o", i)
            nd.kids, nd.keys = [], []
            i = ws(i + 1)
            if b[i] == 125:
                nd.e = i + 1
                return nd, i + 1
            while True:
                e = string_end(i)
                nd.keys.append(b[i + 1:e - 1])
                i = ws(e)
                assert b[i] == 58
                k, i = value(ws(i + 1))
                nd.kids.append(k)
                i = ws(i)
                if b[i] == 44:
                    i = ws(i + 1)
                    continue
                assert b[i] == 125
                nd.e = i + 1
                return nd, i + 1
        if c == 91:
            nd = Node("a", i)
            nd.kids = []
            i = ws(i + 1)
            if b[i] == 93:
                nd.e = i + 1
                return nd, i + 1
            while True:
                k, i = value(i)
                nd.kids.append(k)
                i = ws(i)
                if b[i] == 44:
                    i = ws(i + 1)
                    continue
                assert b[i] == 93
                nd.e = i + 1
                return nd, i + 1
        nd = Node("p", i)
        if c == 34:
            nd.e = string_end(i)
        else:
            m = re.compile(rb"[-+0-9A-Za-z.]+").match(b, i)
            nd.e = m.end()
        return nd, nd.e

    nd, i = value(ws(0))
    assert ws(i) == n
    return nd


# ---------------------------------------------------------------- filters
# expr: ("var", [names]) ("num", float) ("str", s) ("not", e) (op, l, r)

UNDEF = ("null", None)


def text_value(t):
    """Value of a condition from the matched JSON text (bytes) or None / container marker."""
    if t is None:
        return UNDEF
    if t == b"":
        return ("bool", True)
    if t == b"true":
        return ("bool", True)
    if t == b"false":
        return ("bool", False)
    if t == b"null":
        return UNDEF
    if t[:1] == b'"':
        return ("str", t[1:-1])
    try:
        return ("num", float(t))
    except ValueError:
        return UNDEF


def truth(v):
    k, x = v
    if k == "null":
        return False
    if k == "num":
        return x != 0.0
    if k == "str":
        return True
    return x


def ev(e, env):
    op = e[0]
    if op == "var":
        return env(b".".join(e[1]))
    if op == "num":
        return ("num", float(e[1]))
    if op == "str":
        return ("str", e[1])
    if op == "not":
        return ("bool", not truth(ev(e[1], env)))
    a, b = ev(e[1], env), ev(e[2], env)
    if op == "||":
        return ("bool", truth(a) or truth(b))
    if op == "&&":
        return ("bool", truth(a) and truth(b))
    if op in ("==", "!="):
        r = a[0] == b[0] and a[1] == b[1]
        return ("bool", r if op == "==" else not r)
    if op in ("<", ">", "<=", ">="):
        if a[0] == b[0] and a[0] in ("num", "str"):
            x, y = a[1], b[1]
            r = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        else:
            r = False
        return ("bool", r)
    if a[0] != "num" or b[0] != "num":
        return UNDEF
    x, y = a[1], b[1]
    if op == "+":
        return ("num", x + y)
    if op == "-":
        return ("num", x - y)
    if op == "*":
        return ("num", x * y)
    if op == "/":
        if y == 0:
            return ("num", math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y))
        return ("num", x / y)
    if op == "%":
        if not (abs(x) < 9.2e18 and abs(y) < 9.2e18):
            return UNDEF
        x, y = math.trunc(x), math.trunc(y)
        return ("num", float(abs(x) % abs(y) * (-1 if x < 0 else 1))) if y else UNDEF
    raise ValueError(op)


def expr_vars(e):
    if e[0] == "var":
        return [tuple(e[1])]
    if e[0] in ("num", "str"):
        return []
    r = []
    for x in e[1:]:
        for v in expr_vars(x):
            if v not in r:
                r.append(v)
    return r


def filter_ok(e, node, b):
    """Does object `node` satisfy the filter?  Conditions resolve through object members only."""
    if node.kind != "o":
        return False

    def env(name):
        # names may repeat: of all the members the path leads to, the last one counts
        cur = [node]
        for k in name.split(b"."):
            cur = [kid for c in cur if c.kind == "o" for kk, kid in zip(c.keys, c.kids) if kk == k]
        if not cur:
            return UNDEF
        c = cur[-1]
        return text_value(b[c.s:c.e] if c.kind == "p" else b"")
    return truth(ev(e, env))


# ---------------------------------------------------------------- queries
# steps: ("c", name) ("d", name) ("w",) ("dw",) ("*",) ("i", n) ("r", lo|None, hi|None) ("f", expr)

def ser_expr(e, sp=False, parens="full"):
    op = e[0]
    if op == "var":
        return b"@" + b"".join(b"." + x for x in e[1])
    if op == "num":
        return (b"%d" % e[1]) if e[1] == int(e[1]) else repr(e[1]).encode()
    if op == "str":
        return b"'" + e[1] + b"'"
    if op == "not":
        x = ser_expr(e[1], sp, parens)
        return b"!" + (x if e[1][0] in ("var", "num", "str") or x[:1] == b"(" else b"(" + x + b")")
    s = b" " if sp else b""
    r = ser_expr(e[1], sp, parens) + s + op.encode() + s + ser_expr(e[2], sp, parens)
    return b"(" + r + b")"


def ser_query(steps, sp=False):
    o = b"$"
    for st in steps:
        k = st[0]
        if k == "c":
            o += b"." + st[1]
        elif k == "d":
            o += b".." + st[1]
        elif k == "w":
            o += b".*"
        elif k == "dw":
            o += b"..*"
        elif k == "*":
            o += b"[*]"
        elif k == "i":
            o += b"[%d]" % st[1]
        elif k == "r":
            o += b"[" + (b"" if st[1] is None else b"%d" % st[1]) + b":" + (b"" if st[2] is None else b"%d" % st[2]) + b"]"
        elif k == "f":
            x = ser_expr(st[1], sp)
            o += b"[?(" + (x[1:-1] if x[:1] == b"(" and st[1][0] != "not" else x) + b")]"
    return o


PREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}


def ser_min(e, r=None, outer=0, right=False):
    """An expression with no more parentheses than the grammar needs (r: a few more, and blanks, at random)."""
    sp = (lambda: r.choice([b"", b"", b" ", b"  ", b"\t"])) if r else (lambda: b"")
    op = e[0]
    if op in ("var", "num", "str"):
        t = ser_expr(e)
    elif op == "not":
        x = ser_min(e[1], r, 6)
        t = b"!" + sp() + x
        if outer > 6:
            t = b"(" + t + b")"
    else:
        p = PREC[op]
        t = ser_min(e[1], r, p) + sp() + op.encode() + sp() + ser_min(e[2], r, p + 1)
        if p < outer:
            t = b"(" + sp() + t + sp() + b")"
    if r and r.random() < .05:
        t = b"(" + t + b")"
    return t


class Eval:
    """One evaluation: spans of the matches, and which known-finding situations the document puts the query in."""

    def __init__(self, steps, root, b):
        self.steps, self.b, self.n = steps, b, len(steps)
        self.res = []
        # an element outside an index range whose inside is reached by another branch of '..'
        self.index_below_descendant = False
        # a filtered object inside another object that the same filter applies to
        self.nested_filter = False
        self.deep = any(s[0] in ("d", "dw") for s in steps)
        self._walk(root, frozenset([0]), frozenset())
        self.res.sort()
        self.spans = [(s, e) for e, s in self.res]

    def _step(self, st, label, idx, kid):
        k = st[0]
        if k in ("c", "d"):
            return label == st[1]
        if k in ("w", "dw"):
            return True
        if label is not ARR:
            return False
        if k == "*":
            return True
        if k == "i":
            return idx == st[1]
        if k == "r":
            return (st[1] is None or idx >= st[1]) and (st[2] is None or idx < st[2])
        if k == "f":
            return filter_ok(st[1], kid, self.b)
        raise ValueError(k)

    def _walk(self, node, states, filters):
        # states: p = steps[:p] are matched at this node (or steps[p] is descending through it)
        if not node.kids:
            return
        isarr = node.kind == "a"
        steps, n = self.steps, self.n
        for i, kid in enumerate(node.kids):
            label = ARR if isarr else node.keys[i]
            nxt = set()
            applied = set()
            failed_index = index_steps = 0
            for p in states:
                if p >= n:
                    continue
                st = steps[p]
                k = st[0]
                if k in ("d", "dw"):
                    nxt.add(p)          # keep descending
                ok = self._step(st, label, i, kid)
                if ok:
                    nxt.add(p + 1)
                if isarr:
                    if k in "ir":
                        index_steps += 1
                        failed_index += not ok
                    elif k == "f" and kid.kind == "o":
                        applied.add(p)
            if index_steps > 1 or (failed_index and nxt):
                self.index_below_descendant = True
            if applied & filters:
                self.nested_filter = True
            if n in nxt:
                self.res.append((kid.e, kid.s))
            nx = frozenset(p for p in nxt if p < n)
            if nx and kid.kind != "p":
                self._walk(kid, nx, filters | applied)

    def texts(self):
        return [self.b[s:e] for s, e in self.spans]


def evaluate(steps, root, b):
    """Spans of matched values, in order of their end."""
    return Eval(steps, root, b).spans


def run(steps, b, root=None):
    return Eval(steps, root or parse(b), b).texts()
