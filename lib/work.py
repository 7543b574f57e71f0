"""The shared workload: documents and queries of many shapes, with the results a reference model expects."""
import gen as GN
import refmodel as R

SEPS = [b"\n", b"", b" ", b"\r\n", b"\n\n"]


class Case:
    """A query, one or more documents one after another, and what the model expects of them."""
    __slots__ = ("steps", "q", "docs", "doc", "texts", "exact", "profile", "per_doc")

    def __init__(self, steps, q, docs, doc, profile):
        self.steps, self.q, self.docs, self.doc, self.profile = steps, q, docs, doc, profile
        self.texts, self.exact, self.per_doc = [], True, []
        for d in docs:
            e = R.Eval(steps, R.parse(d), d)
            if e.index_below_descendant or e.nested_filter:
                self.exact = False        # a known finding: see DESIGN.md
            t = e.texts()
            self.per_doc.append(t)
            self.texts += t

    def key(self):
        return (self.q, self.doc)


def tame(steps):
    """Leaves out what the known finding on filters below '..' covers (DESIGN.md)."""
    fi = [i for i, s in enumerate(steps) if s[0] == "f" and any(t[0] in ("d", "dw") for t in steps[:i])]
    if fi and (len([1 for s in steps if s[0] == "f"]) > 1 or any(s[0] not in "cd" for s in steps[fi[0] + 1:])):
        return [s for s in steps[:fi[0]] if s[0] != "f"] + [steps[fi[0]]] + [s for s in steps[fi[0] + 1:] if s[0] in "cd"]
    return steps


OPS = ["cw*irf", "cdw*", "cdw*f", "cdDw*irf", "c*f", "c*ir", "c*ic*r", "cd", "c*cf"]


def query(r, keys, **o):
    return tame(GN.gen_query(r, keys, ops=r.choice(o.get("ops", OPS)), maxlen=o.get("maxlen", 5), minlen=o.get("minlen", 1)))


def along(r, node, b, maxlen=6, names=True):
    """A query that follows a path that exists in the document, loosened here and there."""
    steps, cur = [], node
    while cur.kids and len(steps) < maxlen:
        i = r.randrange(len(cur.kids))
        x = r.random()
        if cur.kind == "o":
            k = cur.keys[i]
            ok = all(c in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789" for c in k) and k and not k[:1].isdigit()
            if not ok or x < .12:
                steps.append(("w",))
            elif x < .3 and names:
                steps.append(("d", k))
            else:
                steps.append(("c", k))
        else:
            n = len(cur.kids)
            if x < .45:
                steps.append(("*",))
            elif x < .65:
                steps.append(("i", i))
            elif x < .72:
                steps.append(("w",))
            elif x < .8 and cur.kids[i].kind == "o" and cur.kids[i].keys:
                ks = [k for k in cur.kids[i].keys if k.isalnum() and not k[:1].isdigit()]
                if ks and not any(s[0] == "f" for s in steps):
                    steps.append(("f", GN.gen_expr(r, ks)))
                else:
                    steps.append(("*",))
            else:
                lo = r.choice([None, r.randint(0, i), i])
                hi = r.choice([None, i + 1, r.randint(i + 1, n + 1)])
                if lo is None and hi is None:
                    lo = 0
                if r.random() < .04:
                    lo, hi = GN.huge(r, lo, hi)
                steps.append(("r", lo, hi))
        cur = cur.kids[i]
        if cur.kind != "p" and cur.kids and r.random() < .12:
            break
    return tame(steps) or [("w",)]


def _mix(r, keys, doc, **o):
    if r.random() < .55:
        st = along(r, R.parse(doc), doc, o.get("maxlen", 6))
        if st:
            return st
    return query(r, keys, **o)


# ------------------------------------------------------------------ shapes
def p_small(r):
    keys = r.sample(GN.KEYS, r.randint(2, 6))
    g = GN.G(r, keys, ws=r.choice([0, 0, 2]), width=r.randint(2, 6), pprim=r.choice([.2, .4]))
    doc = g.doc(r.randint(2, 6))
    return _mix(r, keys, doc), [doc]


def p_layout(r):
    keys = r.sample(GN.KEYS, 3)
    g = GN.G(r, keys, ws=r.choice([1, 3, 40]), wsp=r.choice([.3, .7, 1]), width=4, pprim=.3,
             wschars=r.choice([[b" "], [b"\n"], [b"\t"], [b"\r\n"], [b" ", b"\t", b"\n", b"\r\n"]]))
    doc = g.doc(r.randint(2, 4))
    return _mix(r, keys, doc), [doc]


def _name(r, n):
    return bytes([r.choice(b"abcXYZ_")]) + bytes(r.choice(b"abcXYZ_019") for _ in range(n - 1))


def p_long(r):
    """Long names, long strings, long numbers."""
    keys = [_name(r, r.choice([1, 30, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 5000])) for _ in range(4)]
    if r.random() < .35:
        keys = GN.family(r) + keys[:r.choice([0, 1])]
    keys = list(dict.fromkeys(keys))
    nums = [b"1" * r.choice([20, 300]), b"-0." + b"3" * 150, b"1e+10"]
    g = GN.G(r, keys, ws=r.choice([0, 1]), width=3, long=.5, pprim=.3, nums=GN.NUMS + nums,
             strs=GN.STRS + [b"\\\\" * r.choice([3, 500]), b"\\\\" * r.choice([1, 3, 15, 16, 32, 63, 64, 127, 128, 300]) + b'\\" , ' + b"\\\\" * r.choice([0, 0, 40]), b"\\\"" * r.choice([5, 600]), b"x" * r.choice([4095, 4096, 9000])])
    doc = g.doc(r.randint(2, 4))
    return _mix(r, keys, doc, maxlen=4), [doc]


def p_deep(r):
    keys = [b"a", b"b", b"k1"]
    depth = r.choice([12, 30, 63, 64, 65, 130, 400, 900])
    pre, post = b"", b""
    labels = []
    for _ in range(depth):
        if r.random() < .5:
            k = r.choice(keys)
            labels.append(k)
            before = b'"z":1,' if r.random() < .2 else b""
            after = b',"y":[%d]' % r.randint(0, 99) if r.random() < .2 else b""
            pre += b"{" + before + b'"' + k + b'":'
            post = after + b"}" + post
        else:
            n = r.choice([0, 0, 0, 1, 2])
            labels.append(n)
            pre += b"[" + b"".join(r.choice([b"1,", b'"s",', b"{},"]) for _ in range(n))
            post = (b",%d" % r.randint(0, 9) if r.random() < .2 else b"") + b"]" + post
    doc = pre + r.choice([b"7", b'"leaf"', b"{}", b"[]", b'{"a":1}']) + post
    x = r.random()
    if x < .4:
        st = [("d", r.choice(keys))] + [(r.choice("cd"), r.choice(keys)) for _ in range(r.randint(0, 2))]
    elif x < .8:
        n = r.randint(1, min(depth, 40))
        st = []
        for l in labels[:n]:
            if isinstance(l, bytes):
                st.append(("c", l) if r.random() < .85 else ("w",))
            else:
                st.append(r.choice([("*",), ("i", l), ("r", l, None), ("r", None, l + 1)]))
    else:
        st = [("dw",)] if depth < 140 else [("d", b"y")]
    return st, [doc]


def p_wide(r):
    """Many elements, many members, many results, large index ranges."""
    keys = r.sample(GN.KEYS, 3)
    n = r.choice([150, 500, 1030, 1500, 2500])
    g = GN.G(r, keys, width=2, pprim=.6)
    kind = r.random()
    if kind < .6:
        doc = b"[" + b",".join(g.value(1) for _ in range(n)) + b"]"
        pre = []
        if r.random() < .5:
            doc, pre = b'{"a":' + doc + b"}", [("c", b"a")]
        lo = r.randint(0, n)
        st = pre + [r.choice([("*",), ("w",), ("i", r.randint(0, n - 1)), ("i", n), ("r", lo, None), ("r", None, lo + 1),
                              ("r", lo, lo + r.choice([1, 40, 1100]))])]
        if r.random() < .5:
            st.append(r.choice([("c", keys[0]), ("w",), ("*",), ("i", 0)]))
    elif kind < .8:
        doc = b"{" + b",".join(b'"k%d":%s' % (i, g.value(1)) for i in range(n)) + b"}"
        st = r.choice([[("w",)], [("c", b"k%d" % r.randint(0, n))], [("d", keys[0])], [("w",), ("w",)], [("dw",)]])
    else:
        doc = b'{"a":[' + b",".join(b'{"id":%d,"b":%s}' % (i % 7, g.prim()) for i in range(n // 2)) + b"]}"
        st = [("c", b"a"), ("f", r.choice([("==", ("var", [b"id"]), ("num", 3)), ("var", [b"b"]), (">", ("var", [b"id"]), ("num", 4))]))]
        if r.random() < .6:
            st.append(("c", r.choice([b"b", b"id"])))
    return st, [doc]


def p_records(r):
    """Arrays of records with filters, often several and on nested members."""
    keys = r.sample(GN.KEYS, 5)
    g = GN.G(r, keys, width=3, pprim=.6, ws=r.choice([0, 1]))

    def rec(d):
        m = []
        for k in r.sample(keys, r.randint(0, 5)):
            x = r.random()
            if x < .25 and d:
                v = b"{" + b",".join(b'"' + kk + b'":' + g.prim() for kk in r.sample(keys, r.randint(0, 3))) + b"}"
            elif x < .45 and d:
                v = b"[" + b",".join(rec(d - 1) if r.random() < .7 else g.prim() for _ in range(r.randint(0, 4))) + b"]"
            else:
                v = g.prim()
            m.append(b'"' + k + b'":' + g.ws() + v)
        return b"{" + g.ws() + b",".join(m) + b"}"
    doc = b"[" + b",".join(rec(2) if r.random() < .85 else g.prim() for _ in range(r.randint(1, 12))) + b"]"
    st = [("f", GN.gen_expr(r, keys, depth=3))]
    if r.random() < .5:
        doc = b'{"%s":%s,"%s":%s}' % (keys[0], doc, keys[1], rec(2))
        st = [r.choice([("c", keys[0]), ("d", keys[0]), ("w",)])] + st
    for _ in range(r.randint(0, 2)):
        st.append(r.choice([("c", r.choice(keys)), ("c", r.choice(keys)), ("w",), ("*",), ("i", r.randint(0, 2)),
                            ("f", GN.gen_expr(r, keys))]))
    return tame(st), [doc]


def p_lines(r):
    """Several documents, one after another."""
    keys = r.sample(GN.KEYS, 3)
    g = GN.G(r, keys, ws=r.choice([0, 1]), width=4, pprim=.4)
    docs = [g.doc(r.randint(1, 4)).strip() for _ in range(r.randint(2, 9))]
    return _mix(r, keys, r.choice(docs)), docs


NEAR = [b"a", b"aa", b"ab", b"A", b"a ", b" a", b"a\\\"", b"a.b", b"", b"_a", b"a1", b"a_", b"\\u0061", b"b", b"$", b"@", b"*", b"..",
        b"a[0]", b"name", b"nam", b"names", b"\xc3\xa9", b"a\\\\", b"'a'", b"a:", b"a,", b"{a", b"other", b"array", b"true", b"0", b"[", b"]"]


def p_near(r):
    """Names that almost are the ones asked for; strings that look like structure."""
    keys = r.sample(NEAR, 8) + [b"a", b"b"]
    keys = list(dict.fromkeys(keys))
    g = GN.G(r, keys, ws=r.choice([0, 2]), width=6, pprim=.35, strs=GN.STRS + [b'\\"a\\":1', b'},{\\"a\\":[', b'\\\\\\"', b'\\\\', b'],', b'{', b'\\":\\"', b" ", b","])
    doc = g.doc(r.randint(2, 4))
    return _mix(r, [b"a", b"b", b"aa", b"ab", b"A", b"a1", b"_a", b"name", b"other", b"array"], doc), [doc]


def p_dups(r):
    """Objects that repeat a name."""
    keys = [b"a", b"b", b"c"]
    g = GN.G(r, keys, width=3, pprim=.6)

    def ob(d):
        return b"{" + b",".join(b'"' + r.choice(keys) + b'":' + (g.prim() if d == 0 or r.random() < .4 else r.choice([ob, ar])(d - 1))
                                for _ in range(r.randint(0, 6))) + b"}"

    def ar(d):
        return b"[" + b",".join(g.prim() if d == 0 or r.random() < .3 else ob(d - 1) for _ in range(r.randint(0, 4))) + b"]"
    doc = r.choice([ob, ar])(3)
    return _mix(r, keys, doc), [doc]


def p_names(r):
    """Queries of many steps over many names."""
    n = r.choice([8, 20, 60, 120])
    names = [b"n%d" % i for i in range(n)]
    g = GN.G(r, names[-3:], width=3, pprim=.4)
    doc = g.value(2)
    st = []
    for k in reversed(names):
        x = r.random()
        if x < .6:
            doc = b'{"z":1,"' + k + b'":' + doc + b',"' + r.choice(names) + b'":2}'
            st.append(("c", k))
        elif x < .8:
            m = r.randint(0, 2)
            doc = b"[" + b"".join(b"%d," % i for i in range(m)) + doc + b"]"
            st.append(r.choice([("*",), ("i", m), ("r", 0, m + 1)]))
        else:
            doc = b'{"' + k + b'":' + doc + b"}"
            st.append(("w",))
    st.reverse()
    if r.random() < .3:
        # one filter over many names
        doc = b"[" + b",".join(b"{" + b",".join(b'"' + k + b'":%d' % r.randint(0, 1) for k in r.sample(names, r.randint(1, n))) + b"}" for _ in range(4)) + b"]"
        e = ("var", [names[0]])
        for k in names[1:]:
            e = (r.choice(["&&", "||"]), e, ("var", [k]))
        st = [("f", e)] + ([("c", r.choice(names))] if r.random() < .5 else [])
    return st, [doc]


def p_empty(r):
    keys = [b"a", b"b"]
    g = GN.G(r, keys, width=3, pprim=.15, ws=r.choice([0, 1]))

    def v(d):
        x = r.random()
        if d == 0 or x < .4:
            return r.choice([b"{}", b"[]", b'""', b"{ }", b"[ ]", b"0", b"null", b"{}", b"[]"])
        n = r.randint(0, 3)
        if x < .7:
            return b"[" + g.ws() + b",".join(v(d - 1) for _ in range(n)) + b"]"
        return b"{" + g.ws() + b",".join(b'"' + k + b'":' + v(d - 1) for k in r.sample(keys, min(n, 2))) + b"}"
    doc = r.choice([b'{"a":%s,"b":%s}' % (v(4), v(3)), b"[%s,%s]" % (v(4), v(3)), b"{}", b"[]"])
    return _mix(r, keys, doc), [doc]


def p_big(r):
    """Documents of some hundred kB of mixed records."""
    keys = r.sample(GN.KEYS, 6)
    g = GN.G(r, keys, width=5, pprim=.3, ws=r.choice([0, 1]), long=.02)
    parts, n = [], 0
    while n < r.choice([40000, 120000]):
        p = g.value(4)
        parts.append(p)
        n += len(p)
    doc = b'{"a":[' + b",".join(parts) + b'],"b":' + g.value(3) + b"}"
    st = r.choice([[("c", b"a"), ("*",), ("c", keys[0])], [("d", keys[1])], [("c", b"a"), ("f", GN.gen_expr(r, keys)), ("c", keys[2])],
                   [("d", keys[0]), ("c", keys[1])], [("c", b"a"), ("r", 3, 300), ("w",)], [("d", keys[3]), ("*",)],
                   [("c", b"a"), ("*",), ("*",), ("i", 1)]])
    return st, [doc]


PROFILES = {"small": (p_small, 30), "layout": (p_layout, 6), "long": (p_long, 7), "deep": (p_deep, 7), "wide": (p_wide, 4),
            "records": (p_records, 14), "lines": (p_lines, 8), "near": (p_near, 8), "dups": (p_dups, 6), "names": (p_names, 4),
            "empty": (p_empty, 5), "big": (p_big, 1)}


def draw(r, names=None, without=()):
    ps = [(n, PROFILES[n]) for n in (names or PROFILES) if n not in without]
    n, (f, _) = r.choices(ps, [w for _, (_, w) in ps])[0]
    st, docs = f(r)
    sep = r.choice(SEPS)
    doc = sep.join(docs)
    if len(docs) > 1 and r.random() < .5:
        doc += sep
    return Case(st, R.ser_query(st, r.random() < .2), docs, doc, n)


def cuts(r, b, k):
    """Up to k places between tokens of the document (never inside a string or a primitive)."""
    ps = token_gaps(b)
    return sorted(r.sample(ps, min(k, len(ps))))


def token_gaps(b):
    out, i, n = [], 0, len(b)
    while i < n:
        c = b[i]
        if c == 34:
            i += 1
            while i < n and b[i] != 34:
                i += 2 if b[i] == 92 else 1
            i += 1
        elif c in b"{}[]:, \t\r\n":
            i += 1
        else:
            while i < n and b[i] not in b"{}[]:, \t\r\n\"":
                i += 1
        out.append(i)
    return [x for x in out if 0 < x < n]


def split(b, ps):
    ps = [0] + list(ps) + [len(b)]
    return [b[x:y] for x, y in zip(ps, ps[1:]) if x < y]


def string_gaps(b):
    """Where the loader and the partitioner may cut: before a string that follows ',', '{' or '['."""
    out, ins, prev, i = [], False, 0, 0
    while i < len(b):
        c = b[i]
        if ins:
            if c == 92:
                i += 1
            elif c == 34:
                ins = False
        else:
            if c == 34:
                if prev in b",{[":
                    out.append(i)
                ins = True
            if c not in b" \t\r\n":
                prev = c
        i += 1
    return [x for x in out if x > 0]


def doc_ends(c):
    out, p = [], 0
    for d in c.docs[:-1]:
        p = c.doc.index(d, p) + len(d)
        out.append(p)
    return out


def serial_gaps(b):
    """Gaps between tokens, but not between a name and its colon."""
    out, k, nxt = [], len(b), 0
    for g in reversed(token_gaps(b)):
        while k > g:                    # nxt: what comes next, blanks left out
            k -= 1
            if b[k] not in b" \t\r\n":
                nxt = b[k]
        if nxt != 58:
            out.append(g)
    out.reverse()
    return out


def pick(r, gaps, k):
    return sorted(r.sample(gaps, min(k, len(gaps))))


def spans(c):
    """(start, end) of every expected result in the whole input, in order."""
    out, p = [], 0
    for d in c.docs:
        o = c.doc.index(d, p)
        out += [(o + s, o + e) for s, e in R.Eval(c.steps, R.parse(d), d).spans]
        p = o + len(d)
    return out


CORES = [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 9, 12, 16, 16, 24, 33, 64, 100]


def train_doc(r, c):
    """Training data: the document itself, a part, something like it, or something else altogether."""
    x = r.random()
    if x < .3:
        return c.doc
    if x < .5:
        b = c.doc
        ps = token_gaps(b)
        return b[:r.choice(ps)] if ps else b
    if x < .6:
        return c.docs[0]
    if x < .7:
        return r.choice([b"{}", b"[]", b"[1,2]", b'{"a":1}', b" ", b'"x"', b""])
    keys = r.sample(GN.KEYS, 4)
    if x < .85:
        keys += [s[1] for s in c.steps if s[0] in "cd"][:4]
        keys = list(dict.fromkeys(keys))
    return GN.G(r, keys, width=4, pprim=.3).doc(r.randint(2, 5))
