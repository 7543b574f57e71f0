import re

import gen as GN
import refmodel as R
import work
ID = "C23"
RULE = ("Pairs of runs whose results must be related, whatever the results are (no model is involved): other layout, renamed names, replaced "
        "primitives, wrapped documents, members that the query does not mention, records in another order, slices put together, a wildcard split "
        "into its elements, a filter and its negation, logically equal filters, and the number of values below '..name'.  Each in serial, parallel, constrained and incremental runs.  "
        "Non-trivial: the runs report results.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 10000, "thorough": 150000}
ASSUMES = ["well-formed JSON documents", "names of queries are letters, digits and '_'"]
TOK = re.compile(rb'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[^\s{}\[\]:,"]+', re.S)


def toks(b):
    return TOK.findall(b)


def norm(b):
    return b"".join(toks(b))


def relay(r, b, style=None):
    t = toks(b)
    ws = style or r.choice([[b""], [b" "], [b"\n", b""], [b"\r\n", b"\t", b" ", b"", b""], [b" " * 37, b""], [b""] * 9 + [b" " * (3000 if len(t) < 300 else 30)]])
    out = []
    for x, y in zip(t, t[1:] + [b"}"]):
        out.append(x)
        g = r.choice(ws)
        prim = x[:1] not in b'{}[]:,"' and y[:1] not in b'{}[]:,"'      # two documents that are numbers or the like
        out.append(g or (b" " if prim else b""))
    return b"".join(out)


def any_mode(r, w, q, doc, what, want=None):
    """One of the modes, chosen at random; all of them must agree anyway."""
    kind = "asan" if r.random() < .15 else "plain"
    m = r.choice("ssspo1ij")
    nc = r.choice([2, 3, 4, 5, 8, 16])
    if m == "s":
        res = w.run(kind, "serial", q, doc)
    elif m == "p":
        res = w.run(kind, "par", q, doc, nc)
    elif m == "o":
        res = w.run(kind, "paropt", q, doc, nc, r.choice([doc, doc[:len(doc) // 2], b"{}"]))
    elif m == "1":
        res = w.run(kind, r.choice(["serial", "par"]) + "@fp=%d" % max(r.choice([1, 10, 100]), len(doc) // 50), q, doc, nc)
    elif m == "i":
        res = w.run(kind, "sparts", q, 1, *work.split(doc, work.pick(r, work.serial_gaps(doc), r.choice([1, 3]))))
    else:
        res = w.run(kind, "pparts", q, nc, *work.split(doc, work.pick(r, work.serial_gaps(doc), r.choice([1, 3]))))
    w.count("runs in mode " + {"s": "serial", "p": "parallel", "o": "constrained", "1": "piecewise", "i": "incremental", "j": "incremental parallel"}[m])
    return w.ok(res, what).outs("o")


def one_doc(r, tries=30, ok=lambda c: True, **k):
    for _ in range(tries):
        c = work.draw(r, **k)
        if len(c.docs) == 1 and ok(c):
            return c
    return None


def words(c):
    out = set()

    def ex(e):
        if e[0] == "var":
            out.update(e[1])
        elif e[0] not in ("num", "str"):
            for x in e[1:]:
                ex(x)
    for s in c.steps:
        if s[0] in "cd" and len(s) > 1:
            out.add(s[1])
        elif s[0] == "f":
            ex(s[1])
    return out


def rename_steps(steps, f):
    def ex(e):
        if e[0] == "var":
            return ("var", [f(x) for x in e[1]])
        if e[0] in ("num", "str"):
            return e
        return (e[0],) + tuple(ex(x) for x in e[1:])
    out = []
    for s in steps:
        if s[0] in ("c", "d"):
            out.append((s[0], f(s[1])))
        elif s[0] == "f":
            out.append(("f", ex(s[1])))
        else:
            out.append(s)
    return out


def retok(b, key, val):
    """Another name for every name, another primitive for every primitive."""
    t = toks(b)
    out = []
    for k, x in enumerate(t):
        if k + 1 < len(t) and t[k + 1] == b":":
            out.append(b'"' + key(x[1:-1]) + b'"')
        elif x[:1] in b"{}[]:,":
            out.append(x)
        else:
            out.append(val(x))
    return b"".join(out)


def m_layout(r, w):
    c = work.draw(r, without=("big",))
    a = any_mode(r, w, c.q, c.doc, "run")
    b2 = relay(r, c.doc)
    b = any_mode(r, w, c.q, b2, "run over another layout")
    w.same([norm(x) for x in b], [norm(x) for x in a], "another layout of the same text", query=c.q, document=c.doc, other=b2)
    for o, d in ((a, c.doc), (b, b2)):      # a result is the text of a value, without the blanks around it
        w.same([x.strip(b" \t\r\n") for x in o], o, "blanks around a value", query=c.q, document=d)
    return a, c


def m_rename(r, w):
    c = one_doc(r, without=("big",))
    if not c:
        return None
    used, m = {}, {}

    def f(k):
        if k not in m:
            while True:
                x = bytes([r.choice(b"abzXY_")]) + bytes(r.choice(b"abcxyzABC_0123456789") for _ in range(r.choice([0, 1, 2, 5, 9, 40])))
                if x not in used:
                    break
            used[x] = 1
            m[k] = x
        return m[k]
    vals = {}

    def g(v):
        if v not in vals:
            vals[v] = v if any(s[0] == "f" for s in c.steps) else r.choice(
                [b"0", b"-12.5e+7", b"true", b'"%s"' % (b"z{[\\\"" * r.choice([0, 1, 9, 200])), b'"\\\\"', b'"' + f(v)[:9] + b'"', b"null", b'""'])
        return vals[v]
    d2 = retok(c.doc, f, g)
    q2 = R.ser_query(rename_steps(c.steps, f))
    a = any_mode(r, w, c.q, norm(c.doc), "run")
    b = any_mode(r, w, q2, d2, "run with other names")
    w.same(b, [retok(x, f, g) for x in a], "other names and primitives", query=c.q, document=c.doc, other_query=q2, other=d2)
    return a, c


def m_wrap(r, w):
    c = one_doc(r, without=("big",))
    if not c:
        return None
    a = any_mode(r, w, c.q, c.doc, "run")
    rest = c.q[1:]
    names = words(c)
    x = r.randrange(4)
    other = r.choice([b"1", b'"}"', b'{"%s":[1,{"%s":2}]}' % (b"a", b"b"), b"[[1],{}]", b"[" + b"0," * 50 + b"0]"])
    if x == 0:
        q, d = b"$.w_w" + rest, b'{"v_v":' + other + b',"w_w":' + c.doc + b',"u":' + other + b"}"
    elif x == 1:
        n = r.choice([0, 1, 5])
        q, d = b"$[%d]" % n + rest, b"[" + (other + b",") * n + c.doc + b"," + other + b"]"
    elif x == 2:
        q, d = b"$.*" + rest, b'{"w_w":' + c.doc + b"}"
    else:
        q, d = b"$[*]" + rest, b"[ " + c.doc + b"]"
    deep = any(s[0] in ("d", "dw") for s in c.steps)
    if deep and x == 2:
        q = b"$.w_w" + rest
    b = any_mode(r, w, q, d, "run over a wrapped document")
    w.same(b, a, "a wrapped document", query=c.q, document=c.doc, wrapped_query=q, wrapped=d, names=sorted(names))
    return a, c


def m_members(r, w):
    """Members that the query does not mention, put into objects."""
    c = one_doc(r, ok=lambda c: not any(s[0] in ("w", "dw") for s in c.steps), without=("big",))
    if not c or c.doc.strip()[:1] not in b"{[":
        return None
    names = words(c) | {b"zzq"}
    nm = next(x for x in (b"qq", b"qqq7", b"other_q", b"long_" * 40) if x not in names)
    deep = any(s[0] == "d" for s in c.steps) and any(s[0] in "irf" for s in c.steps)
    val = r.choice([b"1", b'"x,}]"', b"[]", b"{}", b"null"] if deep else
                   [b'{"%s":[1,{"%s":{}},"\\""]}' % (nm, nm), b"[[],[{}],-1.5]", b'"' + b"p" * 3000 + b'"', b"[" + b"[" * 40 + b"]" * 41])
    mem = b'"%s":%s' % (nm, val)
    out, t = [], toks(c.doc)
    for k, x in enumerate(t):
        out.append(x)
        if x == b"{" and r.random() < .5:
            out.append(mem + (b"" if t[k + 1] == b"}" else b","))
        elif k + 1 < len(t) and t[k + 1] == b"}" and x != b"{" and r.random() < .4:
            out.append(b"," + mem)
    d2 = b"".join(out)
    a = any_mode(r, w, c.q, norm(c.doc), "run")
    b = any_mode(r, w, c.q, d2, "run over more members")

    def strip(x):
        return x.replace(b"," + mem, b"").replace(mem + b",", b"").replace(mem, b"")
    w.same([strip(x) for x in b], a, "members that the query does not mention", query=c.q, document=c.doc, other=d2)
    return a, c


def m_split(r, w):
    """The elements of an array one by one, in any order."""
    keys = r.sample(GN.KEYS, 4)
    g = GN.G(r, keys, width=4, pprim=.3, ws=r.choice([0, 1]))
    els = [g.value(3) for _ in range(r.randint(1, 7))]
    doc = b"[" + b",".join(els) + b"]"
    rest = work.query(r, keys, maxlen=3) if r.random() < .5 else work.along(r, R.parse(doc), doc)[1:]
    if any(s[0] in ("d", "dw") for s in rest) and any(s[0] in "irf*" for s in rest):
        rest = [s for s in rest if s[0] not in "irf"]
    st = [("*",)] + rest
    q = R.ser_query(st)
    a = any_mode(r, w, q, doc, "run")
    parts = [any_mode(r, w, q, b"[" + e + b"]", "run over one element") for e in els]
    w.same(a, [x for p in parts for x in p], "elements one by one", query=q, document=doc)
    order = list(range(len(els)))
    r.shuffle(order)
    b = any_mode(r, w, q, b"[" + b" ,".join(els[k] for k in order) + b"]", "elements in another order")
    w.same(b, [x for k in order for x in parts[k]], "elements in another order", query=q, document=doc, order=order)
    k = r.randrange(len(els))
    qi = b"$[%d]" % k + q[4:]
    w.same(any_mode(r, w, qi, doc, "one index"), parts[k], "one index", query=qi, document=doc)
    lo = r.randint(0, len(els))
    hi = r.randint(lo, len(els))
    for qs, ps in ((b"$[:%d]" % hi, parts[:hi]), (b"$[%d:]" % lo, parts[lo:]), (b"$[%d:%d]" % (lo, hi), parts[lo:hi])):
        w.same(any_mode(r, w, qs + q[4:], doc, "a slice"), [x for p in ps for x in p], "a slice", query=qs + q[4:], document=doc)
    return a, q


def m_filter(r, w):
    keys = r.sample(GN.KEYS, 5)
    g = GN.G(r, keys, width=4, pprim=.6)
    els = [g.obj(2) if r.random() < .85 else g.value(1) for _ in range(r.randint(1, 12))]
    doc = b"[" + b",".join(els) + b"]"
    e1, e2 = GN.gen_expr(r, keys, 2), GN.gen_expr(r, keys, 2)
    rest = r.choice([[], [], [("c", keys[0])], [("c", keys[1]), ("*",)], [("w",)]])

    def run(e):
        q = R.ser_query([("f", e)] + rest)
        return any_mode(r, w, q, doc, "filter"), q
    neg = ("not", e1)
    a, q = run(e1)
    b, _ = run(neg)
    every, _ = run(("||", e1, neg))
    w.same(sorted(a + b), sorted(every), "a filter and its negation", query=q, document=doc)
    none, _ = run(("&&", e1, neg))
    w.same(none, [], "a filter and its negation at once", query=q, document=doc)
    if not rest:
        w.same(every, [x for x in els if x[:1] == b"{"], "a filter that every object passes", query=q, document=doc)
    for x, y in ((("not", ("not", e1)), e1), (("&&", e1, e2), ("&&", e2, e1)), (("||", e1, e2), ("||", e2, e1)),
                 (("not", ("&&", e1, e2)), ("||", neg, ("not", e2))), (("not", ("||", e1, e2)), ("&&", neg, ("not", e2))), (("&&", e1, e1), e1)):
        p, q1 = run(x)
        s, q2 = run(y)
        w.same(p, s, "logically equal filters", query=q1, other_query=q2, document=doc)
    one = [z for z in els if z[:1] == b"{"]
    if not rest and one:
        z = r.choice(one)
        q1 = R.ser_query([("f", e1)])
        w.need((z in a) == bool(any_mode(r, w, q1, b"[" + z + b"]", "one object")), "an object alone is decided differently", query=q1, document=doc, object=z)
    return a or b, q


def m_count(r, w):
    """$..name reports as many values as there are members of that name; $..* as many as there are elements and members."""
    c = work.draw(r, without=("big",))
    names = {}
    for a, b in zip(toks(c.doc), toks(c.doc)[1:]):
        if b == b":":
            names[a[1:-1]] = names.get(a[1:-1], 0) + 1
    ok = [k for k in names if re.fullmatch(rb"[A-Za-z_][A-Za-z_0-9]*", k)] or [b"nowhere"]
    k = r.choice(ok + [b"nowhere"])
    q = b"$.." + k
    got = any_mode(r, w, q, c.doc, "run")
    w.need(len(got) == names.get(k, 0), "%s reports %d values, the text has %d members of that name" % (q.decode(), len(got), names.get(k, 0)), document=c.doc)
    # a name below a name is one of the values of the name
    k2 = r.choice(ok)
    q2 = b"$.." + k + b".." + k2
    got2 = any_mode(r, w, q2, c.doc, "run")
    inner = sum(1 for x in got for a, b in zip(toks(x), toks(x)[1:]) if b == b":" and a == b'"' + k2 + b'"')
    if k != k2 or True:
        w.need(len(got2) <= inner, "%s reports more than is inside of %s" % (q2.decode(), q.decode()), document=c.doc)
        nested = any(a == b'"' + k + b'"' and b == b":" for x in got for a, b in zip(toks(x), toks(x)[1:]))
        if not nested:
            w.need(len(got2) == inner, "%s reports %d values, inside of %s there are %d" % (q2.decode(), len(got2), q.decode(), inner), document=c.doc)
    return got, q


KINDS = [m_layout, m_layout, m_rename, m_rename, m_wrap, m_members, m_split, m_filter, m_count]


def case(w, r, i):
    f = KINDS[i % len(KINDS)]
    x = f(r, w)
    if x is None:
        return
    w.count("relations: " + f.__name__[2:])
    if x[0]:
        q = x[1].q if isinstance(x[1], work.Case) else x[1]
        w.nontrivial(f.__name__, q, i)
        w.sample("%s: %s, %d results" % (f.__name__[2:], q.decode("latin1"), len(x[0])))
