import work
ID = "C19"
RULE = ("One dimension of the input at a time (depth, length of names, strings, numbers and blanks, elements, members, results, length of a result, steps, "
        "names and conditions of a query, candidates and nesting of filters, compared strings, documents, chunks, cores, names learnt) is taken through "
        "sizes around every power of two and ten; the expected results are known by construction.  Serial, parallel, constrained and "
        "incremental runs must all report them.  Non-trivial: the size is at least 100.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 2500, "thorough": 30000}
ASSUMES = ["the memory of the machine is enough", "files of less than 2 GiB"]


def sizes(r, top):
    base = [2 ** k for k in range(3, 24)] + [10 ** k for k in range(1, 8)] + [500, 5000, 50000, 250, 2000, 256 * 3]
    base = sorted(b for b in base if b <= top)
    n = r.choice(base[-4:] if r.random() < .25 else base)
    return max(1, n + r.choice([-2, -1, 0, 0, 1, 2, 3]))


def name(r, n):
    return bytes(r.choice(b"abcdefgh_XY") for _ in range(n))


def d_depth(r, w):
    n = sizes(r, 70000 if w.tier == "quick" else 1000000)
    leaf = r.choice([b"1", b'"x"', b"{}", b"[]", b"null"])
    x = r.random()
    if x < .3:
        return n, b"$..z", b'{"a":' * n + b'{"z":' + leaf + b"}" + b"}" * n, [leaf]
    if x < .6:
        return n, b"$..z", b"[" * n + b'{"z":' + leaf + b"}" + b"]" * n, [leaf]
    if x < .8:
        return n, b"$.z", b'{"y":' + b"[" * n + b"1" + b"]" * n + b',"z":' + leaf + b"}", [leaf]
    m = b'[{"a":'
    return n, b"$..z", m * n + b'{"z":' + leaf + b"}" + b"}]" * n, [leaf]


def d_path(r, w):
    n = sizes(r, 2500)
    x = r.random()
    if x < .4:
        return n, b"$" + b".a" * n, b'{"b":0,"a":' * n + b"7" + b"}" * n, [b"7"]
    if x < .7:
        return n, b"$" + b"[*]" * n, b"[" * n + b"7" + b"]" * n, [b"7"]
    if x < .85:
        return n, b"$" + b"[1]" * n, b"[0," * n + b"7" + b"]" * n, [b"7"]
    n = min(n, 1100)
    return n, b"$" + b"".join(b".n%d" % k for k in range(n)), b"".join(b'{"n%d":' % k for k in range(n)) + b"7" + b"}" * n, [b"7"]


def d_name(r, w):
    n = sizes(r, 70000)
    k = name(r, n)
    n2 = min(n, 60000)
    k2 = k[:n2]
    if r.random() < .5:
        return n, b"$.z", b'{"' + k + b'":{"z":0},"z":1}', [b"1"]
    near = [k2[:-1] + b"Z", k2 + b"Z"] + ([k2[:-1]] if n2 > 1 else [])
    doc = b"{" + b"".join(b'"' + x + b'":[0],' for x in near) + b'"' + k2 + b'":[5]}'
    return n2, r.choice([b"$.", b"$.."]) + k2, doc, [b"[5]"]


def d_text(r, w):
    n = sizes(r, 300000 if w.tier == "quick" else 5000000)
    v = r.choice([b'"' + b"x" * n + b'"', b"7" * n, b'"' + b'\\"' * n + b'"', b'"' + b"\\\\" * n + b'"', b'"' + b"\\\\" * (n // 2) + b'\\" , \\"b' + b"\\\\" * (n - n // 2) + b'\\""', b"-0." + b"3" * n, b'"' + b"{[,:]}" * n + b'"', b'"' + b"\xc3\xa9" * n + b'"'])
    return n, r.choice([b"$.a", b"$..a", b"$.*"]), r.choice([b'{"a":%s}', b'{"a": %s }', b'{"a"\n:\t%s\n}']).replace(b"%s", v), [v]


def d_result(r, w):
    n = sizes(r, 100000)
    v = b"[" + b",".join([r.choice([b"1", b'"b"', b'{"c":[]}', b"[[]]"])] * n) + b"]"
    return n, b"$[1].a", b'[0,{"b":0,"a":' + v + b"},2]", [v]


def d_blank(r, w):
    n = sizes(r, 300000)
    s = b"".join(r.choice([b" ", b"\n", b"\t", b"\r\n"]) for _ in range(min(n, 50))) * (n // 50 + 1)
    parts = [b"{", b'"b"', b":", b"[", b"1", b",", b"2", b"]", b",", b'"a"', b":", b"{", b'"c"', b":", b"3", b"}", b"}"]
    k = r.randrange(len(parts))
    parts[k] += s
    return n, b"$.a.c", b"".join(parts), [b"3"]


def d_elements(r, w):
    n = sizes(r, 70000 if w.tier == "quick" else 500000)
    e = r.choice([b"%d", b'{"a":%d}', b'[%d]', b'"s%d"'])
    doc = b"[" + b",".join(e % k for k in range(n)) + b"]"
    x = r.random()
    if x < .4:
        k = r.choice([0, n - 1, n // 2, r.randrange(n)])
        return n, b"$[%d]" % k, doc, [e % k]
    if x < .6:
        return n, b"$[*]", doc, [e % k for k in range(n)]
    a = r.randrange(n)
    return n, b"$[%d:%d]" % (a, a + r.choice([1, 5, 2000, n])), doc, None


def d_slice(r, w):
    n = sizes(r, 140000 if w.tier == "quick" else 300000)
    doc = b"[" + b",".join(b"%d" % k for k in range(n)) + b"]"
    a, z = r.choice([(0, n), (n - 1, n + 5), (n // 2, n // 2 + 1000), (n, n + 1), (0, 2147483647), (n - 1, 2147483647), (0, 2 ** 31), (n // 3, 2 ** 32 + 1), (0, 99999999999), (2 ** 32, 2 ** 33), (2 ** 31 - 1, 2 ** 40)])
    q = b"$[%d:%d]" % (a, z)
    if r.random() < .5:
        q = b"$[%d:]" % a
        z = n
    return n, q, doc, [b"%d" % k for k in range(a, min(z, n))]


def d_members(r, w):
    n = sizes(r, 50000 if w.tier == "quick" else 300000)
    doc = b"{" + b",".join(b'"k%d":%d' % (k, k) for k in range(n)) + b"}"
    k = r.choice([0, n - 1, r.randrange(n)])
    if r.random() < .5:
        return n, b"$.k%d" % k, doc, [b"%d" % k]
    return n, b"$.*", doc, [b"%d" % k for k in range(n)]


def d_names(r, w):
    """a condition over many names"""
    n = sizes(r, 520 if w.tier == "quick" else 1100)
    if r.random() < .5:       # ... next to a wildcard, which must take all of them
        q = r.choice([b"$.*", b"$[*]"]) + b"[?(" + b"||".join(b"@.c%d" % k for k in range(n)) + b")]." + r.choice([b"*", b"v"])
        ks = r.sample(range(n), min(n, 40)) + [0, n - 1, min(n - 1, 251), min(n - 1, 252), min(n - 1, 253), min(n - 1, 509)]
        body = b",".join(b'{"c%d":%d%s}' % (k, k + 1, b',"v":"%d"' % k if q[-1:] == b"v" else b"") for k in ks)
        return n, q, (b'{"x":[%s]}' if q[:3] == b"$.*" else b"[[%s]]") % body, [b'"%d"' % k if q[-1:] == b"v" else b"%d" % (k + 1) for k in ks]
    q = b"$[?(" + b"&&".join(b"@.c%d" % k for k in range(n)) + b")]"
    full = b"{" + b",".join(b'"c%d":1' % k for k in r.sample(range(n), n)) + b"}"
    miss = r.randrange(n)
    part = b"{" + b",".join(b'"c%d":1' % k for k in range(n) if k != miss) + b"}"
    return n, q, b"[" + b",".join([part, full, b"{}", part, full]) + b"]", [full, full]


def d_candidates(r, w):
    """what a filter must hold back"""
    n = sizes(r, 70000)
    x = r.random()
    if x < .45:         # ... below another one, which decides after some of them
        if r.random() < .5:
            n = r.choice([1, 1, 1, 2]) * r.choice([32768, 35000, 40000])
        step = r.choice([1, 1, 2, 3, n])
        items = b",".join(b'{"k":%d,"v":%d}' % (k % step == 0, k) if k % 2 else b'{"v":%d,"k":%d}' % (k, k % step == 0) for k in range(n))
        ok = r.choice([0, 1, 2])
        doc = b"[" + b",".join((b'{"ok":%(ok)d,"x":%(x)s}' if r.random() < .3 else b'{"x":%(x)s,"ok":%(ok)d}')
                               % {b"x": b"[" + items + b"]" if v == 0 else b'[{"k":1,"v":-%d}]' % v, b"ok": ok in (v, 2)} for v in range(2)) + b"]"
        exp = [b"%d" % k for k in range(0, n, step)] if ok in (0, 2) else []
        return n, b"$[?(@.ok==1)].x[?(@.k==1)].v", doc, exp + ([b"-1"] if ok in (1, 2) else [])
    body = b",".join(b'{"b":%d}' % k for k in range(n))
    if x < .65:
        return n, b"$[?(@.ok)].a[*].b", b'[{"a":[' + body + b'],"ok":1},{"a":[' + body + b"]}]", [b"%d" % k for k in range(n)]
    if x < .8:
        return n, b"$[?(@.b==%d)].b" % (n - 1), b"[" + body + b"]", [b"%d" % (n - 1)]
    return n, b"$[?(@.b>=0)].b", b"[" + body + b"]", [b"%d" % k for k in range(n)]


def d_compare(r, w):
    """strings that differ at their end only"""
    n = sizes(r, 60000)
    x = name(r, n)
    other = r.choice([x + b"Z", x + b"a", x[:-1] + b"Z", x[:-1] + b"a" if x[-1:] != b"a" else x + b"Y", x + b"\xc3\xa9"])
    op, f = r.choice([("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), (">", lambda a, b: a > b),
                      ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)])
    recs = [(x, x), (x, other), (other, x), (other, other)]
    r.shuffle(recs)
    if r.random() < .5:
        q, exp = b"$[?(@.a" + op.encode() + b"@.b)].v", [f(a, b) for a, b in recs]
    else:
        q, exp = b"$[?(@.a" + op.encode() + b'"' + x + b'")].v', [f(a, x) for a, b in recs]
    doc = b"[" + b",".join(b'{"a":"%s","b":"%s","v":%d}' % (a, b, k) for k, (a, b) in enumerate(recs)) + b"]"
    return n, q, doc, [b"%d" % k for k, e in enumerate(exp) if e]


def d_filters(r, w):
    """filters below filters"""
    n = sizes(r, 60)
    q = b"$" + b"[?(@.k)].a" * n
    bad = r.choice([None, 0, n - 1, r.randrange(n)])
    doc = b"7"
    for k in reversed(range(n)):
        doc = b'[{"k":%s,"a":' % (b"1" if k != bad else b"0") + doc + b"}]"
        if k == bad:
            doc = doc.replace(b'[{"k":0,', b"[{", 1)
    return n, q, doc, [b"7"] if bad is None else []


def d_docs(r, w):
    n = sizes(r, 20000)
    return n, b"$.a", r.choice([b"\n", b"", b" "]).join(b'{"b":[],"a":%d}' % k for k in range(n)), [b"%d" % k for k in range(n)]


DIMS = [d_depth, d_path, d_name, d_text, d_result, d_blank, d_elements, d_slice, d_members, d_names, d_candidates, d_filters, d_docs, d_compare]


def sized(w, r, i):
    f = DIMS[i % len(DIMS)]
    n, q, doc, exp = f(r, w)
    if exp is None:
        a, z = [int(x) for x in q[2:-1].split(b":")]
        exp = [e for k, e in enumerate(doc[1:-1].split(b",")) if a <= k < z]
    return f, n, q, doc, exp


def shared(w, r, i, op):
    """A share of the other checks: one size, one way of running."""
    f, n, q, doc, exp = sized(w, r, i)
    what = "%s, %s of %d" % (op, f.__name__[2:], n)
    nc = r.choice(work.CORES)
    parts = []
    if op == "serial":
        job = (op, q, doc)
    elif op == "par":
        job = (op, q, doc, nc)
    elif op == "paropt":
        job = (op, q, doc, nc, doc if r.random() < .6 else b'{"a":[1]}')
    else:
        gaps = work.serial_gaps(doc) if len(doc) < 60000 else work.string_gaps(doc)
        parts = work.split(doc, work.pick(r, gaps, r.choice([1, 2, 5, 40]))) if len(doc) < 600000 else [doc]
        job = (op, q, min(nc, 16)) + ((doc[:2000],) if op == "pparts_opt" else ()) + tuple(parts)
    res = w.ok(w.run("plain", *job), what)
    w.same(res.outs(), exp, what, query=q, document=doc, cores=nc)
    w.count("large cases")
    w.count("results compared", len(exp))
    if exp:
        w.nontrivial(what, nc, len(parts))


def case(w, r, i):
    f, n, q, doc, exp = sized(w, r, i)
    kind = "asan" if i % 9 == 0 and len(doc) < 200000 and len(q) < 1500 else "plain"
    w.same(w.ok(w.run(kind, "serial", q, doc), "serial run, %s %d" % (f.__name__[2:], n)).outs(), exp, "serial run, %s %d" % (f.__name__[2:], n), query=q, document=doc)
    nc = r.choice([2, 3, 4, 8, 16, 63, 64, 65, 100, 128, 129, 200])
    x = r.random()
    sg = None
    if x < .4:
        job = ("par", q, doc, nc)
    elif x < .7:
        job = ("paropt", q, doc, nc, doc if r.random() < .7 else b'{"a":1}')
    else:
        op = r.choice(["sparts", "pparts"])
        if len(doc) > 400000:
            op, parts = "sparts", [doc]
        else:
            sg = work.serial_gaps(doc) if len(doc) < 30000 else work.string_gaps(doc)
            parts = work.split(doc, work.pick(r, sg, r.choice([1, 3, 20, 300])))
        nc = min(nc, 16)
        job = (op, q, nc) + tuple(parts)
        w.count("chunks", len(parts))
    res = w.ok(w.run(kind, *job), "%s, %s %d, %d cores" % (job[0], f.__name__[2:], n, nc))
    w.same(res.outs(), exp, "%s, %s %d, %d cores" % (job[0], f.__name__[2:], n, nc), query=q, document=doc)
    w.count("results compared", len(exp))
    w.seen("sizes of " + f.__name__[2:], n)
    if n >= 100:
        w.nontrivial(f.__name__, n, job[0], nc, len(doc))
    w.sample("%s of %d: %s on %d bytes" % (f.__name__[2:], n, q[:60].decode(), len(doc)))
