import gen as GN
import work
ID = "C18"
RULE = ("One compiled query is used many times: serial, parallel and with constraints in any order over different documents, several "
        "incremental streams advanced in turn, streams abandoned in the middle, and several concurrent users; each use must report what a "
        "fresh compilation reports for it.  Queries compiled, run and released one after another or next to one another, in any order, must not disturb each other.  "
        "Non-trivial: at least two uses report results.")
BUILDS = [("plain", ""), ("asan", ""), ("tsan", "")]
COUNT = {"quick": 9000, "thorough": 80000}
ASSUMES = ["well-formed JSON documents"]


def split_P(res):
    got = []
    for t, v in res.recs:
        if t == "P":
            got.append([])
        elif t == "o":
            got[-1].append(v)
    return got


def docs_for(r, c, n):
    keys = list(dict.fromkeys([s[1] for s in c.steps if s[0] in "cd"] + r.sample(GN.KEYS, 3)))
    out = [c.doc]
    for _ in range(n):
        x = r.random()
        if x < .15:
            out.append(r.choice([b"{}", b"[]", b'{"a":1}', b"[1]", b'""']))
        elif x < .3:
            # a document that ends in the middle: nothing of it may be left behind
            g = work.token_gaps(c.doc)
            out.append(c.doc[:r.choice(g)] if g else c.doc)
        else:
            out.append(GN.G(r, keys, width=4, pprim=.35).doc(r.randint(1, 5)))
    return out


def turns(w, r, kind):
    """queries that are compiled, run and released one after another in one process"""
    keys = r.sample(GN.KEYS, 4)
    docs, qs = [], []
    for _ in range(r.randint(1, 3)):
        rows = []
        for n in range(r.randint(1, 8)):
            ms = [b'"%s":%s' % (k, r.choice([b"1", b"2", b"0", b"10", b'"v"', b'""', b"true", b"null", b'{"%s":1}' % r.choice(keys)])) for k in keys if r.random() < .75]
            r.shuffle(ms)
            rows.append(b"{" + b",".join(ms) + b"}")
        docs.append(r.choice([b"[%s]", b'{"%s":[%%s]}' % keys[0]]) % b",".join(rows))
    for _ in range(r.randint(2, 6)):
        steps = [("f", GN.gen_expr(r, keys, r.choice([1, 2, 2, 3])))] + [("c", r.choice(keys))] * (r.random() < .7)
        if r.random() < .3:
            steps = [("c", keys[0])] + steps
        if r.random() < .3:
            steps = work.query(r, keys)
        qs.append(work.R.ser_query(steps, False))
    exp = {(q, d): w.ok(w.run("plain", "serial", q, d), "serial run").outs() for q in qs for d in docs}
    fs, want = [], []
    for _ in range(r.choice([4, 12, 30])):
        q, d = r.choice(qs), r.choice(docs)
        m = r.choice(["s", "s", "s", "p%d" % r.choice([1, 2, 3, 8]), "o%d" % r.choice([1, 2, 3, 8])])
        fs += [q, m, d, r.choice([0, 0, 0, 1, 2, 7])]
        want.append(exp[q, d])
    got = split_P(w.ok(w.run(kind, "turns", *fs), "queries one after another"))
    w.need(len(got) == len(want), "runs are missing")
    for k, (g, e) in enumerate(zip(got, want)):
        w.same(g, e, "query %d of those compiled and released one after another (%s)" % (k, fs[4 * k + 1]), query=fs[4 * k], document=fs[4 * k + 2], before=fs[:4 * k])
    w.count("queries compiled, run and released one after another", len(want))
    if sum(1 for e in want if e) > 1:
        w.nontrivial(tuple(fs))


def case(w, r, i):
    kind = "asan" if i % 5 == 0 else "plain"
    x = i % 4
    if x == 3:
        return turns(w, r, kind)
    c = work.draw(r, without=("big", "wide"))
    if x == 0:
        docs = docs_for(r, c, r.randint(1, 3))
        exp = [w.ok(w.run("plain", "serial", c.q, d), "serial run").outs() for d in docs]
        fs, want = [], []
        for _ in range(r.choice([3, 8, 20])):
            k = r.randrange(len(docs))
            fs += [r.choice(["s", "s", "p%d" % r.choice(work.CORES[:12]), "o%d" % r.choice(work.CORES[:12])]), docs[k]]
            want.append(exp[k])
        at = "@fp=%d" % max(20, max(map(len, docs)) // 30) if r.random() < .2 else ""
        res = w.ok(w.run(kind, "reuse" + at, c.q, *fs), "one compiled query, %d uses" % len(want))
        got = split_P(res)
        w.need(len(got) == len(want), "uses are missing")
        for k, (g, e) in enumerate(zip(got, want)):
            w.same(g, e, "use %d of a compiled query (%s)" % (k, fs[2 * k]), query=c.q, document=fs[2 * k + 1], before=fs[:2 * k])
        w.count("uses of a compiled query", len(want))
        if sum(1 for e in want if e) > 1:
            w.nontrivial(c.q, tuple(fs))
    elif x == 1:
        ns = r.randint(2, 5)
        fs, want, left = [], [], []
        for k in range(ns):
            ck = c if k == 0 or r.random() < .3 else work.draw(r, without=("big", "wide", "deep"))
            par = r.random() < .5
            gaps = work.serial_gaps(ck.doc)
            parts = work.split(ck.doc, work.pick(r, gaps, r.choice([1, 2, 5])))
            fs += [ck.q, "p%d" % r.choice([2, 3, 5]) if par else "s", len(parts)] + parts
            left += [k] * len(parts)
            want.append(w.ok(w.run("plain", "serial", ck.q, ck.doc), "serial run").outs())
        r.shuffle(left)
        res = w.ok(w.run(kind, "inter", bytes(97 + k for k in left), *fs), "%d streams in turn" % ns)
        got = split_P(res)
        for k, (g, e) in enumerate(zip(got, want)):
            w.same(g, e, "stream %d of %d that are advanced in turn" % (k, ns), fields=fs, order=left)
        w.need(len(got) == ns, "streams are missing")
        w.count("streams advanced in turn", ns)
        if sum(1 for e in want if e) > 1:
            w.nontrivial(tuple(fs), tuple(left))
    else:
        if i % 40 == 2:
            kind = "tsan"
        qs = [c.q] + [work.R.ser_query(work.query(r, GN.KEYS[:6]), False) for _ in range(r.randint(0, 3))]
        exp = [w.ok(w.run("plain", "serial", q, c.doc), "serial run").outs() for q in qs]
        n, nc, rounds, shared = r.randint(2, 8), r.choice([0, 0, 0, 2, 4, -3]), r.randint(1, 3), r.random() < .6
        if kind == "tsan":
            n, rounds = min(n, 4), 1
        res = w.ok(w.run(kind, "concurrent", c.doc, n, rounds, nc, int(shared), *qs), "%d concurrent users" % n)
        for k, got in enumerate(res.outs("r")):
            want = (b"".join(t + b"\0" for t in exp[k % len(qs)]) + b"\1") * rounds
            w.need(got == want, "concurrent user %d of %d sees other results" % (k, n), query=qs[k % len(qs)], document=c.doc, cores=nc, shared=shared, got=got, expected=want)
        w.count("concurrent users", n)
        if any(exp):
            w.nontrivial(tuple(qs), c.doc, n, nc, shared, rounds)
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
