import gen as GN
import work
ID = "C17"
RULE = ("Several documents follow one another in one stream, with any separator or none, among them empty ones and bare primitives.  Serial, "
        "parallel, constrained, incremental and piecewise-loaded runs over the stream must report exactly what the documents report one by "
        "one, in order, under any order of the documents.  Non-trivial: at least two documents report results.")
BUILDS = [("plain", ""), ("asan", ""), ("sched", "")]
COUNT = {"quick": 3500, "thorough": 60000}
ASSUMES = ["well-formed JSON documents"]


def stream(r):
    x = r.random()
    if x < .5:
        c = work.draw(r, ["small", "near", "dups", "empty", "layout"])
        keys = [s[1] for s in c.steps if s[0] in "cd"] + r.sample(GN.KEYS, 3)
    else:
        c = work.draw(r, ["records"])
        keys = r.sample(GN.KEYS, 3) + [s[1] for s in c.steps if s[0] in "cd"]
    keys = list(dict.fromkeys(keys))
    docs = [c.docs[0].strip()]
    for _ in range(r.choice([1, 2, 4, 9, 40])):
        y = r.random()
        if y < .35:
            docs.append(c.docs[0].strip())
        elif y < .5:
            docs.append(r.choice([b"{}", b"[]", b"[[]]", b'{"a":{}}', b"[1]", b'{"a":1}', b'[{"a":[1,2,3]}]']))
        else:
            docs.append(GN.G(r, keys, width=3, pprim=.4, ws=r.choice([0, 1])).doc(r.randint(1, 4)).strip())
    r.shuffle(docs)
    return c, docs


def case(w, r, i):
    c, docs = stream(r)
    kind = "asan" if i % 6 == 0 else "sched" if i % 6 == 1 else "plain"
    one = {}
    for d in docs:
        if d not in one:
            one[d] = w.ok(w.run("plain", "serial", c.q, d), "serial run of one document").outs()
            cd = work.Case(c.steps, c.q, [d], d, "one")
            if cd.exact:
                w.same(one[d], cd.texts, "one document", query=c.q, document=d)
    seps = r.choice([[b"\n"], [b""], [b" "], [b"\r\n"], work.SEPS, [b"\n\n \t"], [b"\n" * 50], work.SEPS])
    b = docs[0]
    for d in docs[1:]:
        b += r.choice(seps) + d
    b += r.choice([b"", b"\n"])
    exp = [t for d in docs for t in one[d]]
    nc = r.choice(work.CORES)
    info = dict(query=c.q, document=b, cores=nc)
    fp = max(1, r.choice([len(docs[0]), len(b) // 2, len(b) // 5, 60]), len(b) // 100)
    seed = "seed=%d" % r.randint(1, 10 ** 9)
    at = ("@" + seed) if kind == "sched" else ""
    tr = r.choice([b, docs[0], docs[-1]])
    w.same(w.ok(w.run(kind, "serial", c.q, b), "serial run").outs(), exp, "serial run over %d documents" % len(docs), **info)
    jobs = [("par" + at, c.q, b, nc), ("paropt" + at, c.q, b, nc, tr), ("serial@fp=%d" % fp, c.q, b), ("par@fp=%d" % fp, c.q, b, nc),
            ("paropt@fp=%d" % fp, c.q, b, nc, tr)]
    # one document per chunk, or anywhere
    ends, p = [], 0
    for d in docs[:-1]:
        p = b.index(d, p) + len(d)
        ends.append(p)
    parts = work.split(b, ends if r.random() < .5 else work.pick(r, ends, 3))
    jobs += [("sparts", c.q, nc) + tuple(parts), ("pparts" + at, c.q, nc) + tuple(parts), ("pparts_opt" + at, c.q, nc, tr) + tuple(parts)]
    for j in r.sample(jobs, 3):
        res = w.ok(w.run(kind, *j), j[0])
        w.same(res.outs(), exp, "%s over %d documents" % (j[0], len(docs)), training=tr, **info)
        w.count("runs over %s documents" % ("2 to 5" if len(docs) < 6 else "more"))
        w.count("results compared", len(exp))
    if sum(1 for d in docs if one[d]) > 1:
        w.nontrivial(c.q, b, nc)
    w.sample("%s on %s" % (c.q.decode(), b[:150].decode("latin1")))
