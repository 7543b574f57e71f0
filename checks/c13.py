import gen as GN
import work
ID = "C13"
RULE = ("Every entry point (serial, parallel, with constraints, incremental, loading and partitioning, compiled-query reuse, query compilation) runs "
        "under AddressSanitizer and UndefinedBehaviourSanitizer, and a part of it under Valgrind memcheck, on documents of every shape, on "
        "documents that end at any byte, with buffers of exactly the needed size, small loads, refused threads and long queries.  Any report or "
        "abnormal end is a violation; so is a result that differs between builds whose fresh memory holds different garbage.  Non-trivial: the run "
        "has more than one chunk, load, thread or document, or a result.")
BUILDS = [("asan", ""), ("vg", ""), ("plain", ""), ("o0", "")]
COUNT = {"quick": 2600, "thorough": 24000}
ASSUMES = ["documents are well-formed JSON or a beginning of it; other malformed documents are outside of the contract"]


def truncated(r, b):
    if r.random() < .5 or len(b) < 2:
        return b[:r.randint(1, len(b))]
    # right after a byte that changes what comes next
    at = [k + 1 for k, c in enumerate(b) if c in b'"\\:{[,']
    return b[:r.choice(at)] if at else b[:1]


def case(w, r, i):
    vg = i % 40 == 7
    kind = "vg" if vg else "asan"
    c = work.draw(r, without=("big", "wide", "deep", "long", "names") if vg else ())
    b = c.doc
    cut = r.random() < .3
    if cut:
        b = truncated(r, b)
    tr = truncated(r, c.doc) if r.random() < .5 else work.train_doc(r, c)
    nc = r.choice(work.CORES[:12] if vg else work.CORES)
    opt = []
    if r.random() < .3:
        opt.append("fp=%d" % max(r.choice([1, 2, 7, 30, 100, 1000]), len(b) // 100))
    if r.random() < .15:
        opt.append("fail=%x" % r.getrandbits(20))
    at = "@" + ",".join(opt) if opt else ""
    ops = [("serial", c.q, b), ("par", c.q, b, nc), ("paropt", c.q, b, nc, tr)]
    gaps = work.serial_gaps(b) if not cut else []
    parts = work.split(b, work.pick(r, gaps, r.choice([1, 2, 6]))) if gaps else [b]
    sg = work.serial_gaps(b) if not cut else []
    pparts = work.split(b, work.pick(r, sg, r.choice([1, 2, 6]))) if sg else [b]
    ops += [("sparts", c.q, nc) + tuple(parts), ("pparts", c.q, nc) + tuple(pparts), ("pparts_opt", c.q, nc, tr) + tuple(pparts)]
    ops += [("partition", b, nc), ("partfile", b, nc), ("load", b)]
    if not cut:
        ops += [("bounded", b)]
    ops += [("reuse", c.q, "s", b, "p%d" % nc, b, "o%d" % nc, b), ("constraints", c.q, tr, nc, b, 2, b)]
    for op in r.sample(ops, 2 if vg else 4):
        name = op[0] + (at if op[0] in ("serial", "par", "paropt", "reuse", "constraints", "bounded") else "")
        res = w.run(kind, name, *op[1:])
        if not res.done:
            w.fail("%s under %s: %s" % (name, kind, res.status()), query=c.q, document=b, stderr=res.err[:2500].decode(errors="replace"), cores=nc)
        w.count("runs of " + op[0])
        w.count("results", len(res.outs()) + len(res.outs("k")))
        if op[0] in ("serial", "par", "paropt", "sparts", "pparts", "reuse", "partition") and i % 3 == 0:
            got = res.recs
            for k in ("plain", "o0"):
                o = w.run(k, name, *op[1:])
                w.need(o.done and [x for x in o.recs if x[0] != "J"] == [x for x in got if x[0] != "J"],
                       "%s: another build gives other results (%s against %s)" % (name, k, kind), query=c.q, document=b, status=o.status())
                w.count("results compared between builds")
        if len(res.recs) > 2:
            w.nontrivial(op, at)
    w.sample("%s on %s" % (c.q.decode(), b[:150].decode("latin1")))


def fixed(w):
    def big_query():
        most = 120 if w.tier == "quick" else 600            # time grows with the third power of the number of names
        for n in (1, 50, 300, 1500):
            for q in (b"$" + b".a" * n, b"$" + b"[*]" * n, b"$" + b".*" * n, b"$[?(" + b"&&".join(b"@.k%d" % k for k in range(min(n, most))) + b")]",
                      b"$." + b"x" * n, b"$" + b"".join(b".k%d" % k for k in range(min(n, most)))):
                w.ok(w.run("asan", "serial", q, b'[{"k0":1,"a":{"a":[1]}}]'), "a query of %d bytes" % len(q))
                w.ok(w.run("asan", "par", q, b'[{"k0":1,"a":{"a":[1]}},{"a":2}]', 3), "a query of %d bytes" % len(q))
        w.nontrivial("long queries")

    def every_end():
        b = b'[{"a":"x\\"y\\\\","b":[1,-2.5e3,{"c":null}]},{"a":{"a":[[],{}]}}, true ]'
        for q in (b"$[*].a", b"$..a", b"$[?(@.a)].b[1:]", b"$..*", b"$[0].b[2]"):
            for n in range(1, len(b) + 1):
                for op in (("serial", q, b[:n]), ("par", q, b[:n], 4), ("paropt", q, b[:n], 3, b[:n])):
                    res = w.run("asan", *op)
                    w.need(res.done, "%s of the first %d bytes: %s" % (op[0], n, res.status()), query=q, document=b[:n], stderr=res.err[:2500].decode(errors="replace"))
        w.nontrivial("every end")
    return [("queries of any length", big_query), ("a document that ends anywhere", every_end)]
