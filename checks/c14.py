import work
ID = "C14"
RULE = ("Parallel and concurrent runs under ThreadSanitizer and under perturbed schedules (seeded yields and sleeps at the function entries of the "
        "library, delayed thread starts, refused threads).  No report of a race, and under every schedule the results of the serial "
        "run; the interleavings seen are fingerprinted.  Non-trivial: several threads were running and switched.")
BUILDS = [("tsan", ""), ("sched", ""), ("plain", "")]
COUNT = {"quick": 450, "thorough": 8000}
ASSUMES = ["a compiled query is shared only between runs, not modified", "well-formed JSON documents"]


def sched_stats(w, res):
    for t in res.outs("I"):
        fp, sw, en, th = t.split()
        w.seen("interleavings", fp)
        w.count("thread switches", int(sw))
        w.count("points where a thread could yield", int(en))
        w.count("threads", int(th))


def case(w, r, i):
    c = work.draw(r, without=("big",) if i % 10 else ())
    ser = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(ser, c.texts, "serial run", query=c.q, document=c.doc)
    tr = work.train_doc(r, c)
    x = i % 4
    if x in (0, 1):
        # one run, many schedules
        nc = r.choice([2, 3, 4, 5, 8, 8, 16, 32])
        for k in range(3):
            kind = "tsan" if k == 0 else "sched"
            opt = "seed=%d" % r.randint(1, 10 ** 9)
            if r.random() < .15:
                opt += ",fail=%x" % r.getrandbits(16)
            op = ("par@" + opt, c.q, c.doc, nc) if x == 0 else ("paropt@" + opt, c.q, c.doc, nc, tr)
            res = w.ok(w.run(kind, *op), "%s under %s" % (op[0], kind))
            w.same(res.outs(), ser, "%s on %d cores" % (op[0], nc), query=c.q, document=c.doc, training=tr)
            sched_stats(w, res)
            w.nontrivial(c.key(), nc, op[0])
    elif x == 2:
        # many streams in chunks: the state carried between chunks belongs to one stream
        gaps = work.serial_gaps(c.doc)
        parts = work.split(c.doc, work.pick(r, gaps, r.choice([1, 2, 5])))
        nc = r.choice([2, 3, 4, 8])
        for kind in ("tsan", "sched"):
            res = w.ok(w.run(kind, "pparts@seed=%d" % r.randint(1, 10 ** 9), c.q, nc, *parts), "incremental parallel run under " + kind)
            w.same(res.outs(), ser, "incremental parallel run under " + kind, query=c.q, chunks=parts, cores=nc)
            sched_stats(w, res)
            w.nontrivial(c.key(), nc, "pparts")
    else:
        # several users at once, each with its own query, or sharing compiled ones
        shared = r.random() < .5
        qs = [c.q] + [work.R.ser_query(work.query(r, work.GN.KEYS[:6]), False) for _ in range(r.randint(0, 3))]
        exp = [w.ok(w.run("plain", "serial", q, c.doc), "serial run").outs() for q in qs]
        n = r.randint(2, 6)
        nc = r.choice([0, 0, 2, 3, -2, -4])
        rounds = r.randint(1, 2)
        for kind in ("tsan", "sched"):
            res = w.ok(w.run(kind, "concurrent@seed=%d" % r.randint(1, 10 ** 9), c.doc, n, rounds, nc, int(shared), *qs),
                       "%d concurrent users (%s) under %s" % (n, "shared queries" if shared else "own queries", kind))
            for k, got in enumerate(res.outs("r")):
                want = (b"".join(t + b"\0" for t in exp[k % len(qs)]) + b"\1") * rounds
                w.need(got == want, "concurrent user %d of %d sees other results" % (k, n), query=qs[k % len(qs)], document=c.doc, cores=nc, shared=shared, got=got, expected=want)
            sched_stats(w, res)
            w.count("concurrent users", n)
            w.nontrivial(c.key(), n, nc, shared)
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
