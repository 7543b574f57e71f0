import c19
import work
ID = "C02"
RULE = ("The shared workload run by the parallel automata on 1 to 100 cores, with perturbed schedules (yields and sleeps at function "
        "entries of the library) and refused threads, compared with the serial run and the reference model.  Non-trivial: more than "
        "one thread was asked for and the serial run reports a result.")
BUILDS = [("plain", ""), ("sched", ""), ("asan", "")]
COUNT = {"quick": 7000, "thorough": 90000}
ASSUMES = ["well-formed JSON documents", "at least one core"]


def case(w, r, i):
    if i % 40 == 7:
        return c19.shared(w, r, r.randrange(99), "par")
    c = work.draw(r)
    kind = "sched" if i % 3 == 0 else "asan" if i % 8 == 1 else "plain"
    ser = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(ser, c.texts, "serial run", query=c.q, document=c.doc)
    for nc in r.sample(work.CORES, 2):
        opt = []
        if kind == "sched":
            opt.append("seed=%d" % r.randint(1, 10 ** 9))
        if r.random() < .2:
            opt.append("fail=%x" % r.choice([1, 2, 3, (1 << 60) - 1, r.getrandbits(20), r.getrandbits(6)]))
        op = "par" + ("@" + ",".join(opt) if opt else "")
        res = w.ok(w.run(kind, op, c.q, c.doc, nc), "parallel run on %d cores" % nc)
        w.same(res.outs(), ser, "parallel run on %d cores (%s)" % (nc, op), query=c.q, document=c.doc)
        for t in res.outs("I"):
            fp, sw, en, th = t.split()
            w.seen("interleavings", fp)
            w.count("thread switches observed", int(sw))
        for t in res.outs("J"):
            w.count("threads refused", int(t))
        w.count("results compared", len(ser))
        if nc > 1 and ser:
            w.nontrivial(c.key(), nc)
            w.count("runs of shape " + c.profile)
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
