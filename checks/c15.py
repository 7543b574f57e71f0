import work
ID = "C15"
RULE = ("Cycles of work (compile, run serial, parallel, with constraints, incremental to the end or abandoned, learn, partition, load; "
        "release everything; the documented components, also one automaton that runs and learns several times) with an instrumented allocator that counts the live blocks.  After the first cycle the count must not change "
        "any more; nothing is released twice (the allocator and AddressSanitizer see that).  Non-trivial: the cycles report results.")
BUILDS = [("plain", ""), ("asan", ""), ("plain", "internal")]
COUNT = {"quick": 12000, "thorough": 150000}
ASSUMES = ["the caller releases what the documentation says it owns", "memory that is held once for the whole process is not counted"]


def case(w, r, i):
    c = work.draw(r)
    tr = work.train_doc(r, c)
    ms = r.choice(["s", "p", "o", "i", "j", "h", "c", "f", "l", "spo", "ij", "sijpo", "hs", "Ks", "Kp", "Ko", "Ki", "Kj", "Kh", "Kspoijhc"])
    sgaps = work.serial_gaps(c.doc)
    parts = work.split(c.doc, work.pick(r, sgaps, r.choice([1, 2, 5, 9])))
    opt = []
    if r.random() < .35:
        opt.append("fp=%d" % max(r.choice([1, 5, 20, 100, 500]), len(c.doc) // 40))
    if r.random() < .2:
        opt.append("fail=%x" % r.getrandbits(20))
    at = "@" + ",".join(opt) if opt else ""
    n = 5 if len(c.doc) < 20000 else 3
    if i % 6 == 5 and c.doc and tr:
        ms = "components"
        res = w.ok(w.run("plain", "pipecycles" + at, c.q, c.doc, r.choice(work.CORES), tr, n, variant="internal"), "cycles of the components")
    else:
        res = w.ok(w.run("plain", "cycles" + at, c.q, c.doc, tr, n, ms, *parts), "cycles of %r" % ms)
    live = [int(x) for x in res.outs("L")]
    w.need(len(live) == n, "cycles are missing")
    d = {y - x for x, y in zip(live[1:], live[2:])}
    w.need(d <= {0}, "live blocks after each cycle of %r: %r" % (ms, live), query=c.q, document=c.doc, training=tr, parts=parts, settings=at)
    w.count("cycles", n)
    w.count("cycles of " + ms, n)
    k = int(res.outs("c")[0])
    w.count("results", k)
    if k:
        w.nontrivial(c.key(), ms, at, len(parts))
    w.sample("%s: %s" % (ms, c.q.decode()))
