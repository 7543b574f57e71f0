import gen as GN
import c19
import work
ID = "C03"
RULE = ("Constraints learnt from the document itself, a part of it, similar or unrelated data, then parallel runs with them on 1 to 100 "
        "cores, also many documents with one table.  Large inputs (see C19) are a part of it.  Results compared with the serial run and the model.  Non-trivial: several cores and "
        "at least one result.")
BUILDS = [("plain", ""), ("sched", ""), ("asan", "")]
COUNT = {"quick": 6000, "thorough": 80000}
ASSUMES = ["well-formed JSON documents", "training data is a (possibly truncated) JSON document"]


def case(w, r, i):
    if i % 40 == 7:
        return c19.shared(w, r, r.randrange(99), "paropt")
    c = work.draw(r)
    kind = "asan" if i % 6 == 1 else "sched" if i % 6 == 2 else "plain"
    ser = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(ser, c.texts, "serial run", query=c.q, document=c.doc)
    if i % 5 == 0:                      # one table, many runs
        train = work.train_doc(r, c)
        docs = [c.doc]
        for _ in range(r.randint(1, 3)):
            docs.append(work.GN.G(r, r.sample(GN.KEYS, 4), width=4, pprim=.3).doc(r.randint(2, 5)))
        exp = [ser] + [w.ok(w.run("plain", "serial", c.q, d), "serial run").outs() for d in docs[1:]]
        order = [r.randrange(len(docs)) for _ in range(4)]
        fs = []
        for k in order:
            fs += [r.choice(work.CORES), docs[k]]
        res = w.ok(w.run(kind, "constraints", c.q, train, *fs), "runs with one table")
        got, cur = [], None
        for t, v in res.recs:
            if t == "P":
                cur = []
                got.append(cur)
            elif t == "o":
                cur.append(v)
        for k, g in zip(order, got):
            w.same(g, exp[k], "parallel run with constraints, one table for several", query=c.q, document=docs[k], training=train)
        w.need(len(got) == len(order), "runs are missing")
        w.count("runs that share a table", len(order))
        w.nontrivial(c.key(), train, tuple(order))
        return
    for nc in r.sample(work.CORES, 2):
        train = work.train_doc(r, c)
        op = "paropt" + ("@seed=%d" % r.randint(1, 10 ** 9) if kind == "sched" else "")
        res = w.ok(w.run(kind, op, c.q, c.doc, nc, train), "parallel run with constraints on %d cores" % nc)
        w.same(res.outs(), ser, "parallel run with constraints on %d cores" % nc, query=c.q, document=c.doc, training=train)
        w.count("results compared", len(ser))
        for t in res.outs("I"):
            w.seen("interleavings", t.split()[0])
        if nc > 1 and ser:
            w.nontrivial(c.key(), nc, train)
            w.count("trained on the document itself" if train == c.doc else "trained on other data")
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
