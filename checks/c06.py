import c19
import work
ID = "C06"
RULE = ("A document is given chunk by chunk (cut anywhere between tokens but before a colon, serial and parallel) to the incremental "
        "entry points, each chunk buffer being overwritten and freed afterwards.  The results must be "
        "those of one run over the whole; results that were reported stay as they were; and for a query without filters the results "
        "after each chunk are exactly the matches that are complete by then.  Non-trivial: several chunks and at least one result.")
BUILDS = [("plain", ""), ("asan", ""), ("sched", "")]
COUNT = {"quick": 8000, "thorough": 100000}
ASSUMES = ["well-formed JSON documents, cut between tokens"]


def chunks_of(res):
    out = []
    for t, v in res.recs:
        if t == "P":
            out.append([])
        elif t == "o" and out:
            out[-1].append(v)
    return out


def case(w, r, i):
    if i % 40 == 7:
        return c19.shared(w, r, r.randrange(99), r.choice(["sparts", "pparts", "pparts_opt"]))
    c = work.draw(r)
    kind = "asan" if i % 5 == 0 else "sched" if i % 5 == 1 else "plain"
    ser = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(ser, c.texts, "serial run", query=c.q, document=c.doc)
    nofilter = c.exact and not any(s[0] == "f" for s in c.steps)
    sp = work.spans(c) if nofilter else None
    modes = ["sparts", r.choice(["pparts", "pparts_opt"])]
    for op in modes:
        gaps = work.serial_gaps(c.doc)
        if op == "sparts" and r.random() < .1 and len(gaps) <= 200:
            cuts = gaps                      # one token at a time
        else:
            cuts = work.pick(r, gaps, r.choice([1, 2, 3, 5, 12, 40]))
        parts = work.split(c.doc, cuts)
        nc = r.choice([1, 2, 2, 3, 4, 8])
        args = [work.train_doc(r, c)] if op == "pparts_opt" else []
        name = op + ("@seed=%d" % r.randint(1, 10 ** 9) if kind == "sched" else "")
        if op == "pparts_opt" and r.random() < .4:     # another table, or none, for a later chunk
            name += ("," if "@" in name else "@") + "tab=" + "".join(r.choice("knxp") for _ in range(r.choice([1, 2, 5])))
            w.count("runs whose tables change on the way")
        if op != "sparts" and r.random() < .1:
            name += ("," if "@" in name else "@") + "fail=%x" % r.getrandbits(12)
        res = w.ok(w.run(kind, name, c.q, nc, *args, *parts), "%s on %d cores, %d chunks" % (op, nc, len(parts)))
        info = dict(query=c.q, chunks=parts, cores=nc)
        w.same(res.outs(), ser, "%s: what the chunks report together" % op, **info)
        w.same(res.outs("O"), ser, "%s: the results in the end" % op, **info)
        got = chunks_of(res)
        w.need(len(got) == len(parts), "%d chunks, %d reports" % (len(parts), len(got)), **info)
        if nofilter:
            pos, k = 0, 0
            for p, g in zip(parts, got):
                pos += len(p)
                k += len(g)
                due = sum(1 for s, e in sp if e <= pos)
                w.need(k == due, "%s: %d results when %d matches are complete (after %d bytes)" % (op, k, due, pos), **info)
            w.count("chunks whose results were due", len(parts))
        w.count("chunks", len(parts))
        w.count("results compared", len(ser))
        if len(parts) > 1 and ser:
            w.nontrivial(c.key(), op, tuple(cuts), nc)
            w.count("runs of shape " + c.profile)
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
