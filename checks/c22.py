import work
ID = "C22"
RULE = ("Paths at which there is no file (or a directory, or a pipe), files that are empty or blank, training data of that kind, empty pieces and chunks, and queries that match nothing, each in every mode, "
        "mixed into sequences with ordinary documents run before and after with the same compiled query.  Each such input must be reported as "
        "what it is (no data, or no results), never end the process, and leave the ordinary results untouched.  "
        "Non-trivial: an ordinary document with results in the same sequence.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 10000, "thorough": 120000}
ASSUMES = ["well-formed JSON documents"]
BLANK = [b"", b" ", b"\n", b"\t \r\n", b" " * 500, b"\n" * 3]


def groups(res):
    got = []
    for t, v in res.recs:
        if t == "P":
            got.append([])
        elif t == "o" and got:
            got[-1].append(v)
    return got


def nothing(w, res, what, **info):
    w.ok(res, what, none=True)
    w.need(not res.outs(), "%s: reports results" % what, got=res.outs(), **info)
    ts = [t for t, _ in res.recs if t in "Nc"]
    w.need(all(t == "N" or v == b"0" for t, v in res.recs if t in "Nc") and ts, "%s: no answer" % what, **info)


def case(w, r, i):
    kind = "asan" if i % 5 == 0 else "plain"
    c = work.draw(r, without=("big", "wide"))
    nc = r.choice(work.CORES[:14])
    ser = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(ser, c.texts, "serial run", query=c.q, document=c.doc)
    e = r.choice(BLANK)
    x = i % 5
    w.count("scenario %d" % x)
    if x == 0:
        # no such file, then a document, with constraints learnt from nothing
        path = [] if r.random() < .7 else [r.choice(["/", "/usr", "/proc", "/proc/self", "/dev/shm", "", "/dev/null/x", "/usr/", "/no\nsuch", "x" * 290, "fifo", "fifo"])]
        w.count("paths of directories, pipes and the like", len(path))
        res = w.ok(w.run(kind, "missing", c.q, c.doc, *path), "a file that does not exist", none=True)
        ns = res.outs("n")
        w.need(len(ns) == 4 and all(v == b"1" for v in ns), "a file that does not exist: loading and dividing it must give nothing, position unmoved", got=ns)
        w.need(len(res.outs("N")) == 4, "a run over a file that does not exist must give no output", records=res.recs[:40])
        for k, g in zip(("constraints learnt from no file", "no constraints", "serial"), groups(res)):
            w.same(g, ser, "a document after a file that does not exist (%s)" % k, query=c.q, document=c.doc)
        w.need(len(groups(res)) == 3, "a document after a file that does not exist: runs are missing")
    elif x == 1:
        # nothing in the file, in every mode, and data without any match
        for op in (("serial", c.q, e), ("par", c.q, e, nc), ("paropt", c.q, e, nc, r.choice([e, c.doc]))):
            nothing(w, w.run(kind, op[0] + r.choice(["", "@fp=1", "@fp=3", "@fp=100"]), *op[1:]), "%s of a blank file" % op[0], query=c.q, document=e)
        none = r.choice([b"{}", b"[]", b"[[]]", b'{"zzz":{}}', b"1", b'"a"', b"null", b"[ ]", b"{ }"])
        if c.steps and c.steps[0][0] in "cd" and c.steps[0][1] != b"zzz":
            for op in (("serial", c.q, none), ("par", c.q, none, nc), ("paropt", c.q, none, nc, r.choice([e, c.doc]))):
                nothing(w, w.run(kind, op[0], *op[1:]), "%s without a match" % op[0], query=c.q, document=none)
    elif x == 2:
        # learnt from nothing
        res = w.ok(w.run(kind, "paropt", c.q, c.doc, nc, e), "constraints from a blank file", none=True)
        w.same(res.outs(), ser, "constraints from a blank file", query=c.q, document=c.doc, training=e)
        res = w.ok(w.run(kind, "constraints", c.q, e, nc, c.doc, nc, e, 2, c.doc), "constraints from a blank file, several runs", none=True)
        g = groups(res)
        w.need(len(g) == 3, "constraints from a blank file: runs are missing", got=len(g))
        w.same(g[0], ser, "first run with constraints from a blank file", query=c.q, document=c.doc)
        w.same(g[1], [], "blank file with constraints from a blank file", query=c.q)
        w.same(g[2], ser, "third run with constraints from a blank file", query=c.q, document=c.doc)
    elif x == 3:
        # blank and ordinary files in turn with one compiled query
        fs, exp = [], []
        for _ in range(r.randint(3, 7)):
            m = r.choice(["s", "p%d" % nc, "o%d" % nc])
            if r.random() < .5:
                fs += [m, r.choice(BLANK)]
                exp.append([])
            else:
                fs += [m, c.doc]
                exp.append(ser)
        res = w.ok(w.run(kind, "reuse", c.q, *fs), "blank and ordinary files in turn", none=True)
        g = groups(res)
        w.need(len(g) == len(exp), "blank and ordinary files in turn: %d of %d runs answered" % (len(g), len(exp)))
        for k, (a, b) in enumerate(zip(g, exp)):
            w.same(a, b, "run %d (%s) of blank and ordinary files in turn" % (k, fs[2 * k]), query=c.q, document=c.doc)
    else:
        # empty and blank pieces between those of a stream
        for op, gaps in ((op, work.serial_gaps(c.doc)) for op in ("sparts", "pparts")):
            parts = []
            for p in work.split(c.doc, work.pick(r, gaps, r.choice([0, 1, 3, 8]))):
                parts += [r.choice(BLANK) for _ in range(r.choice([0, 1, 1, 2]))] + [p]
            parts += [r.choice(BLANK) for _ in range(r.choice([0, 1, 2]))]
            if all(not p.strip() for p in parts):
                continue
            res = w.ok(w.run(kind, op, c.q, nc, *parts), "%s with blank pieces" % op, none=True)
            whole = w.ok(w.run("plain", "serial", c.q, b"".join(parts)), "serial run").outs()     # the blanks are part of the text
            w.need(len(whole) == len(ser), "blanks between tokens change the number of results", query=c.q, document=b"".join(parts))
            w.same(res.outs("o"), whole, "%s with blank pieces" % op, query=c.q, parts=parts)
            nothing(w, w.run(kind, op, c.q, nc, *[r.choice(BLANK) for _ in range(r.randint(1, 4))]), "%s of nothing but blanks" % op, query=c.q)
        for op, want in (("partition", 1), ("partfile", 0)):
            res = w.ok(w.run(kind, op, e, nc), "%s of a blank text" % op, none=True)
            w.need(b"".join(res.outs("k")) == e, "%s of a blank text changes it" % op, got=res.outs("k"), text=e)
        res = w.ok(w.run(kind, "bounded@fp=%d" % r.choice([1, 2, 50]), e), "piecewise loading of a blank file", none=True)
        w.need(b"".join(res.outs("k")) == e, "piecewise loading of a blank file changes it", got=res.outs("k"), text=e)
    if ser:
        w.nontrivial(x, c.key(), nc, e)
    w.sample("scenario %d, %s on %s" % (x, c.q.decode(), c.doc[:150].decode("latin1")))
