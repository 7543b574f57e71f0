import gen as GN
import work
ID = "C05"
RULE = ("A file is loaded piece by piece with a load size of 1 byte to more than the file (through the hook).  The pieces, one after "
        "another, must be the file; the position must advance and end at the end of the file; each piece but the first begins with a "
        "string outside of strings; and no piece exceeds the load size by more than the way to the next string.  Whole runs "
        "(serial, parallel, with constraints) over many small loads must equal the run in one load, and their peak memory must not grow with "
        "the number of loads.  Non-trivial: more than one piece.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 5000, "thorough": 60000}
ASSUMES = ["well-formed JSON", "files of less than 2 GiB"]


def pieces(w, b, fp, kind):
    res = w.ok(w.run(kind, "bounded@fp=%d" % fp, b), "loading in pieces of %d" % fp)
    ks, ps = res.outs("k"), [int(x) for x in res.outs("p")]
    w.need(b"".join(ks) == b, "the pieces are not the file (load size %d)" % fp, file=b, pieces=ks)
    w.need(all(ks), "an empty piece", file=b, pieces=ks)
    pos = 0
    gaps = set(work.string_gaps(b))
    far, last = 0, 0
    for g in sorted(gaps) + [len(b)]:
        far, last = max(far, g - last), g
    for k, p in zip(ks, ps):
        pos += len(k)
        w.need(p == pos, "position %d after %d bytes" % (p, pos), file=b)
        w.need(pos == len(b) or pos in gaps, "a piece ends at %d, inside of something" % pos, file=b)
        w.need(len(k) <= fp + far + 1, "a piece of %d bytes, load size %d, strings at most %d apart" % (len(k), fp, far), file=b)
    w.count("pieces checked", len(ks))
    return ks


def fixed(w):
    def growth(mode):
        # the memory of a run must not depend on how many loads the file takes
        def f():
            one = b'{"id":%d,"name":"some text","tags":["a","b",{"c":[1,2,3]}]}'
            peaks = []
            for n in (300, 3000):
                doc = b"[" + b",".join(one % i for i in range(n)) + b"]"
                for q in (b"$[0].name", b"$[*].tags[2].c[7]"):
                    r = w.ok(w.run("plain", "peak@fp=4000", q, doc, mode), "run")
                    peaks.append((int(r.outs("M")[0]), n, q))
                w.need(len(doc) > 4 * 4000, "too small")
            small = max(p for p, n, _ in peaks if n == 300)
            big = max(p for p, n, _ in peaks if n == 3000)
            w.need(big < 1.5 * small + 20000, "peak memory %d for %d records and %d for 300 (load size 4000)" % (big, 3000, small), mode=mode)
            w.count("memory peaks compared", len(peaks))
            w.nontrivial("peak", mode)
        return f
    return [("memory of a serial run", growth("s")), ("memory of a parallel run", growth("p4"))]


def case(w, r, i):
    kind = "asan" if i % 5 == 0 else "plain"
    if i % 4 == 0:
        import c04
        b = c04.special(r)
        if not b.strip():
            b = b"[1]"
        if r.random() < .3:         # more blanks or digits than any fixed extension
            b = b"[" + b" " * r.choice([1990, 2000, 2001, 4100, 9000]) + b'"a",' + b"7" * r.choice([5, 2500]) + b"," + b + b"]"
        c = None
    else:
        c = work.draw(r)
        b = c.doc
    n = len(b)
    big = n > 20000
    for fp in r.sample([1, 2, 3, 7, 16, 50, 100, 333, 1000, max(1, n // 2), max(1, n - 1), n, n + 1, max(1, n // 3)], 3):
        if fp < n // 300:
            fp = n // 300 + fp
        ks = pieces(w, b, fp, kind)
        if len(ks) > 1:
            w.nontrivial(b, fp)
        if c is None:
            continue
        ref = w.ok(w.run("plain", "serial", c.q, b), "serial run").outs()
        if c.exact:
            w.same(ref, c.texts, "serial run", query=c.q, document=b)
        nc = r.choice([1, 2, 3, 4, 8])
        for op, args in (("serial", ()), ("par", (nc,)), ("paropt", (nc, work.train_doc(r, c)))):
            if big and op != "serial" and len(ks) > 60:
                continue
            res = w.ok(w.run(kind, "%s@fp=%d" % (op, fp), c.q, b, *args), "%s run in loads of %d" % (op, fp))
            w.same(res.outs(), ref, "%s run in loads of %d" % (op, fp), query=c.q, document=b, cores=nc, training=(args + (b"",))[-1])
            w.count("runs over several loads" if len(ks) > 1 else "runs in one load")
    # the whole file in one go
    res = w.ok(w.run(kind, "load", b), "load")
    w.need(res.outs("k") == [b], "the loaded text is not the file", file=b)
    w.sample("%d bytes: %s" % (n, b[:120].decode("latin1")))
