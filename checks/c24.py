import grow
ID = "C24"
RULE = ("Texts of N and of 8N equal units (elements, members, documents, nesting, one long string, number or run of blanks; the units and the query "
        "are random) with a counting allocator.  What an incremental run holds between chunks, and the peak of a run over small loads, may grow with the results only, "
        "not with the text that has gone by; the peak of any run is at most proportional to the text.  Non-trivial: the larger text has more than 100 kB or 1000 chunks.")
BUILDS = [("plain", "")]
COUNT = {"quick": 2500, "thorough": 40000}
ASSUMES = ["no value that matches is open all the time (its text has to be kept)", "memory of training is proportional to the training data",
           "at most 160 bytes and three times its text per result"]


def measure(w, s, mode, n, opt=""):
    res = w.ok(w.run("plain", "scale" + opt, s.q, mode, s.a, s.u, n, s.z), "%s over %d units" % (mode, n))
    g = {t: [int(x) for x in res.outs(t)] for t in "HMcB"}
    return g["M"][0], g["H"], g["c"][0], g["B"][0]


def case(w, r, i):
    x = i % 3
    if x == 0:
        # chunk by chunk
        s = grow.draw(r, ["elements", "elements", "members", "documents"])
        mode = "i"
        if r.random() < .25 and s.u.strip()[:1] != b"":
            mode = "j%d" % r.choice([1, 2, 3])
            # parallel chunks begin with a string
            s.a, s.u, s.z = {"elements": (b"[", b'"s",' + s.u, b'"end"]'), "members": (s.a, s.u, s.z), "documents": (s.a, s.u, s.z)}[s.kind]
        n = r.choice([200, 500]) if mode == "i" else 60
        m1, h1, c1, b1 = measure(w, s, mode, n)
        m2, h2, c2, b2 = measure(w, s, mode, 8 * n)
        w.need(len(h2) == 2 and c2 >= c1, "no measurement", shape=s.key)
        more = h2[1] - h1[1]
        w.need(more <= 160 * (c2 - c1) + 3 * (b2 - b1) + 4096, "%d more chunks without an open match: %d bytes more are held, for %d more results of %d bytes" % (
            7 * n, more, c2 - c1, b2 - b1), query=s.q, shape=s.key, mode=mode)
        more = h2[1] - h2[0]
        w.need(more <= 160 * c2 + 3 * b2 + 4096, "what is held grows during a run: %d bytes, for at most %d results" % (more, c2), query=s.q, shape=s.key, mode=mode)
        w.count("incremental runs")
        w.count("chunks", 9 * n)
        if 8 * n > 1000:
            w.nontrivial(s.key, mode)
    elif x == 1:
        # small loads
        s = grow.draw(r, ["elements", "elements", "members", "documents"])
        mode = r.choice(["s", "s", "p1", "p2", "p4"])
        fp = r.choice([600, 1500, 4000])
        if b'"' not in s.u:
            s.u = s.u[:0] + b'["s"],' + s.u if s.kind == "elements" else s.u if s.kind == "members" else b'["s"]\n' + s.u
        n = max(2, 40000 // len(s.u))
        opt = "@fp=%d" % fp
        m1, _, c1, b1 = measure(w, s, mode, n, opt)
        m2, _, c2, b2 = measure(w, s, mode, 8 * n, opt)
        more = m2 - m1
        slack = 4096 + (60000 if mode != "s" else 0)
        w.need(more <= 160 * (c2 - c1) + 3 * (b2 - b1) + slack, "%d times the number of loads: the peak is %d bytes higher, for %d more results of %d bytes" % (
            8, more, c2 - c1, b2 - b1), query=s.q, shape=s.key, mode=mode, load=fp)
        w.count("runs over many loads")
        w.count("loads", 9 * n * len(s.u) // fp)
        w.nontrivial(s.key, mode, fp)
    else:
        s = grow.draw(r, ["elements", "members", "documents", "deep", "string", "blanks", "number"])
        mode = r.choice(["s", "p1", "p4", "p16", "o1", "o4", "f4", "f30"])
        n = max(2, 40000 // len(s.u))
        if s.kind == "deep" and b"..*" in s.q:
            s.q = b"$..a"                   # the results contain one another
        m1, _, c1, b1 = measure(w, s, mode, n)
        m2, _, c2, b2 = measure(w, s, mode, 8 * n)
        w.need(m2 <= 9 * m1 + 65536 + 3 * max(0, b2 - 8 * b1), "eight times the text needs %.1f times the memory (%d, %d bytes)" % (m2 / m1, m1, m2), query=s.q, shape=s.key, mode=mode)
        w.need(m1 <= 400 * (n * len(s.u) + 40 * n) + 400000 + 20 * b1, "a text of %d bytes needs %d bytes" % (n * len(s.u), m1), query=s.q, shape=s.key, mode=mode)
        w.count("whole runs")
        w.nontrivial(s.key, mode)
    w.sample("%s, mode %s: %s of %s, %s units" % (s.q.decode(), mode, s.kind, s.u[:60].decode("latin1"), n))
