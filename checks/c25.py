import time

import grow
import fw
ID = "C25"
RULE = ("Texts of N and of 8N equal units (elements, members, documents, nesting, one long string, number or run of blanks; the units and the query "
        "are random), whole, in sixteen loads, or chunk by chunk, serial, parallel and with constraints, and divided only: the processor time may not grow much faster "
        "than the text.  A measurement that looks too slow is repeated, and the best of all counts.  Non-trivial: the larger run takes more than a millisecond.")
BUILDS = [("fast", "")]
COUNT = {"quick": 3000, "thorough": 40000}
ASSUMES = ["results do not contain one another", "a value that matches is not open over many chunks", "up to 16 times the time for 8 times the text counts as linear (28 times for parallel runs chunk by chunk)",
           "compiling a query and learning many different names are not included"]
FACTOR, FLOOR = 16, 500


def once(w, s, mode, n, opt):
    res = w.ok(w.run("fast", "scale" + opt, s.q, mode, s.a, s.u, n, s.z, limit=60000), "%s over %d units" % (mode, n))
    return int(res.outs("T")[0]), int(res.outs("c")[0])


def case(w, r, i):
    x = i % 4
    opt = lambda n: ""
    if x == 0:
        s = grow.draw(r, ["elements", "elements", "members", "documents"])
        mode = "i"
        if r.random() < .2:
            mode = "j%d" % r.choice([1, 2, 3])
            s.a, s.u, s.z = {"elements": (b"[", b'"s",' + s.u, b'"end"]'), "members": (s.a, s.u, s.z), "documents": (s.a, s.u, s.z)}[s.kind]
        n = 2500 if mode == "i" else 60
        if r.random() < .3:
            k = r.choice([4, 10])
            n, s.u = n // k, s.u * k
    else:
        s = grow.draw(r, ["elements", "elements", "members", "documents", "deep", "string", "blanks", "number"])
        if (s.kind == "deep" and (b".." in s.q or b"*" in s.q)):
            s.q = r.choice([b"$.nowhere", b"$[0]", b"$..nowhere", b"$.a.b"])
        mode = r.choice(["s", "s", "p1", "p4", "p16", "o3", "f4", "f30"])
        n = max(2, 150000 // len(s.u))
        if x == 3 and mode[0] in "sp" and s.kind != "deep":
            opt = lambda n: "@fp=%d" % (n * len(s.u) // 16 + 1)
    factor = FACTOR if mode[0] != "j" else 28       # most of the time goes into starting threads
    t1 = t2 = 10 ** 9
    for k in range(10):
        if k > 3:
            time.sleep(.4)      # something else may be keeping the machine busy
        a, c = once(w, s, mode, n, opt(n))
        t1 = min(t1, a)
        b, c2 = once(w, s, mode, 8 * n, opt(8 * n))
        t2 = min(t2, b)
        if t2 <= factor * max(t1, FLOOR):
            break
        w.count("measurements repeated")
    w.count("mode " + mode[0])
    w.count("units", 9 * n)
    w.need(t2 <= factor * max(t1, FLOOR), "eight times the text needs %.1f times the time (%d us, %d us)" % (t2 / t1, t1, t2),
           query=s.q, shape=s.key, mode=mode, units=n, options=opt(n))
    w.seen("ratios", round(t2 / max(t1, 1)))
    if t2 > 1000:
        w.nontrivial(s.key, mode, n)
    w.sample("%s, mode %s: %s of %s, %d and %d units: %d us, %d us" % (s.q.decode(), mode, s.kind, s.u[:60].decode("latin1"), n, 8 * n, t1, t2))
