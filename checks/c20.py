import gen as GN
import refmodel as R
import work
ID = "C20"
RULE = ("Documents that end early, at any byte (a transfer that broke off).  Every run must end properly and report exactly the matches that "
        "were complete at that point, in order, as if more could follow: serial, parallel, constrained, piecewise loaded and incremental runs "
        "alike.  Non-trivial: the document is cut in the middle and something was complete.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 4000, "thorough": 70000}
ASSUMES = ["the text up to the end is the beginning of well-formed JSON", "results of filters: those whose outermost filtered object was complete"]


def case(w, r, i):
    c = work.draw(r, without=("big",))
    kind = "asan" if i % 3 == 0 else "plain"
    filt = any(s[0] == "f" for s in c.steps)
    sp = work.spans(c) if c.exact and not filt else None
    n = len(c.doc)
    cuts = set(r.randint(1, n) for _ in range(3))
    at = [k + 1 for k, ch in enumerate(c.doc) if ch in b'"\\:{}[],']
    cuts |= set(r.sample(at, min(3, len(at))))
    names = [k + 1 for k, ch in enumerate(c.doc) if ch == 34 and c.doc[k + 1:].lstrip(b" \t\r\n")[:1] == b":"]
    if names and i % 3 == 1: cuts = set(r.sample(names, min(3, len(names))))     # a name without its value
    whole = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    for cut in r.sample(sorted(cuts), min(len(cuts), 3)):
        b = c.doc[:cut]
        ser = w.ok(w.run(kind, "serial", c.q, b), "serial run of a document that ends early").outs()
        info = dict(query=c.q, document=b)
        if sp is not None:
            exp = [c.doc[s:e] for s, e in sp if e <= cut]
            # a number or a word that ends the text is taken as it is
            part = [c.doc[s:cut] for s, e in sp if s < cut < e and c.doc[s:s + 1] not in (b"{", b"[", b'"')]
            w.same(ser, exp + part, "serial run of the first %d of %d bytes" % (cut, n), **info)
            w.count("ends whose results are known")
        elif len(c.docs) == 1:
            w.need(ser == whole[:len(ser)] or any(s[0] in ("d", "dw") for s in c.steps) or cut < n and c.doc[cut - 1:cut] not in b'}]"',
                   "a result that the whole document does not have", got=ser[:5], whole=whole[:5], **info)
        nc = r.choice(work.CORES)
        jobs = [("par", c.q, b, nc), ("paropt", c.q, b, nc, r.choice([b, c.doc, work.train_doc(r, c)]))]
        sg = [g for g in work.serial_gaps(c.doc) if g < cut]
        parts = work.split(b, work.pick(r, sg, r.choice([1, 3])))
        jobs += [("sparts", c.q, 1) + tuple(parts), ("pparts", c.q, nc) + tuple(parts)]
        if cut > 30:
            jobs += [("serial@fp=%d" % max(5, cut // r.choice([2, 5, 30])), c.q, b), ("par@fp=%d" % max(5, cut // r.choice([2, 5, 30])), c.q, b, nc)]
        for j in r.sample(jobs, 2):
            res = w.ok(w.run(kind, *j), j[0])
            w.same(res.outs(), ser, "%s of a document that ends early" % j[0], cores=nc, **info)
            w.count("runs of " + j[0].split("@")[0])
        if cut < n and ser:
            w.nontrivial(c.key(), cut)
    w.sample("%s on the first bytes of %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
