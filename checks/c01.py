import c19
import work
ID = "C01"
RULE = ("A random document (12 shapes, from nested toy documents to deep, wide, long-string and many-document ones) and a random or "
        "path-following query, run with the serial automaton and compared with a tree-walking reference model written from the "
        "documented operators.  Non-trivial: the model expects at least one result.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 30000, "thorough": 400000}
ASSUMES = ["well-formed JSON documents", "queries inside the documented operators"]


def case(w, r, i):
    if i % 40 == 7:
        return c19.shared(w, r, r.randrange(99), "serial")
    c = work.draw(r)
    if not c.exact:
        w.count("cases a known finding covers")
        return
    res = w.ok(w.run("asan" if i % 6 == 0 else "plain", "serial", c.q, c.doc), "serial run")
    w.same(res.outs(), c.texts, "serial run", query=c.q, document=c.doc)
    w.count("results compared", len(c.texts))
    w.seen("shapes of query", [s[0] for s in c.steps])
    if c.texts:
        w.nontrivial(c.key())
        w.count("cases of shape " + c.profile)
        w.sample("%s on %s -> %d results" % (c.q.decode(), c.doc[:150].decode("latin1"), len(c.texts)))
