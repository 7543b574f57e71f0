import work
ID = "C21"
RULE = ("The documented components are put together by hand (load, compile, streaming automaton with and without learning, dividing from memory "
        "and from the file, parallel automata without constraints, with those of the document and with those of other data, predicate filter, output); every "
        "assembly must report what the one-call serial run and the reference model report.  Non-trivial: several cores and a result.")
BUILDS = [("plain", "internal"), ("asan", "internal"), ("plain", "")]
COUNT = {"quick": 9000, "thorough": 80000}
ASSUMES = ["well-formed JSON documents", "at least one core"]
WHAT = {b"a": "streaming automaton", b"b": "streaming automaton that learns", b"c": "parallel automata on chunks from memory",
        b"d": "parallel automata on chunks of the file", b"e": "parallel automata with the constraints of the document",
        b"f": "parallel automata with the constraints of other data", b"g": "one streaming automaton that runs three times and learns twice",
        b"h": "one set of parallel automata that runs twice, with constraints the second time", b"i": "streaming automaton on bounded loads",
        b"j": "parallel automata on bounded loads", b"k": "streaming automaton of the query's tree"}


def case(w, r, i):
    c = work.draw(r, without=("big",) if i % 20 else ())
    nc = r.choice(work.CORES)
    tr = work.train_doc(r, c)
    kind = "asan" if i % 5 == 0 else "plain"
    one = w.ok(w.run("plain", "serial", c.q, c.doc), "serial run").outs()
    if c.exact:
        w.same(one, c.texts, "serial run", query=c.q, document=c.doc)
    op = "pipe"
    if r.random() < .5:
        op += "@fp=%d" % max(r.choice([1, 3, 20, 100, 1000]), len(c.doc) // 40)
    res = w.ok(w.run(kind, op, c.q, c.doc, nc, tr, variant="internal"), "components of a run")
    got, cur = {}, None
    for t, v in res.recs:
        if t == "P":
            cur = v
            got[cur] = []
        elif cur is not None and t != ".":
            got[cur].append(v)
    w.need(sorted(got) == sorted(WHAT), "an assembly of components gave nothing", got=list(got))
    for k in sorted(got):
        w.count("assemblies")
        w.same(got[k], one * {b"g": 3, b"h": 2}.get(k, 1), WHAT[k], query=c.q, document=c.doc, cores=nc, training=tr)
    if one and nc > 1:
        w.nontrivial(c.key(), nc, tr)
    w.sample("%s, %d cores, on %s" % (c.q.decode(), nc, c.doc[:150].decode("latin1")))
