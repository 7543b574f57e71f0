import gen as GN
import refmodel as R
import c09
import work
ID = "C16"
RULE = ("A constraint table is learnt from a document; for every name in it and for arrays, the positions of the query it lists are compared "
        "with those that a walk over the parsed document finds with the query's automaton; names that do not occur must be unknown.  The "
        "table is then used for parallel runs over the same and over other documents, results compared with the serial run.  "
        "Non-trivial: some name is listed with a position other than the dead one.")
BUILDS = [("plain", "internal"), ("asan", "internal")]
COUNT = {"quick": 5000, "thorough": 80000}
ASSUMES = ["well-formed training documents", "what stands in an element that an index leaves out is listed with the dead position as well"]
ARR = b"\x02"


def contexts(node, path, out):
    if node.kind == "o":
        for k, v in zip(node.keys, node.kids):
            out.setdefault(k, set()).add(path)
            contexts(v, path + (k,), out)
    elif node.kind == "a":
        out.setdefault(ARR, set()).add(path)
        for v in node.kids:
            contexts(v, path + (ARR,), out)


def positions(node, state, index, tab, names, out):
    """with the automaton's own table and ranges"""
    a, l, u, e, x = tab[state]
    on = (l == 0 and u == 0) or l <= index < u
    ks = [ARR] * len(node.kids) if node.kind == "a" else node.keys if node.kind == "o" else []
    if node.kind == "a":
        out.setdefault(ARR, set()).update({state} if on else {state, 0})
    for k, (key, kid) in enumerate(zip(ks, node.kids or ())):
        if node.kind == "o":
            out.setdefault(key, set()).update({state} if on else {state, 0})
        lab = c09.ARR if node.kind == "a" else names.get(key, c09.OTHER)
        positions(kid, e[lab] if on else 0, k if node.kind == "a" else 0, tab, names, out)


def many_names(r):
    """more names and more positions than any initial table holds"""
    n = r.choice([20, 300, 1200, 2500])
    st = [("d", b"k%d" % r.randint(0, 5))] if r.random() < .5 else [("c", b"k%d" % k) for k in range(r.choice([3, 20, 40]))]
    doc = b"{}"
    for s in reversed(st):
        doc = b'{"%s":%s,"z":%s}' % (s[1], doc, b'{"z":1}')
    doc = b'[' + doc + b",{" + b",".join(b'"n%d":%s' % (k, r.choice([b"1", b"[]", b'{"z":[1]}'])) for k in range(n)) + b"}]"
    if st[0][0] == "c":
        st = [("*",)] + st
    return work.Case(st, R.ser_query(st, False), [doc], doc, "many names")


def case(w, r, i):
    c = many_names(r) if i % 60 == 0 else work.draw(r, without=("big",))
    kind = "asan" if i % 5 == 0 else "plain"
    out = {}
    for d in c.docs:
        contexts(R.parse(d), (), out)
    if all(k == ARR or k and b"\x1f" not in k and ARR not in k for k in out):
        names = list(out)
        if len(names) > 3000:
            names = r.sample(names, 3000)
        unknown = [x for x in (b"no such name", b"a", b"nam", b"{", b"[", b"b") if x not in out]
        res = w.ok(w.run(kind, "train", c.q, c.doc, *(names + unknown), variant="internal"), "learning")
        sets = [set(map(int, x.split())) for x in res.outs("S")]
        ns = [int(x) for x in res.outs("n")]
        if any(s[0] in "ir" for s in c.steps):
            known, tab, _ = c09.read(w.ok(w.run("plain", "dfa", c.q, variant="internal"), "compiling"))
            exps = {}
            for d in c.docs:
                positions(R.parse(d), 1, 0, tab, {n: k for k, n in enumerate(known) if n}, exps)
            w.count("tables of queries with index ranges")
        else:
            paths = sorted(set().union(*[out[k] for k in names]))
            pos = {}
            for at in range(0, len(paths), 4000):
                part = paths[at:at + 4000]
                res = w.ok(w.run("plain", "walk", c.q, *[b"\x1f".join(p) for p in part], variant="internal"), "walking")
                pos.update(zip(part, map(int, res.outs("s"))))
            exps = {k: {pos[p] for p in out[k]} for k in names}
        for k, s, n in zip(names, sets, ns):
            exp = exps[k]
            w.need(s == exp, "positions learnt for %s: %r, expected %r" % ("arrays" if k == ARR else "the name %r" % k, sorted(s), sorted(exp)),
                   query=c.q, document=c.doc)
            w.need(n == len(exp), "a position is listed twice: %d, %d different" % (n, len(exp)), query=c.q, document=c.doc)
            w.count("names and arrays compared")
            w.count("positions compared", len(exp))
            if exp - {0}:
                w.nontrivial(c.key(), k)
        for k, n in zip(unknown, ns[len(names):]):
            w.need(n <= 0 and (n == -1 or ARR not in out), "positions for %r, which does not occur: %d" % (k, n), query=c.q, document=c.doc)
            w.count("unknown names")
    # the table in use
    docs = [c.doc] + ([GN.G(r, r.sample(GN.KEYS, 4), width=4, pprim=.3).doc(r.randint(2, 5))] if r.random() < .4 else [])
    fs, exp = [], []
    for d in docs:
        ser = w.ok(w.run("plain", "serial", c.q, d, variant="internal"), "serial run").outs()
        for nc in r.sample(work.CORES, 2):
            fs += [nc, d]
            exp.append(ser)
    if c.exact:
        w.same(exp[0], c.texts, "serial run", query=c.q, document=c.doc)
    tr = c.doc if r.random() < .6 else work.train_doc(r, c)
    res = w.ok(w.run(kind, "constraints", c.q, tr, *fs, variant="internal"), "runs with the table")
    got = []
    for t, v in res.recs:
        if t == "P":
            got.append([])
        elif t == "o":
            got[-1].append(v)
    w.need(len(got) == len(exp), "runs are missing")
    for k, (g, e) in enumerate(zip(got, exp)):
        w.same(g, e, "parallel run with constraints", query=c.q, document=fs[2 * k + 1], training=tr, cores=fs[2 * k])
    w.count("runs with a table", len(exp))
    w.sample("%s on %s" % (c.q.decode(), c.doc[:150].decode("latin1")))
