import gen as GN
import refmodel as R

ID = "C09"
RULE = ("A random query is compiled and its automaton read out, transition by transition.  It is explored together with the position "
        "automaton of the steps of the query (product construction, every reachable pair of states, every input: each name of the query, any other "
        "name, array element): a state reports a match exactly when the steps match, is dead exactly when no extension of the path "
        "can match, and carries the index range, the filter and the conditions of the step it stands for.  Looking a name up gives what "
        "the table says.  Non-trivial: more than three pairs of states.")
BUILDS = [("plain", "internal"), ("asan", "internal")]
COUNT = {"quick": 40000, "thorough": 200000}
ASSUMES = ["index ranges and filters only in queries without '..' (their states stand for one step then)"]
OTHER, ARR = 1, 2
LO, HI = -2 ** 31, 2 ** 31 - 1


def read(res):
    recs = res.recs
    i = 0

    def nx(tag):
        nonlocal i
        t, v = recs[i]
        assert t == tag, (t, tag, i)
        i += 1
        return v
    S, I = int(nx("d")), int(nx("d"))
    names = [None, None, None] + [nx("k") for _ in range(3, I)]
    st = []
    for s in range(S):
        a, l, u = int(nx("a")), int(nx("l")), int(nx("u"))
        e = [0] + [int(nx("e")) for _ in range(1, I)]
        x = {ARR: int(nx("A")), OTHER: int(nx("O"))}
        for j in range(3, I):
            x[j] = int(nx("E"))
        st.append((a, l, u, e, x))
    P = int(nx("P"))
    pred = {}
    for _ in range(P):
        q, m = int(nx("q")), int(nx("m"))
        pred[q] = {}
        for _ in range(m):
            g = int(nx("g"))
            pred[q].setdefault(nx("h"), []).append(g)
        # the tree of the condition: a preorder walk
        need = 1
        while need:
            t, v = recs[i]
            i += 1
            need += -1 if t == "n" else 1
    return names, st, pred


def step(steps, p, lab, name, conds):
    """positions after position p on a label"""
    out = set()
    if p[0] in "ms":          # s: inside of what '..' skips
        k = p[1]
        if k < len(steps):
            t = steps[k]
            if t[0] in ("c", "d") and lab > 2 and name == t[1]:
                out.add(("m", k + 1))
            if t[0] == "d":
                out.add(("s", k))
            if t[0] in ("w", "dw"):
                out.add(("m", k + 1))
            if t[0] == "dw":
                out.add(("s", k))
            if t[0] in "*irf" and lab == ARR:
                out.add(("m", k + 1))
        if p[0] == "m" and k and steps[k - 1][0] == "f":
            for c in conds[k - 1]:
                if lab > 2 and name == c[0]:
                    out.add(("c", k - 1, c, 1))
    else:
        _, f, c, n = p
        if n < len(c) and lab > 2 and name == c[n]:
            out.add(("c", f, c, n + 1))
    return out


def steps_of(r):
    x = r.random()
    if r.random() < .002:             # more names than a byte can number
        many = [b"K%d" % i for i in range(r.choice([200, 251, 252, 253, 254, 260, 300, 510]))]
        e = ("var", [many[0]])
        for k in many[1:]:
            e = ("||", e, ("var", [k]))
        pre = r.choice([[("w",)], [("*",)], [("c", many[3])], [("w",), ("*",)]])
        return pre + [("f", e)] + r.choice([[], [("w",)], [("c", many[-1])], [("w",), ("c", b"zz")]])
    keys = r.sample(GN.KEYS + [b"K%d" % i for i in range(40)], r.choice([2, 3, 6, 20]))
    if r.random() < .08:
        keys = GN.family(r, r.choice([2, 3, 5]))
    if x < .45:
        n = r.choice([1, 2, 3, 4, 5, 6])
        ops = r.choice(["cdw*D", "cd", "cd*", "dD", "cw*", "d*", "cdD"])
        st = GN.gen_query(r, keys, ops=ops, maxlen=n, minlen=n)
        if r.random() < .1:
            st = [("c", k) for k in keys] + st[:3]
    elif x < .7:
        n = r.choice([1, 2, 4, 8, 30])
        st = GN.gen_query(r, keys, ops="cw*irir", maxlen=n, minlen=n)
        st = [("i", r.choice(GN.HUGE)) if s[0] == "i" and r.random() < .05 else (s[0], 100000 * r.randint(0, 9) + s[1]) if s[0] == "i" and r.random() < .3 else s for s in st]
    elif x < .78:
        import work
        st = work.tame(GN.gen_query(r, keys, ops=r.choice(["cdf", "cd*fw"]), maxlen=r.choice([2, 3, 4]), minlen=1, maxfilters=1))
    else:
        st = GN.gen_query(r, keys, ops=r.choice(["cf", "c*f", "cwf*ir"]), maxlen=r.choice([2, 3, 6]), minlen=1, maxfilters=3)
    return st


def case(w, r, i):
    st = steps_of(r)
    q = R.ser_query(st, r.random() < .2)
    res = w.ok(w.run("asan" if i % 8 == 0 else "plain", "dfa", q, variant="internal"), "compiling")
    names, tab, pred = read(res)
    desc = any(s[0] in ("d", "dw") for s in st)
    conds = {k: sorted(set(tuple(v) for v in R.expr_vars(s[1]))) for k, s in enumerate(st) if s[0] == "f"}
    used = set(s[1] for s in st if s[0] in "cd") | set(n for c in conds.values() for v in c for n in v)
    w.need(set(names[3:]) == used and len(names) == len(used) + 3, "names of the automaton %r" % names[3:], query=q)
    start = (1, frozenset([("m", 0)]))
    seen, todo = {start}, [start]
    path = {start: ()}
    preds = {}
    while todo:
        node = todo.pop()
        s, ps = node
        a, l, u, e, x = tab[s]
        here = dict(query=q, path=path[node], state=s)
        # what the state stands for
        outs = ("m", len(st)) in ps
        con = set(p for p in ps if p[0] == "c" and p[3] == len(p[2]))
        fil = set(p[1] - 1 for p in ps if p[0] == "m" and p[1] and st[p[1] - 1][0] == "f")
        want = 0
        if outs:
            want = 9 if st[-1][0] == "f" else 7 if con else 3
        elif con:
            want = 4
        elif fil:
            want = 8
        if desc and conds:
            a, want = a & 1, want & 1
        w.need(a == want, "kind of state %d, expected %d (1 output, 2 of any type, 4 condition, 8 filter)" % (a, want), **here)
        if not desc:
            ks = [p[1] for p in ps if p[0] == "m"]
            rng = None
            if len(ks) == 1 and ks[0] and st[ks[0] - 1][0] in "ir":
                t = st[ks[0] - 1]
                rng = (t[1], t[1] + 1) if t[0] == "i" else (LO if t[1] is None else t[1], HI if t[2] is None else t[2])
            if rng is not None:
                rng = (min(rng[0], HI), min(rng[1], HI))      # no array reaches beyond
            if rng is None:
                w.need((l, u) == (0, 0), "a range (%d, %d) without an index" % (l, u), **here)
            elif rng[0] >= rng[1] or rng[1] <= 0:
                w.need((l, u) != (0, 0) and (l >= u or u <= 0), "range (%d, %d) instead of an empty one" % (l, u), **here)
            else:
                w.need(max(l, 0) == max(rng[0], 0) and u == rng[1], "range (%d, %d), expected %r" % (l, u, rng), **here)
            if fil:
                preds[s] = list(fil)[0]
        for lab in range(1, len(names)):
            w.need(x[lab] == e[lab], "looking up input %d gives %d, the table says %d" % (lab, x[lab], e[lab]), **here)
            nx = set()
            for p in ps:
                if lab == ARR and p[0] == "m" and p[1] and st[p[1] - 1][0] == "f" and not any(t[0] in ("d", "dw") for t in st[:p[1]]):
                    continue              # a filtered element is an object
                nx |= step(st, p, lab, names[lab], conds)
            if not nx:
                w.need(e[lab] == 0, "leads to state %d, but nothing can match any more (input %d)" % (e[lab], lab), **here)
                continue
            w.need(e[lab] != 0, "is lost, but a match is possible (input %d)" % lab, **here)
            n2 = (e[lab], frozenset(nx))
            if n2 not in seen:
                seen.add(n2)
                path[n2] = path[node] + (lab,)
                todo.append(n2)
        w.count("transitions checked", len(names) - 1)
    w.count("pairs of states checked", len(seen))
    if not desc:
        w.need(set(preds) <= set(pred), "filter states %r, expected %r" % (sorted(pred), sorted(preds)), query=q)
        for s, k in preds.items():
            for c in conds[k]:
                g = s
                for n in c:
                    g = tab[g][3][names.index(n)]
                w.need(pred[s].get(b".".join(c)) == [g], "condition %r of state %d is %r, expected %d" % (b".".join(c), s, pred[s].get(b".".join(c)), g), query=q)
            w.need(len(pred[s]) == len(conds[k]), "conditions %r" % pred[s], query=q)
            w.count("filters checked")
    if len(seen) > 3:
        w.nontrivial(q)
    w.sample("%s: %d states, %d pairs" % (q.decode(), len(tab), len(seen)))
