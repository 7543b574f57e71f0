ID = "C10"
RULE = ("Transition tables of automata (dense, sparse, near copies of earlier rows, rows of one value, up to 60 states and 300 inputs), "
        "stored row by row in the compressed and in the plain table; afterwards every transition, the number of states and the reported "
        "rules are read back and must be what was stored.  Non-trivial: more than one state and an input that is not the default.")
BUILDS = [("plain", "lib"), ("asan", "lib")]
COUNT = {"quick": 12000, "thorough": 150000}
ASSUMES = ["rows are stored in the order of the states, as the mixer stores them"]


def table(r):
    S = r.choice([1, 2, 3, 5, 8, 13, 30, 60])
    I = r.choice([2, 3, 4, 8, 11, 12, 13, 20, 40, 120, 300])
    rows = []
    style = r.random()
    for s in range(S):
        x = r.random()
        if rows and x < (.6 if style < .5 else .2):
            row = list(r.choice(rows))             # a near copy: rows may be stored as differences
            for _ in range(r.choice([0, 1, 2, 5, 8, 9, 10, 11, 12, 30])):
                row[r.randrange(I - 1)] = r.randint(0, S)
        elif x < .7:
            row = [r.choice([0, 0, 0, r.randint(0, S)])] * (I - 1)
            for _ in range(r.choice([0, 1, 3, 9, 10, 11, 20])):
                row[r.randrange(I - 1)] = r.randint(0, S)
        else:
            row = [r.randint(0, S) for _ in range(I - 1)]
        rows.append(row)
    return S, I, rows


def case(w, r, i):
    S, I, rows = table(r)
    res = w.ok(w.run("asan" if i % 6 == 0 else "plain", "table", I, b" ".join(b"%d" % s for s in range(1, S + 1)),
                     *[" ".join(map(str, row)) for row in rows], variant="lib"), "storing a table")
    n = [int(x) for x in res.outs("n")]
    seen = max([S] + [x for row in rows for x in row]) + 2
    w.need(n[0] >= S + 1 and n[0] <= seen and n[1] == I, "%d states and %d inputs, stored %d and %d" % (n[0], n[1], S, I))
    for kind, st, name in (("a", "s", "compressed"), ("b", "t", "plain")):
        got = [[int(x) for x in v.split()] for v in res.outs(kind)]
        stop = [int(x) for x in res.outs(st)]
        for s in range(1, S + 1):
            if got[s] != rows[s - 1]:
                c = [k for k in range(I - 1) if got[s][k] != rows[s - 1][k]][0]
                w.fail("%s table: state %d, input %d leads to %d, stored %d" % (name, s, c + 1, got[s][c], rows[s - 1][c]), rows=rows[:12], inputs=I)
            w.need(stop[s] == (s * 7 if s % 3 == 0 else 0), "%s table: rule %d of state %d" % (name, stop[s], s))
        w.need(not any(got[0]) or kind == "b", "the dead state leads somewhere", rows=rows[:12])
        w.count("transitions read back", S * (I - 1))
    if S > 1 and any(len(set(row)) > 1 for row in rows):
        w.nontrivial(I, rows)
    if i < 2:
        w.sample("%d states, %d inputs: %r" % (S, I, rows))
