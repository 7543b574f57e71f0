import c11 as L

ID = "C27"
RULE = ("Random rules over 256 inputs (characters, texts, sets, presets, named references, options, repetitions, ends at the first chance) go through the pipeline that first groups the inputs "
        "into classes.  The class of each of the 256 inputs is compared with what the leaves of the rules tell apart (same class if and only if no leaf does), and words that have been put into "
        "classes are walked: which rules accept and where the walk dies are compared with a matcher that works on the rules and the inputs themselves.  Sets on their own are read, "
        "copied and compared too.  Non-trivial: some rule accepts the word, or the set has members and is not everything.")
BUILDS = [("plain", "lib"), ("asan", "lib")]
COUNT = {"quick": 8000, "thorough": 60000}
ASSUMES = ["inputs 1 to 255 (0 ends a text); words of at least one input; rules are trees of the documented items"]


def leaves(it):
    if it.kind in "lor":
        for k in it.kids:
            yield from leaves(k)
    else:
        yield it


def side(leaf, c):
    """what a leaf says of an input"""
    if leaf.kind == "c":
        return c if c == leaf.v else 0
    if leaf.kind == "q":
        return c if c in leaf.codes else 0
    return leaf.has(c)


def set_text(r):
    s = "^" if r.random() < .4 else ""
    if not s or r.random() < .9:
        base = r.choice([65, 97, 97, 109, 140, 190, 240])
        s += "".join(L.member(r, base) for _ in range(r.choice([1, 2, 2, 3, 5, 8])))
    return s


def sets(w, r, kind):
    a = set_text(r)
    b = r.choice([set_text(r), a, a[1:] if a[:1] == "^" else "^" + a])
    res = w.ok(w.run(kind, "charset", a.encode("latin1"), b.encode("latin1"), variant="lib"), "reading a set")
    want = []
    for t in (a, b):
        out = t[:1] == "^"
        m = L.members(t[out:])
        want.append("".join("01"[(c in m) != out] for c in range(1, 256)))
    for who, got in zip(("the set", "its copy"), res.outs("m")):
        got = got.decode()
        bad = [c + 1 for c in range(255) if got[c] != want[0][c]]
        w.need(not bad, "%s %r is wrong about %r" % (who, a, bad[:10]))
    q = [int(x) for x in res.outs("q")]
    w.need(q[0] == 1, "%r does not equal its copy" % a)
    w.need(not q[1] or want[0] == want[1], "%r and %r are said to be equal" % (a, b))
    if a == b:
        w.need(q[1] == 1, "%r read twice is not equal" % a)
    w.count("sets read")
    if "1" in want[0] and "0" in want[0]:
        w.nontrivial("set", a, b)


def case(w, r, i):
    kind = "asan" if i % 8 == 0 else "plain"
    for _ in range(4):
        sets(w, r, kind)
    rules = [L.make_rule(r, 256) for _ in range(r.choice([1, 1, 2, 3, 5]))]
    words = []
    for _ in range(20):
        wd = r.choice(rules).word(r, 256)[:9]
        if r.random() < .5:
            for _ in range(r.randint(1, 2)):
                k = r.randrange(len(wd) + 1)
                near = [(wd[k] if k < len(wd) else 90) + r.choice([-1, 1])]
                wd[k:k + r.randint(0, 1)] = [min(255, max(1, r.choice(near + [r.randint(1, 255)])))] * r.randint(0, 1)
        if wd:
            words.append(wd)
    fs = [x.ser().encode("latin1") for x in rules] + [" ".join(map(str, x)) for x in words]
    res = w.ok(w.run(kind, "classes", len(rules), *fs, variant="lib"), "grouping and building an automaton")
    cls = [int(x) for x in res.outs("m")[0].split()]
    n = [int(x) for x in res.outs("n")]
    shown = [x.show() for x in rules]
    w.need(len(cls) == 256, "classes of %d inputs" % len(cls), rules=shown)
    w.need(cls[0] == 0, "the class of input 0 is %d" % cls[0], rules=shown)
    w.need(n[0] == n[1] and n[0] > max(cls), "%r classes are announced, but there is one of number %d" % (n, max(cls)), rules=shown)
    w.need([int(x) for x in res.outs("b")] == [0, 0], "an input beyond all has a class", rules=shown)
    ls = [x for k in rules for x in leaves(k)]
    first, groups = {}, {}
    for c in range(1, 256):
        sig = tuple(side(x, c) for x in ls)
        w.need(cls[c] > 0, "input %d has no class" % c, rules=shown)
        f = first.setdefault(cls[c], (c, sig))
        w.need(f[1] == sig, "inputs %d and %d share a class, but a rule tells them apart" % (f[0], c), rules=shown)
        g = groups.setdefault(sig, c)
        w.need(cls[g] == cls[c], "no rule tells inputs %d and %d apart, but they have different classes" % (g, c), rules=shown)
    w.seen("numbers of classes", len(groups))
    w.count("inputs classified", 255)
    alive, rule = [int(x) for x in res.outs("w")], [int(x) for x in res.outs("r")]
    acc, put = [[int(y) for y in x.split()] for x in res.outs("a")], [[int(y) for y in x.split()] for x in res.outs("c")]
    w.need(len(alive) == len(words), "words are missing")
    for wd, al, ru, ac, cl in zip(words, alive, rule, acc, put):
        info = dict(rules=shown, word=wd)
        w.need(cl == [cls[c] for c in wd], "the classes of a text are not those of its inputs", **info)
        ends = [x.ends(wd, 0, {}) for x in rules]
        ends = [L.first(e) if L.shortest(x) else e for e, x in zip(ends, rules)]
        exp = [k + 1 for k in range(len(rules)) if len(wd) in ends[k]]
        w.need(ru == (exp[-1] if exp else 0), "rule %d is reported, expected %d" % (ru, exp[-1] if exp else 0), **info)
        w.need(ac == exp, "rules %r accept, expected %r" % (ac, exp), **info)
        long = max(set().union(*ends) | {0})
        w.need(al >= long, "dies after %d inputs, but a prefix of %d is accepted" % (al, long), **info)
        w.count("words walked")
        if exp:
            w.nontrivial(shown, wd)
    if i < 3:
        w.sample("%r" % shown)
