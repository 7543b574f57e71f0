import gen as GN
import work
ID = "C12"
RULE = ("Documents of every shape, and pieces of them cut between tokens, go through the tokenizer; the kinds, the texts and the end offsets "
        "of the tokens are compared with a reference tokenizer.  Non-trivial: the piece has both a name and a primitive.")
BUILDS = [("plain", "internal"), ("asan", "internal")]
COUNT = {"quick": 4000, "thorough": 90000}
ASSUMES = ["well-formed JSON, or a piece of it that begins and ends between tokens"]
LCB, RCB, LB, RB, COM, KY, PRI = range(1, 8)
ONE = {123: LCB, 125: RCB, 91: LB, 93: RB, 44: COM}


def tokens(b):
    """(kind, text, (first, last) offset the tokenizer may stand at after it)"""
    out, i, n = [], 0, len(b)
    while i < n:
        c = b[i]
        if c in b" \t\r\n":
            i += 1
        elif c in ONE:
            i += 1
            out.append((ONE[c], None, i))
        elif c == 34:
            j = i + 1
            while b[j] != 34:
                j += 2 if b[j] == 92 else 1
            k = j + 1
            while k < n and b[k] in b" \t\r\n":
                k += 1
            if k < n and b[k] == 58:
                out.append((KY, b[i + 1:j], k + 1))
                i = k + 1
            else:
                out.append((PRI, b[i:j + 1], j + 1))
                i = j + 1
        else:
            j = i
            while j < n and b[j] not in b" \t\r\n{}[],:\"":
                j += 1
            out.append((PRI, b[i:j], j))
            i = j
    return out


def check(w, b, kind):
    res = w.ok(w.run(kind, "lex", b, variant="internal"), "tokenizing")
    got, cur = [], None
    for t, v in res.recs:
        if t == "t":
            cur = [int(v), None, None]
            got.append(cur)
        elif t == "p":
            cur[2] = int(v)
        elif t in "sS":
            cur[1] = v
    exp = tokens(b)
    k = 0
    while k < min(len(got), len(exp)) and got[k][0] == exp[k][0] and got[k][1] == exp[k][1]:
        k += 1
    w.need(k == len(got) == len(exp), "token %d differs (got %d tokens, expected %d)" % (k, len(got), len(exp)),
           document=b, got=repr(got[k:k + 2])[:300], expected=repr(exp[k:k + 2])[:300])
    for n, (g, e) in enumerate(zip(got, exp)):
        lo = e[2]
        hi = lo
        while hi < len(b) and b[hi] in b" \t\r\n":
            hi += 1
        w.need(lo <= g[2] <= hi, "the offset after token %d is %d, expected %d to %d" % (n, g[2], lo, hi), document=b, token=repr(e)[:200])
    w.count("tokens compared", len(exp))
    if len({e[0] for e in exp} & {KY, PRI}) == 2:
        w.nontrivial(b)
    return exp


def case(w, r, i):
    c = work.draw(r)
    b = c.doc
    kind = "asan" if i % 5 == 0 else "plain"
    if r.random() < .3 and len(b) < 20000:
        # any amount of white space between any two tokens
        ps = work.split(b, work.token_gaps(b))
        b = b"".join(p + (b"" if r.random() < .6 else b"".join(r.choice([b" ", b"\t", b"\n", b"\r"]) for _ in range(r.choice([1, 2, 17, 300])))) for p in ps)
    check(w, b, kind)
    gaps = work.serial_gaps(b)
    if gaps:
        for p in work.split(b, work.pick(r, gaps, r.choice([1, 3, 8]))):
            check(w, p, kind)
    w.sample("%s" % b[:200].decode("latin1"))
