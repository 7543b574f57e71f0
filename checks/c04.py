import gen as GN
import work
ID = "C04"
RULE = ("A text is partitioned for 1 to 200 cores, from memory and from a file.  The chunks, one after another, must be the text, byte by "
        "byte; there are at least one and at most as many as asked for; none is empty (unless the text is); each but the first begins with a string, outside "
        "of strings and primitives; the text itself is not changed; and no chunk is longer than its share plus the way to the next string.  "
        "Non-trivial: more than one chunk.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 12000, "thorough": 150000}
ASSUMES = ["the text is a sequence of well-formed JSON documents, complete or not"]


def special(r):
    x = r.random()
    if x < .2:
        return r.choice([b"", b"{}", b"[]", b"1", b'"a"', b'[""]', b'["a"]', b" ", b'{"a":"b"}', b"[[]]", b'["\\""]', b'["\\\\"]', b'["\\\\","\\\\"]'])
    if x < .4:     # strings that look like structure, full of escapes
        n = r.randint(1, 60)
        return b"[" + b",".join(b'"' + r.choice([b'\\"', b"\\\\", b",", b"{", b"[", b'\\",\\"', b"\\\\\\\\", b"x", b"", b", ", b'\\\\\\"']) + b'"' for _ in range(n)) + b"]"
    if x < .55:    # no string at all for long stretches
        n = r.choice([3, 100, 3000])
        return b"[" + b",".join(b"%d" % r.randint(-5, 5000) for _ in range(n)) + (b',"s"' if r.random() < .5 else b"") + b",[" + b",".join(b"1" for _ in range(n)) + b"]]"
    if x < .7:     # one enormous string
        n = r.choice([1000, 5000, 30000])
        return b'{"a":"' + bytes(r.choice(b"ab, {}[]:") for _ in range(n)) + b'","b":["c",' + b'"d"]}'
    if x < .85:    # blanks between everything
        g = GN.G(r, GN.KEYS[:4], ws=r.choice([3, 200]), wsp=.8, width=4, pprim=.4)
        return g.doc(3)
    return b'{"k":' * r.randint(1, 300) + b"1"


def whole(w, r, b, n, kind, op):
    res = w.ok(w.run(kind, op, b, n), "%s for %d cores" % (op, n))
    ks = res.outs("k")
    if op == "partition":
        w.need(res.outs("u") == [b], "the text was changed", text=b)
    w.need(res.outs("c") == [b"%d" % len(ks)], "the number of chunks is not the number of chunks")
    w.need(1 <= len(ks) <= n, "%d chunks for %d cores" % (len(ks), n), text=b)
    w.need(not res.outs("K"), "a chunk is missing", text=b)
    w.need(b"".join(ks) == b, "the chunks are not the text", text=b, chunks=ks)
    w.need(all(ks) or not b, "an empty chunk", text=b, chunks=ks)
    gaps = set(work.string_gaps(b))
    pos, far, last = 0, 0, 0
    for g in sorted(gaps) + [len(b)]:
        far, last = max(far, g - last), g
    share = len(b) // n + 1
    for k in ks[:-1]:
        pos += len(k)
        w.need(pos in gaps, "a chunk begins at %d, inside of something or not with a string" % pos, text=b, chunks=ks)
    for k in ks:
        w.need(len(k) <= share + far + 1, "a chunk of %d bytes, its share is %d and strings are at most %d apart" % (len(k), share, far), text=b, chunks=ks)
    w.count("chunks checked", len(ks))
    return ks


def case(w, r, i):
    if i % 3 == 0:
        b, prof = special(r), "special"
    else:
        c = work.draw(r)
        b, prof = c.doc, c.profile
        if r.random() < .2 and len(b) > 2:      # an incomplete document
            ps = work.token_gaps(b)
            if ps:
                b = b[:r.choice(ps)]
    kind = "asan" if i % 5 == 0 else "plain"
    for n in r.sample([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 64, 100, 200], 3):
        a = whole(w, r, b, n, kind, "partition")
        f = whole(w, r, b, n, kind, "partfile")
        w.same(f, a, "partitions of the file and of the loaded text", text=b)
        if len(a) > 1:
            w.nontrivial(b, n)
            w.count("partitions of shape " + prof)
    w.sample("%d bytes: %s" % (len(b), b[:120].decode("latin1")))
