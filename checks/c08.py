import gen as GN
import work
import refmodel as R

ID = "C08"
RULE = ("Filter expressions over all operators (logic, comparison, arithmetic, nested members, constants on either side), written with "
        "the fewest parentheses the grammar allows plus a few superfluous ones, on arrays of records whose members are of every type, missing, nested or records themselves; the arrays stand at the top or at other places, among others that are not selected, "
        "and steps or a second filter may follow.  The selected "
        "records must be those the reference model selects; the order of members and blanks in the records make no "
        "difference.  Non-trivial: the filter selects some but not all objects.")
BUILDS = [("plain", ""), ("asan", "")]
COUNT = {"quick": 16000, "thorough": 160000}
ASSUMES = ["strings are compared as they are written (escapes are not decoded)"]

VALS = [b"0", b"1", b"2", b"-1", b"3", b"10", b"2.5", b"-2.25", b"1e2", b"0.0", b"-0", b"100", b"7", b"1E-2", b"true", b"false", b"null", b'""', b'"v"', b'"w"', b'"10"', b'"true"', b'"a b"',
        b'"null"', b'"v\\""', b'"V"', b'"v "', b'" v"', b'"a  b"', b'"vv"', b'"1 0"', b'"v]"', b'"(v)"', b'"v,w"', b'"v:"', b'"{v}"', b'"\xc3\xa9"', b'"' + b"z" * 1200 + b'"', b"9007199254740993", b"-9223372036854775808", b"1e300", b"1.0", b"1e0", b"2.50", b"10.0", b"1e1", b"10000000007", b"10000000008", b"4294967297", b"4294967295", b"-5000000000", b"2147483648",
        b"-2147483649", b"5000000000.75", b"1099511627783", b"123456789012", b"[1]", b"[]", b"{}", b'{"x":1}']
STR = [b"", b"v ", b" v", b"a  b", b"vv", b"1 0", b"v]", b"(v)", b"v,w", b"v:", b"{v}", b" ", b"v", b"w", b"10", b"true", b"a b", b"null", b"V", b"z" * 1200, b"\xc3\xa9"]


WIDE = [b"10000000007", b"10000000008", b"4294967297", b"4294967295", b"-5000000000", b"2147483648", b"-2147483649", b"5000000000.75",
        b"1099511627783", b"123456789012", b"10", b"7", b"2.5", b"-1", b"100"]
BIG = [4294967296, 10000000007, 2147483648, 5000000000, 1099511627776, 3000000000.5, -4294967297]


def wide(r, names):
    """Arithmetic on numbers that do not fit 32 bits, compared with what it gives for one of VALS (or nearly)."""
    op = r.choice("%%%%+-*/")
    v = float(r.choice(WIDE))
    c = r.choice([0, 1, 2, 3, 7, 10, 1000] + BIG * 2)
    a, b = (("num", float(v)), ("num", float(c)))
    e = ("var", r.choice(names)), ("num", float(c))
    if r.random() < .25:
        a, b, e = b, a, e[::-1]
    k = R.ev((op, a, b), lambda n: R.UNDEF)
    k = k[1] if k[0] == "num" and abs(k[1]) < 1e18 else 0
    if r.random() < .3:
        k += r.choice([-1, 1, .5])
    e = (op,) + e
    f = ("num", float(k)) if k == round(k, 3) and abs(k) < 1e15 else ("num", 0)
    e = (r.choice(["==", "==", "!=", "<", ">", "<=", ">="]), e, f)
    return e if r.random() < .8 else (r.choice(["&&", "||"]), e, gen(r, names, 1))


# strings that agree for a long way
SIZES = [7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 500, 511, 512, 1000, 1023, 1024]


def alike(r):
    base = b"w" * r.choice(SIZES)
    return [base + x for x in (b"", b"a", b"b", b"A", b"ab", b"v")] + [base[:-1]]


def gen(r, names, d, strs=STR):
    x = r.random()
    if d <= 0 or x < .3:
        y = r.random()
        if y < .65:
            return ("var", r.choice(names))
        if y < .85:
            return ("num", r.choice([0, 1, 2, 3, 10, 2.5, 100, 7, -1, -2.25]))
        return ("str", r.choice(strs))
    if x < .38:
        return ("not", gen(r, names, d - 1, strs))
    if x < .6:
        return (r.choice(["&&", "||"]), gen(r, names, d - 1, strs), gen(r, names, d - 1, strs))
    if x < .85:
        return (r.choice(["==", "!=", "<", ">", "<=", ">="]), gen(r, names, d - 1, strs), gen(r, names, d - 1, strs))
    return (r.choice(["+", "-", "*", "/", "%"]), gen(r, names, d - 1, strs), gen(r, names, d - 1, strs))


def record(r, names, keys, vals=VALS, deep=True):
    top = {}
    for n in names:
        if r.random() < .75:
            top.setdefault(n[0], []).append(n)
    m = []
    for k, ns in top.items():
        if all(len(n) == 1 for n in ns):
            m.append((k, r.choice(vals)))
        elif r.random() < .8:
            sub = []
            for n in ns:
                if len(n) > 1:
                    v = r.choice(vals) if len(n) == 2 else b'{"%s":%s}' % (n[2], r.choice(vals))
                    sub.append(b'"%s":%s' % (n[1], v))
            m.append((k, b"{" + b",".join(dict.fromkeys(sub)) + b"}"))
        else:
            m.append((k, r.choice(vals)))
    for k in keys:
        if r.random() < .3 and k not in top:
            m.append((k, r.choice(vals)))
    if deep and m and r.random() < .25:
        # an object, or an array of objects, with members of the same names
        t = text(r, record(r, names, keys, vals, False), r.random() < .3)
        k = r.randrange(len(m))
        m[k] = (m[k][0], r.choice([t, b"[" + t + b"]", b"[1, " + t + b"]", b"[[" + t + b"]]"]))
    return m


def text(r, m, ws):
    m = list(m)
    r.shuffle(m)
    b = (lambda: r.choice([b"", b" ", b"\n", b"\t  "])) if ws else (lambda: b"")
    return b"{" + b() + b",".join(b() + b'"' + k + b'"' + b() + b":" + b() + v + b() for k, v in m) + b"}"


def _k(r):
    return ("c", r.choice([b"p", b"q", b"list", b"p0"]))


PLACES = [lambda r: ([_k(r)], []), lambda r: ([_k(r), _k(r)], []), lambda r: ([("*",)], []), lambda r: ([_k(r), ("*",)], []), lambda r: ([("w",)], []),
          lambda r: ([("i", r.randint(0, 2))], []), lambda r: ([("r",) + r.choice([(None, 2), (1, None), (1, 3), (0, 2)])], []), lambda r: ([("d", b"p")], []), lambda r: ([("d", b"p")], [("c", r.choice(GN.KEYS))]),
          lambda r: ([], [("c", r.choice(GN.KEYS))]), lambda r: ([_k(r)], [("c", r.choice(GN.KEYS))]), lambda r: ([], [("w",)]), lambda r: ([], [("f",)]), lambda r: ([_k(r)], [("f",)])]


def place(r, pre, elements, keys):
    """A document in which the filter applies to elements at the end of a path, and in which there are more elements elsewhere."""
    if not pre:
        return elements()
    k, rest = pre[0], pre[1:]
    some = lambda: r.choice([place(r, rest, elements, keys), elements(), r.choice(VALS)])
    if k[0] in "*ir":
        return b"[" + b", ".join(place(r, rest, elements, keys) if r.random() < .7 else some() for _ in range(r.randint(1, 4))) + b"]"
    n = [b"x0", b"pp", b"p1", b"q", b"p"]
    r.shuffle(n)
    m = [(x, some()) for x in n[:r.randint(0, 2)] if k[0] == "w" or x != k[1]]
    m.insert(r.randint(0, len(m)), (b"w" if k[0] == "w" else k[1], place(r, rest, elements, keys)))
    t = b"{" + b",".join(b'"' + x + b'":' + v for x, v in m) + b"}"
    return b'{"o":[1,%s],"x":{}}' % t if k[0] == "d" and r.random() < .5 else t


def case(w, r, i):
    keys = GN.family(r, 5) if r.random() < .06 else r.sample(GN.KEYS, 5)
    names = [[k] for k in keys[:3]]
    if r.random() < .4:
        names[0] = [keys[0], keys[3]]
    if r.random() < .15:
        names[1] = [keys[1], keys[4], keys[0]]
    like = alike(r) if r.random() < .06 else None
    e = gen(r, names, r.randint(1, 4), like or STR)
    if like and r.random() < .7:
        # at least one comparison of such strings
        c = (r.choice(["==", "!=", "<", ">", "<=", ">="]), ("var", names[0]), r.choice([("str", r.choice(like)), ("var", names[1])]))
        e = r.choice([c, c, ("not", c), ("&&", c, e), ("||", e, c)])
    big = r.random() < .12
    if big:
        e = wide(r, names)
    if r.random() < .1 and not R.expr_vars(e):
        e = ("&&", ("var", names[0]), e)
    recs = [record(r, names, keys, WIDE if big and r.random() < .8 else [b'"' + x + b'"' for x in like] if like and r.random() < .8 else VALS) for _ in range(r.randint(3, 14))]
    kind = "asan" if i % 5 == 0 else "plain"
    pre, suf = r.choice(PLACES)(r) if r.random() < .45 else ([], [])
    if any(st[0] == "f" for st in suf):
        suf = [("c", keys[4]), ("f", gen(r, [[keys[0]], [keys[1]]], 2))]
    q = b"".join([b"$", work.R.ser_query(pre)[1:], b"[?(", R.ser_min(e, r), b")]", b"".join(
        b"[?(" + R.ser_min(st[1], r) + b")]" if st[0] == "f" else R.ser_query([st])[1:] for st in suf)])
    steps = pre + [("f", e)] + suf
    for layout in (0, 1):
        def elements():
            items = [text(r, m, layout) for m in recs]
            if layout == 0 and r.random() < .3:
                for _ in range(3):
                    items.insert(r.randrange(len(items)), r.choice(VALS[:30]))
            if suf and r.random() < .5:
                # objects with arrays of their own to which a second filter applies
                items += [text(r, [x for x in m if x[0] != keys[4]] + [(keys[4], b"[" + b",".join(text(r, k, layout) for k in r.sample(recs, 2)) + b"]")], layout) for m in recs[:4]]
            r.shuffle(items)
            return b"[" + b",".join(items) + b"]"
        doc = place(r, pre, elements, keys)
        root = R.parse(doc)
        ev = R.Eval(steps, root, doc)
        if ev.index_below_descendant or ev.nested_filter:
            w.count("places of a known finding left out")
            continue
        exp = ev.texts()
        nobj = len(R.Eval(pre + [("f", ("num", 1.0))], root, doc).texts())
        kept = len(R.Eval(pre + [("f", e)], root, doc).texts())
        res = w.ok(w.run(kind, "serial", q, doc), "filter")
        w.same(res.outs(), exp, "filter", query=q, document=doc)
        par = w.ok(w.run(kind, "par", q, doc, r.choice([2, 3, 5])), "filter, parallel")
        w.same(par.outs(), exp, "filter, parallel", query=q, document=doc)
        w.count("objects decided", nobj)
        if pre or suf:
            w.count("filters at other places")
        if 0 < kept < nobj:
            w.nontrivial(q, doc)
        w.sample("%s selects %d of %d" % (q.decode("latin1"), kept, nobj))

    def ops(e):
        if e[0] in ("var", "num", "str"):
            return
        w.count("operator " + e[0])
        for x in e[1:]:
            ops(x)
    ops(e)
