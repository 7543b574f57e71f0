"""Generators of documents and queries.  All randomness comes from the Random passed in."""
KEYS = [b"a", b"b", b"c", b"d", b"k1", b"name", b"id", b"x_y", b"other", b"array"]
STRS = [b"", b"v", b"hello world", b"a,b", b"x{y", b"]", b"a:b", b"q\\\"q", b"back\\\\", b"uni\\u00e9", b"caf\xc3\xa9",
        b"true", b"12", b"a, ", b"[", b"}", b"tab\\t", b"'", b"$.a", b"//", b"null"]
NUMS = [b"0", b"1", b"2", b"3", b"10", b"12.5", b"-1", b"-107", b"1e5", b"0.5", b"-2.25", b"1E-2", b"100000"]


def family(r, n=4):
    """Names that agree for a long way and differ behind it, or in length only."""
    size = r.choice([3, 7, 8, 15, 16, 20, 23, 31, 32, 47, 63, 64, 100, 127, 128, 200, 255, 256, 300, 511, 512, 1000, 2000])
    base = bytes(r.choice(b"abcXYZ_019") for _ in range(size))
    base = b"n" + base[1:]
    out = [base] + [base + x for x in (b"a", b"b", b"ab", b"0")] + [base[:-1] + b"q", base[:-1]]
    return r.sample(list(dict.fromkeys(out)), n)


class G:
    def __init__(self, rng, keys=None, **o):
        self.r = rng
        self.keys = keys or KEYS
        self.o = o

    def ws(self, keep=False):
        m = self.o.get("ws", 0)
        if not m or self.r.random() > self.o.get("wsp", .3):
            return b""
        return b"".join(self.r.choice(self.o.get("wschars", [b" ", b"\t", b"\n", b"\r\n"])) for _ in range(self.r.randint(1, m)))

    def prim(self):
        r = self.r
        x = r.random()
        if x < self.o.get("pstr", .4):
            if r.random() < self.o.get("long", 0):
                return b'"' + bytes(r.choice(b"abcdefgh ,:{}[]") for _ in range(r.choice([50, 200, 900, 1100, 3000, 5000]))) + b'"'
            return b'"' + r.choice(self.o.get("strs", STRS)) + b'"'
        if x < .8:
            return r.choice(self.o.get("nums", NUMS))
        return r.choice([b"true", b"false", b"null"])

    def value(self, depth):
        r = self.r
        x = r.random()
        if depth <= 0 or x < self.o.get("pprim", .3):
            return self.prim()
        if x < self.o.get("pobj", .65):
            return self.obj(depth)
        return self.arr(depth)

    def obj(self, depth, n=None):
        r = self.r
        n = r.randint(0, self.o.get("width", 4)) if n is None else n
        ks = r.sample(self.keys, min(n, len(self.keys)))
        w = self.ws
        parts = [w() + b'"' + k + b'"' + w() + b":" + w() + self.value(depth - 1) + w() for k in ks]
        return b"{" + (b",".join(parts) or w()) + b"}"

    def arr(self, depth, n=None):
        r = self.r
        n = r.randint(0, self.o.get("width", 4)) if n is None else n
        w = self.ws
        parts = [w() + self.value(depth - 1) + w() for _ in range(n)]
        return b"[" + (b",".join(parts) or w()) + b"]"

    def doc(self, depth):
        x = self.r.random()
        d = self.obj(depth, self.r.randint(1, 4)) if x < self.o.get("rootobj", .7) else self.arr(depth, self.r.randint(1, 5))
        return self.ws() + d + self.ws()


def gen_expr(r, keys, depth=2, vars_only=False):
    x = r.random()
    if depth == 0 or x < .3:
        y = r.random()
        if y < .6 or vars_only:
            return ("var", [r.choice(keys) for _ in range(1 if r.random() < .8 else 2)])
        v = ("var", [r.choice(keys)])
        op = r.choice(["==", "!=", "<", ">", "<=", ">="])
        if r.random() < .6:
            return (op, v, ("num", r.choice([0, 1, 2, 3, 10, 12.5, -1, -107])))
        return (op, v, ("str", r.choice([b"v", b"", b"hello world", b"12"])))
    if x < .4:
        return ("not", gen_expr(r, keys, depth - 1))
    return (r.choice(["&&", "||"]), gen_expr(r, keys, depth - 1), gen_expr(r, keys, depth - 1))


HUGE = [2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 99999999999, 2 ** 63, 10 ** 30]


def huge(r, lo, hi):
    """bounds beyond every array"""
    return (lo, r.choice(HUGE)) if r.random() < .8 else (r.choice(HUGE), r.choice([None] + HUGE))


def gen_query(r, keys=KEYS, ops="cdw*irf", maxlen=5, minlen=1, maxfilters=2):
    from refmodel import expr_vars
    n = r.randint(minlen, maxlen)
    steps = []
    nfil = 0
    forbid = set()
    for i in range(n):
        k = r.choice(ops)
        if k == "f" and nfil >= maxfilters:
            k = "*"
        if k == "D":
            steps.append(("dw",))
        elif k in "cd":
            name = r.choice(keys)
            steps.append((k, name))
        elif k == "w":
            steps.append(("w",))
        elif k == "*":
            steps.append(("*",))
        elif k == "i":
            steps.append(("i", r.randint(0, 3) if r.random() < .98 else r.choice(HUGE)))
        elif k == "r":
            lo = r.choice([None, 0, 1, 2])
            hi = r.choice([None, (lo or 0) + 1, (lo or 0) + 2, (lo or 0) + 3])
            if lo is None and hi is None:
                hi = 2
            if r.random() < .04:
                lo, hi = huge(r, lo, hi)
            steps.append(("r", lo, hi))
        elif k == "f":
            nfil += 1
            steps.append(("f", gen_expr(r, keys)))
    return steps
