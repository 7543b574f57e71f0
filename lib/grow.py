"""Texts of any number of equal units, for the checks on memory and time."""
import gen as GN
import refmodel as R
import work


class Shape:
    __slots__ = ("kind", "a", "u", "z", "q", "key")

    def text(self, n):
        return self.a + self.u * n + self.z


def value(r, keys):
    g = GN.G(r, keys, width=4, pprim=.3, ws=r.choice([0, 0, 1]))
    for _ in range(40):
        v = g.value(r.randint(0, 4))
        if len(v) < 300:
            return v
    return b"1"


def steps_for(r, keys, v, kind):
    """A query over the units that mostly matches something in them."""
    node = R.parse(v)
    inside = work.along(r, node, v, maxlen=3) if node.kids and r.random() < .7 else work.query(r, keys, maxlen=3)
    x = r.random()
    if kind in ("elements", "deep"):
        st = r.choice([[("*",)], [("*",)], [("w",)], [("r", r.randint(0, 50), None)], [("r", None, r.randint(1, 10 ** 6))], []]) + inside
    elif kind == "members":
        st = r.choice([[("w",)], [("c", keys[0])], []]) + inside
    else:
        st = inside
    if x < .12:
        st = [("d", r.choice(keys))]
    elif x < .17:
        st = [("dw",)]
    elif x < .32 and kind == "elements":
        # the matches come early, all that follows goes by
        st = r.choice([[("i", r.randint(0, 4))], [("r", None, r.randint(1, 5))], [("r", r.randint(0, 3), r.randint(4, 7))]]) + (inside[:1] if r.random() < .3 else [])
    elif x < .38 and kind == "elements":
        st = [("f", GN.gen_expr(r, keys))] + r.choice([[], [("c", keys[0])]])
    elif x < .46:
        st = [("c", b"nowhere")]
    return work.tame(st)


def draw(r, kinds):
    s = Shape()
    keys = r.sample(GN.KEYS, 4)
    s.kind = r.choice(kinds)
    v = value(r, keys)
    if s.kind == "elements":
        s.a, s.u, s.z = b"[", v + r.choice([b",", b",", b" ,\n"]), b'"end"]'
    elif s.kind == "members":
        s.a, s.u, s.z = b"{", b'"' + keys[0] + b'":' + v + b",", b'"end":0}'
    elif s.kind == "documents":
        if v[:1] not in b"{[":
            v = b"[" + v + b"]"
        s.a, s.u, s.z = b"", v + r.choice([b"\n", b"", b" "]), b""
    elif s.kind == "deep":
        s.a, s.z = b"", b""
        s.u = r.choice([b'{"%s":[' % keys[0], b"[", b'{"%s":' % keys[0], b'[%s,{"%s":' % (v, keys[0]), b'{"x":%s,"%s":[' % (v, keys[0])])
        v = b"[]"
    elif s.kind == "string":
        s.a, s.u, s.z = b'["a","', r.choice([b"abcdefgh", b'\\"', b"\\\\", b"{[,:", b"\\u0061", b" "]), b'",1]'
        v = b"[]"
    elif s.kind == "blanks":
        s.a, s.u, s.z = b'["a", ', r.choice([b" ", b"\n", b"\t \r\n"]), b',1]'
        v = b"[]"
        s.a = s.a.rstrip(b" ,")
    else:                                   # number
        s.a, s.u, s.z = b'["a",1', r.choice([b"0", b"123456789"]), b"]"
        v = b"[]"
    s.q = R.ser_query(steps_for(r, keys, v, s.kind))
    s.key = (s.kind, s.a, s.u, s.z, s.q)
    return s
