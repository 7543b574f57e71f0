"""The grammar of queries, written down again as a recursive-descent parser, against the real one."""
import re

ID = "C07"
RULE = ("Random queries from the grammar (every kind of step, expressions of every operator with minimal and with superfluous "
        "parentheses, blanks, both kinds of quotes), the same with tokens or characters removed, added or swapped, and token soup.  A "
        "recursive-descent parser written from the grammar says whether each is a query and what its tree is; the real parser must agree on both, "
        "and reject what is no query with an error and not with a crash.  Non-trivial: the text has more than two tokens.")
BUILDS = [("plain", "internal"), ("asan", "internal")]
COUNT = {"quick": 20000, "thorough": 300000}

TOK = re.compile(rb"""[ \t\v\f]+|(?P<op>=~|==|!=|<=|>=|&&|\|\||\.\.|[*\-+/%?\[\]()<>!$@.,:])|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')|(?P<num>[0-9]+(?:\.[0-9]+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)""", re.S)


class Bad(Exception):
    pass


def tokens(b):
    out, i = [], 0
    while i < len(b):
        m = TOK.match(b, i)
        if not m:
            raise Bad("character")
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


PREC = {b"||": 1, b"&&": 2, b"==": 3, b"!=": 3, b"<": 3, b">": 3, b"<=": 3, b">=": 3, b"+": 4, b"-": 4, b"*": 5, b"/": 5, b"%": 5}


class P:
    def __init__(self, b):
        self.t, self.i = tokens(b), 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", b"")

    def take(self, *ops):
        k, v = self.peek()
        if k == "op" and v in ops:
            self.i += 1
            return v
        return None

    def want(self, op):
        if not self.take(op):
            raise Bad(op)

    def path(self):
        self.want(b"$")
        n = ("t", "root")
        while True:
            o = self.take(b".", b"..", b"[")
            if o == b"[":
                n = ("t", "pred", n, self.pred())
                self.want(b"]")
            elif o:
                n = ("t", "concat" if o == b"." else "pconcat", n, self.prop())
            elif self.peek()[0] == "end":
                return n
            else:
                raise Bad("path")

    def prop(self):
        k, v = self.peek()
        if k == "id":
            self.i += 1
            return ("i", v)
        if self.take(b"*"):
            return ("t", "wild")
        raise Bad("property")

    def number(self):
        neg = self.take(b"-")
        k, v = self.peek()
        if k != "num":
            raise Bad("number")
        self.i += 1
        return ("#", -float(v) if neg else float(v))

    def pred(self):
        if self.take(b"*"):
            return ("t", "wild")
        if self.take(b"?"):
            self.want(b"(")
            e = self.expr(1)
            self.want(b")")
            return ("t", "filter", e)
        if self.take(b"("):
            e = self.expr(1)
            self.want(b")")
            return ("t", "script", e)
        if self.take(b":"):
            return ("t", "range", None, self.number())
        if self.peek()[0] == "str":
            n = self.string()
        else:
            n = self.number()
            if self.take(b":"):
                return ("t", "range", n, None if self.peek() == ("op", b"]") else self.number())
        while self.take(b","):
            n = ("t", "concat", n, self.string() if self.peek()[0] == "str" else self.number())
        return n

    def string(self):
        v = self.peek()[1]
        self.i += 1
        return ("s", v[1:-1])

    def expr(self, level):
        if level == 6:
            return self.unary()
        n = self.expr(level + 1)
        while True:
            k, v = self.peek()
            if k == "op" and PREC.get(v) == level:
                self.i += 1
                n = ("p", v, n, self.expr(level + 1))
            else:
                return n

    def unary(self):
        if self.take(b"!"):
            return ("p", b"!", self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.peek()
        if self.take(b"@"):
            n = ("t", "ref")
        elif self.take(b"("):
            n = self.expr(1)
            self.want(b")")
        elif k == "str":
            n = self.string()
        else:
            n = self.number()
        while True:
            o = self.take(b".", b"..")
            if not o:
                return n
            n = ("t", "concat" if o == b"." else "pconcat", n, self.prop())


def flat(n, out):
    if n is None:
        out.append(("n", b""))
        return
    v = n[1]
    out.append((n[0], v.encode() if isinstance(v, str) else v if isinstance(v, bytes) else b"%.17g" % v))
    kids = list(n[2:]) + [None] * (2 - len(n[2:]))
    for k in kids:
        flat(k, out)


def ident(r):
    return r.choice([b"a", b"b1", b"_x", b"LongName_42", b"e5", b"x" * r.choice([1, 64, 300]), b"true", b"null", b"and"])


def num(r):
    return r.choice([b"0", b"1", b"2", b"10", b"007", b"12.5", b"0.5", b"99999999", b"3.000", b"-1", b"-0", b"-2.5", b"123456789012"])


def lit(r):
    return r.choice([b"'v'", b'"v"', b"''", b'""', b"'it\\'s'", b'"q\\"q"', b"'a \"b\" c'", b'"[?("', b"'\\\\'", b"'\xc3\xa9'", b"'" + b"y" * r.choice([2, 500]) + b"'"])


def gexpr(r, d):
    x = r.random()
    if d <= 0 or x < .25:
        b = r.choice([b"@", b"@", b"@", num(r), lit(r)])
        for _ in range(r.choice([0, 1, 1, 2, 3]) if b == b"@" else r.choice([0, 0, 0, 1])):
            b += r.choice([b".", b".", b".", b".."]) + r.choice([ident(r), b"*"])
        return b
    if x < .35:
        return b"!" + gexpr(r, d - 1)
    if x < .5:
        return b"(" + gexpr(r, d - 1) + b")"
    return gexpr(r, d - 1) + r.choice([b"||", b"&&", b"==", b"!=", b"<", b">", b"<=", b">=", b"+", b"-", b"*", b"/", b"%"]) + gexpr(r, d - 1)


def gquery(r):
    b = b"$"
    for _ in range(r.choice([0, 1, 2, 3, 5, 9, 40])):
        x = r.random()
        if x < .35:
            b += r.choice([b".", b".."]) + r.choice([ident(r), ident(r), b"*"])
        elif x < .45:
            b += b"[*]"
        elif x < .55:
            b += b"[" + num(r) + b"]"
        elif x < .7:
            b += b"[" + r.choice([num(r) + b":" + num(r), b":" + num(r), num(r) + b":"]) + b"]"
        elif x < .9:
            b += b"[?(" + gexpr(r, r.randint(0, 4)) + b")]"
        elif x < .95:
            b += b"[(" + gexpr(r, 2) + b")]"
        else:
            b += b"[" + b",".join(r.choice([num(r), lit(r)]) for _ in range(r.randint(1, 4))) + b"]"
    return b


SOUP = [b"$", b"@", b".", b"..", b"[", b"]", b"(", b")", b"?", b"*", b"!", b":", b",", b"-", b"+", b"/", b"%", b"==", b"<", b">", b"<=", b"&&",
        b"||", b"=~", b"1", b"2.5", b"a", b"b", b"'s'", b'"t"', b" ", b"&", b"|", b"=", b"#", b";", b"\xc3\xa9", b"'", b'"', b"{", b"}", b"^", b"~", b"\\", b"`"]


def case(w, r, i):
    if i < 2:
        w.sample(gquery(r))
    for _ in range(4):
        x = r.random()
        q = gquery(r)
        if x < .4:
            pass
        elif x < .55:         # blanks between tokens
            q = b"".join(t + r.choice([b"", b" ", b"\t ", b"\f", b"\v"]) for t in [v for _, v in tokens(q)])
        elif x < .9:          # broken
            t = [v for _, v in tokens(q)]
            for _ in range(r.randint(1, 3)):
                k = r.randrange(len(t) + 1)
                y = r.random()
                if y < .35 and k < len(t):
                    del t[k]
                elif y < .7:
                    t.insert(k, r.choice(SOUP))
                elif y < .85 and k + 1 < len(t):
                    t[k], t[k + 1] = t[k + 1], t[k]
                elif k < len(t):
                    t[k] = r.choice(SOUP)
            q = b"".join(t)
        else:
            q = r.choice([b"$", b""]) + b"".join(r.choice(SOUP) for _ in range(r.randint(0, 8)))
        try:
            exp = []
            flat(P(q).path(), exp)
        except Bad:
            exp = None
        res = w.run("asan" if i % 4 == 0 else "plain", "ast", q, variant="internal")
        if exp is None:
            w.need(not res.done, "accepts what is not a query", query=q)
            w.need(res.kind == 0 and res.code != 0 and res.code < 60 and b"runtime error:" not in res.err, "does not reject properly: %s" % res.status(), query=q, stderr=res.err[-1500:])
            w.need(res.err, "rejects without a message", query=q)
            w.count("rejected")
        else:
            w.ok(res, "parsing of %r" % q[:200])
            w.same([x for x in res.recs[:-1]], exp, "syntax tree", query=q)
            w.count("trees compared")
            w.count("nodes compared", len(exp))
        if len(q) > 3:
            w.nontrivial(q)
