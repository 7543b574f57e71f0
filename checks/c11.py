ID = "C11"
RULE = ("Random rules (sequences, choices, options, repetitions, named references, texts with escapes, presets, sets of characters and ranges, complemented sets; some with a non-greedy part) over up to 300 inputs go through the pipeline "
        "that makes one automaton of them, alone and together, with and without start conditions, added by themselves or with id, names, source, conditions and script, which must be kept in order and found by name.  Words sampled from the rules, mutated, and random are walked; which rules accept, which of "
        "them has priority (the last), and where the walk dies are compared with a matcher that works on the rules.  "
        "Non-trivial: some rule accepts the word.")
BUILDS = [("plain", "lib"), ("asan", "lib")]
COUNT = {"quick": 12000, "thorough": 80000}
ASSUMES = ["words of at least one input; rules are trees of the documented items; a non-greedy part stands at the top of a rule or of the name it consists of"]


def members(text):
    """the inputs that the text of a set names: characters, escaped ones, ranges of them"""
    codes, i = [], 0
    while i < len(text):
        if text[i] == "-":
            codes.append("-")
        elif text[i] != "\\":
            codes.append(ord(text[i]))
        else:
            i += 1
            n = {"x": 2, "u": 4, "U": 8}.get(text[i], 0)
            codes.append(int(text[i + 1:i + 1 + n], 16) if n else ord({"t": "\t", "n": "\n", "r": "\r", "f": "\f", "v": "\v"}.get(text[i], text[i])))
            i += n
        i += 1
    out = set()
    for k, c in enumerate(codes):
        if c == "-":
            out |= set(range(codes[k - 1], codes[k + 1] + 1))
        else:
            out.add(c)
    return out


ALL = set(range(1, 300))
PRESETS = {".": ALL, "\\d": members("0-9"), "\\w": members("A-Za-z_"), "\\s": members(" \\t\\v\\f\\r\\n")}
for _p in "dws":
    PRESETS["\\" + _p.upper()] = ALL - PRESETS["\\" + _p]


def escapes(text):
    """the inputs of a text, one after another"""
    out, i = [], 0
    while i < len(text):
        k = 1
        if text[i] == "\\":
            k = 2 + {"x": 2, "u": 4, "U": 8}.get(text[i + 1], 0)
        out.append(min(members(text[i:i + k])) if text[i:i + k] != "-" else 45)
        i += k
    return out


def piece(r, I):
    """an input, written as itself or escaped"""
    x = r.random()
    c = r.choice(range(97, 107)) if x < .5 else r.choice([r.randint(48, 57), r.randint(65, 90), r.randint(128, 255)] if I > 255 else [r.randint(48, 57), r.randint(65, 90)])
    if x < .6 or .7 < x < .9:
        return chr(c)
    if x < .7:
        return r.choice(["\\t", "\\n", "\\v", "\\f", "\\r", "\\\\", "\\.", "\\["])
    return r.choice(["\\x%02x", "\\x%02X", "\\u%04x", "\\U%08x"]) % c


def member(r, base):
    """a character of a set, or a range of them"""
    def one(c):
        x = r.random()
        if x < .06:
            return "\\x%02x" % c
        if x < .1:
            return "\\u%04X" % c
        return chr(c)
    c = base + r.randint(0, 9)
    if r.random() < .06:
        return r.choice(["\\t", "\\n", "\\v", "\\f", "\\r", "\\-", "\\\\", "\\^"])
    return one(c) if r.random() < .6 else one(c) + "-" + one(c + r.randint(0, 5))


class Item:
    text = ""

    def __init__(self, kind, v, kids=(), opt=""):
        self.kind, self.v, self.kids, self.opt, self.lazy = kind, v, kids, opt, False
        if kind == "p":
            self.out, self.named = False, PRESETS[v]
        if kind == "q":
            self.codes = escapes(v)
        if kind == "k":
            self.kind, self.v, self.text = "c", escapes(v)[0], v
        if kind == "s":
            self.out = v[:1] == "^"
            self.named = members(v[self.out:])

    def ser(self):
        opt = self.opt + "~" * self.lazy
        if self.kind in "lo":
            return "%s%d%s " % (self.kind, len(self.kids), opt) + " ".join(k.ser() for k in self.kids)
        if self.kind == "r":
            return "r%s " % ("x" + opt if opt else "") + self.kids[0].ser()
        if self.kind == "c" and self.text:
            return "k" + self.text + opt
        return self.kind + str(self.v) + opt

    def show(self):
        if self.kind == "c":
            s = str(self.v)
        elif self.kind == "s":
            s = "[%s]" % self.v
        elif self.kind in "pq":
            s = '"%s"' % self.v
        else:
            s = "(%s)" % ("|" if self.kind == "o" else " ").join(k.show() for k in self.kids)
        return s + self.opt + "~" * self.lazy

    def has(self, c):
        return (c in self.named) != self.out

    def once(self, wd, i, memo):
        """where one occurrence that begins at i can end"""
        if self.kind == "c":
            return {i + 1} if i < len(wd) and wd[i] == self.v else set()
        if self.kind in "sp":
            return {i + 1} if i < len(wd) and self.has(wd[i]) else set()
        if self.kind == "q":
            return {i + len(self.codes)} if wd[i:i + len(self.codes)] == self.codes else set()
        if self.kind == "o":
            return set().union(*[k.ends(wd, i, memo) for k in self.kids])
        cur = {i}
        for k in self.kids:
            cur = set().union(*[k.ends(wd, j, memo) for j in cur])
        return cur

    def ends(self, wd, i, memo):
        key = (id(self), i)
        if key not in memo:
            out = self.once(wd, i, memo)
            if self.opt in ("*", "+"):
                todo = list(out)
                while todo:
                    for e in self.once(wd, todo.pop(), memo):
                        if e not in out:
                            out.add(e)
                            todo.append(e)
            if self.opt in ("*", "?"):
                out = out | {i}
            memo[key] = out
        return memo[key]

    def word(self, r, I):
        n = {"": 1, "?": r.randint(0, 1), "*": r.choice([0, 1, 1, 2]), "+": r.choice([1, 1, 2])}[self.opt]
        out = []
        for _ in range(n):
            if self.kind == "c":
                out.append(self.v)
            elif self.kind == "q":
                out += self.codes
            elif self.kind in "sp":
                near = [c + d for c in self.named for d in (-1, 0, 0, 1) if 0 < c + d < I]
                some = r.sample(range(1, I), min(I - 1, 4)) + r.sample(near, min(len(near), 4))
                out.append(r.choice([c for c in some if self.has(c)] or [1]))
            elif self.kind == "o":
                out += r.choice(self.kids).word(r, I)
            else:
                for k in self.kids:
                    out += k.word(r, I)
        return out


def gen(r, I, d):
    opt = r.choice(["", "", "", "", "?", "*", "+"])
    x = r.random()
    if d == 0 or x < .4:
        if I > 130 and r.random() < .15:
            y = r.random()
            if y < .4:
                return Item("q", "".join(piece(r, I) for _ in range(r.choice([1, 2, 2, 3, 5]))), (), opt)
            if y < .7:
                return Item("k", piece(r, I), (), opt)
            return Item("p", r.choice(sorted(PRESETS)), (), opt)
        if r.random() < .75:
            return Item("c", r.choice([1, 2, I - 1, r.randint(1, I - 1), r.randint(1, min(6, I - 1))]), (), opt)
        s = "^" if r.random() < .6 else ""
        if not s or (I > 130 and r.random() < .5):
            base = r.choice([65, 97, 97, 109] + [140, 190, 240] * (I > 255))
            s += "".join(member(r, base) for _ in range(r.choice([1, 1, 2, 2, 3, 5])))
        return Item("s", s, (), opt)
    n = r.randint(1, 4)
    if x < .5:
        return Item("r", "", (gen(r, I, d - 1),), "")
    return Item("l" if x < .8 else "o", "", tuple(gen(r, I, d - 1) for _ in range(n)), opt)


def make_rule(r, I):
    """a sequence; sometimes one that ends at its first chance, alone or below a name"""
    top = Item("l", "", tuple(gen(r, I, r.randint(0, 3)) for _ in range(r.randint(1, 4))))
    if r.random() < .2 and len(top.kids) > 1:
        k = r.randrange(len(top.kids) - 1) if r.random() < .8 else len(top.kids) - 1
        top.kids[k].lazy = True
        if not top.kids[k].opt:
            top.kids[k].opt = r.choice("*+?")
        if r.random() < .4:
            top = Item("l", "", (Item("r", "", (top,)),))
    return top


def shortest(rule):
    return any(k.lazy for k in rule.kids) or (rule.kids[0].kind == "r" and any(k.lazy for k in rule.kids[0].kids[0].kids))


def first(ends):
    """of a rule that ends at its first chance"""
    some = [e for e in ends if e > 0]
    return set([min(some)] if some else []) | (ends & {0})


def case(w, r, i):
    I = r.choice([3, 4, 6, 10, 40, 140, 200, 256, 257, 300])
    rules = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        rules.append(make_rule(r, I))
    conds = [""] * len(rules)
    if r.random() < .2:
        conds = [r.choice(["", "", "default", "A", "B", "A B", "default B"]) for _ in rules]
    names = sorted(set(x for c in conds for x in c.split() if x != "default"))
    starts = [""] + names
    words = []
    for _ in range(24):
        wd = r.choice(rules).word(r, I)[:9]
        if r.random() < .4:
            for _ in range(r.randint(1, 2)):
                k = r.randrange(len(wd) + 1)
                wd[k:k + r.randint(0, 1)] = [r.choice([1, 2, r.randint(1, I - 1)])] * r.randint(0, 1)
        if wd:
            words.append((r.randrange(len(starts)), wd))
    fs = [x for c, it in zip(conds, rules) for x in (c, it.ser().encode("latin1"))]
    fs += ["%d %s" % (s + 1, " ".join(map(str, wd))) for s, wd in words]
    res = w.ok(w.run("asan" if i % 8 == 0 else "plain", "rules", I, "%d%s" % (len(rules), " ids" if i % 3 == 1 else ""), *fs, variant="lib"), "building an automaton")
    alive, rule, acc = [int(x) for x in res.outs("w")], [int(x) for x in res.outs("r")], [[int(y) for y in x.split()] for x in res.outs("a")]
    if i % 3 == 1:
        nr, nm = len(rules), ["rule%d" % (k * k % 7) for k in range(len(rules))]
        exp = ["%d %s v%d s%d %s %d %d %d %s %d %d %d %d 0" % (100 + 3 * k, nm[k], k, k, "c%d" % k if conds[k] else "", k, nm.index(nm[k]), 100 + 3 * k, nm[k],
                                                               nr + 1, nr + 1, nr, nr) for k in range(nr)]
        w.same([x.decode() if isinstance(x, bytes) else x for x in res.outs("m")], exp, "rules that were added by id and name")
        w.count("rules kept with their ids", nr)
    for (s, wd), al, ru, ac in zip(words, alive, rule, acc):
        ends = []
        for c, it in zip(conds, rules):
            act = (not c or "default" in c.split()) if s == 0 else starts[s] in c.split()
            e = it.ends(wd, 0, {}) if act else set()
            ends.append(first(e) if shortest(it) else e)
        exp = [k + 1 for k in range(len(rules)) if len(wd) in ends[k]]
        info = dict(rules=[x.show() for x in rules], word=wd, start=starts[s], conditions=conds, inputs=I)
        w.need(ru == (exp[-1] if exp else 0), "rule %d is reported, expected %d" % (ru, exp[-1] if exp else 0), **info)
        w.need(ac == exp, "rules %r accept, expected %r" % (ac, exp), **info)
        long = max(set().union(*ends) | {0})
        if exp and any(shortest(rules[k - 1]) for k in exp):
            w.count("words of rules that end at their first chance")
        w.need(al >= long, "dies after %d inputs, but a prefix of %d is accepted" % (al, long), **info)
        w.count("words walked")
        if exp:
            w.nontrivial(info["rules"], conds, s, wd)
    if i < 3:
        w.sample("%r over %d inputs" % ([x.show() for x in rules], I))
