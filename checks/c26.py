import c11
ID = "C26"
RULE = ("Rules over up to 128 inputs are made into an automaton and its tables handed to the runtime of generated scanners.  Every transition and rule of the "
        "tables is read through both; texts of words, gaps and noise, in classes of bytes, are cut into words with and without actions (skip, go on, "
        "another start condition, conditions within conditions, callbacks), and codes, rules, positions, lengths, lines and copies are compared with those of a scanner that walks the automaton, also in the "
        "runtime's fast mode.  Non-trivial: a text of at least two words.")
BUILDS = [("plain", "lib"), ("asan", "lib")]
COUNT = {"quick": 10000, "thorough": 60000}
ASSUMES = ["texts in memory (the code marks reading from files as unfinished)", "rules that do not accept the empty word",
           "tables of the runtime's `char` inputs (below 128)"]
PUSH, BEGIN, SAVE, MORE, IGNORE, POP, CALL = (1 << k for k in range(25, 32))


def scan(text, ec, rows, stop, action):
    out, head, begin, finished, stack, most = [], 0, 1, False, [], 0
    for _ in range(len(text) + 3):
        start, at, state, code, save = head, head, begin, None, False

        def ended():
            nonlocal begin, state, start, save, most
            p = stop[state]
            if not p:
                return -1
            a = action[p - 1]
            if a & PUSH:
                stack.append(begin)
                most = max(most, len(stack))
                begin = a >> 8 & 255
            if a & BEGIN:
                begin = a >> 16 & 255
            if a & SAVE:
                save = True
            if a & POP:
                begin = stack.pop() if stack else 1
            if a & MORE:
                state = begin
                return -2
            if a & IGNORE:
                state, start = begin, head
                return -2
            return 5000 + p if a & CALL and p % 3 else 99 + p
        while head < len(text) and code is None:
            nx = rows[state][ec[text[head]]]
            if nx:
                state = nx
                head += 1
                continue
            rule = stop[state]
            code = ended()
            if code == -2:
                code = None
        if code is None and not finished:
            finished = True
            rule = stop[state]
            code = ended()
        if code is None or code == -2:
            code = 0
        if code > 0:
            out.append("%d,%d,%d,%d,T%d%s,%d,%d" % (code, rule, start, head - start, rule, "s" if save else "", text.count(10, 0, head), text.rfind(10, 0, head) + 1))
        else:
            out.append("%d@%d" % (code, head))
            if code == 0 or head == at:
                break
    return out, most


def case(w, r, i):
    I = r.choice([3, 4, 6, 10, 40, 100, 128])
    rules = []
    for _ in range(r.choice([1, 2, 3, 5, 12])):
        while True:
            it = c11.Item("l", "", tuple(c11.gen(r, I, r.randint(0, 2)) for _ in range(r.randint(1, 4))))
            if 0 not in it.ends([], 0, {}):
                break
        rules.append(it)
    conds = [""] * len(rules)
    if r.random() < .2:
        conds = [r.choice(["", "default", "A", "B", "A B", "default B"]) for _ in rules]
    states = 1 + len(set(x for c in conds for x in c.split() if x != "default"))
    action = [0] * len(rules)
    nested = False
    if r.random() < .5:
        action = [r.choice([0, 0, IGNORE, MORE, SAVE, BEGIN | r.randint(1, states) << 16, BEGIN | IGNORE | r.randint(1, states) << 16, CALL, CALL | SAVE]) for _ in rules]
    nested = r.random() < .4 and len(rules) > 1
    if nested:
        # conditions within conditions: the first rules go in and out again, in any condition
        rules = [c11.Item("l", "", (c11.Item("c", v),)) for v in r.sample(range(1, I), 2)] + rules
        conds = ["default A B"] * 2 + [r.choice(["default", "", "A", "default A", "default B", "default A B"]) for _ in rules[2:]]
        if r.random() < .2:
            conds[2:] = [c + " " + " ".join(r.choice("CDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(6)) for c in conds[2:]]
            conds[:2] = ["default A B " + " ".join("CDEFGHIJKLMNOPQRSTUVWXYZ")] * 2
        action = [0] * len(rules)
        names = set(x for c in conds for x in c.split() if x != "default")
        for k in range(len(rules)):
            if k < 2 or r.random() < .6:
                action[k] = r.choice([0, IGNORE, SAVE, CALL]) | (PUSH if k == 0 else POP if k == 1 else r.choice([POP, PUSH, PUSH, BEGIN]))
                action[k] |= r.choice([r.randint(1, 1 + len(names)), r.randint(1, 3)]) << (8 if action[k] & PUSH else 16)
    if r.random() < .5:
        ec = [0] + [1 + (k - 1) % (I - 1) for k in range(1, 256)]
    else:
        ec = [0] + [r.randint(1, I - 1) for k in range(1, 256)]
    back = {}
    for b, c in enumerate(ec):
        back.setdefault(c, []).append(b)
    texts = []
    for _ in range(12):
        t = []
        for _ in range(r.choice([0, 1, 2, 3, 6, 20, 60] if nested else [0, 1, 2, 3, 6, 20])):
            t += r.choice(rules[:1] if nested and r.random() < .4 else rules).word(r, I)[:9]
            if r.random() < .05:
                t.append(r.randint(1, I - 1))
        texts.append(bytes(10 if 10 in back[c] and r.random() < .5 else r.choice(back[c]) for c in t if c in back))
    fs = [x for c, it, a in zip(conds, rules, action) for x in (c, it.ser(), a)]
    res = w.ok(w.run("asan" if i % (2 if nested else 6) == 0 else "plain", "lexer", I, len(rules), " ".join(map(str, ec)), *fs, *texts, variant="lib"), "scanning")
    rows = [[int(x) for x in v.split()] for v in res.outs("a")]
    stop = [int(x) for x in res.outs("s")]
    info = dict(rules=[x.show() for x in rules], inputs=I, conditions=conds, actions=action)
    for s, v in enumerate(res.outs("b")):
        got = [int(x) for x in v.split()]
        w.need(got == rows[s], "the runtime's transitions of state %d differ from those of the automaton" % s, got=got, expected=rows[s], **info)
        w.count("transitions compared", I)
    w.need([int(x) for x in res.outs("t")] == stop, "the runtime's rules of the states differ from those of the automaton", **info)
    for t, x, f in zip(texts, res.outs("x"), res.outs("f")):
        exp, most = scan(t, ec, rows, stop, action)
        got = x.decode().split()
        w.need(got == exp, "words %r, expected %r" % (got[:20], exp[:20]), text=t, **info)
        w.count("words compared", len(exp))
        for d in (2, 10):
            if most >= d:
                w.count("texts with conditions %d deep" % d)
        if not any(action) and not any(e[0] == "-" for e in exp):
            codes = [e.split(",")[0] for e in exp if "," in e] + ["0"]
            w.need(f.decode().split() == codes, "fast mode: %r, expected %r" % (f.decode().split(), codes), text=t, **info)
            w.count("texts compared in fast mode")
        if len(exp) > 2:
            w.nontrivial(info["rules"], conds, action, t)
    if i < 3:
        w.sample("%r over %d inputs" % (info["rules"], I))
