ID = "C28"
RULE = ("Random workflows (up to 14 passes, chains with branches below branches, branches with data of their own, holders, joins of what an earlier holder holds) are put together and run three times, with "
        "passes that record when they are set up, run and asked for a branch, on which data, and with which configuration, and that send messages of all five kinds to a message centre of a "
        "random level (or the usual one, or one set later) that writes to a file, a stream, or nowhere in particular.  Events, their order, their data, what is held, the result and the messages "
        "are compared with a model of the workflow; memory in use must not grow with message centres that are gone.  Non-trivial: at least one branch or join, or a message that is left out.")
BUILDS = [("plain", "lib"), ("asan", "lib")]
COUNT = {"quick": 12000, "thorough": 100000}
ASSUMES = ["every pass stands in one place of the workflow; messages are sent once setAll has been called"]
KINDS = [(8, "ERROR", "error"), (4, "WARN", "warn"), (2, "INFO", "info"), (1, "DEBUG", "debug"), (16, "FATAL", "fatal")]


class Model:
    def __init__(self, passes, cfg):
        self.p, self.cfg, self.events, self.held, self.sent = passes, cfg, [], {}, []

    def run(self, k, data):
        while True:
            name, flags, nxt, branch, join = self.p[k]
            j = self.held.get(join)
            if "H" in flags:
                res = self.held[k] = data
            else:
                self.events.append("setup " + name)
                self.events.append("run %s on %s" % (name, data) + (" with " + j if j is not None else "") + self.cfg)
                if self.cfg:
                    self.sent += [(m, "%s: %s in %s" % (tag, text, name)) for m, tag, text in KINDS]
                res = data + name
            if branch >= 0:
                into = res
                if "B" in flags:
                    self.events.append("branch " + name)
                    into = "(%s)" % name
                self.run(branch, into)
            if nxt < 0:
                return res
            k, data = nxt, res


def build(r, passes, held, depth, budget):
    """a chain; the index of its first pass, and what has been held since"""
    first, last = -1, -1
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        if len(passes) >= budget:
            break
        k = len(passes)
        flags = "H" if r.random() < .25 else "B" if r.random() < .4 else ""
        passes.append(["%s%d" % (r.choice("abcxyz"), k), flags, -1, -1, r.choice(held) if held and r.random() < .35 else -1])
        if first < 0:
            first = k
        else:
            passes[last][2] = k
        last = k
        if "H" in flags:
            held.append(k)
        if depth and r.random() < .35 and len(passes) < budget:
            passes[k][3] = build(r, passes, held, depth - 1, budget)
    return first


def case(w, r, i):
    passes = []
    build(r, passes, [], 4, r.choice([1, 3, 6, 14]))
    holders = [k for k, p in enumerate(passes) if "H" in p[1]]
    if holders and r.random() < .3:
        r.choice(passes)[4] = r.choice(holders)      # maybe one that is reached later
    messages = r.random() < .7
    if messages:
        passes[r.randrange(len(passes))][1] += "M"
    mask = r.choice([0, 1, 2, 4, 8, 16, 28, 31, r.randint(0, 31)])
    level = r.choice(["d", "s%d" % mask, str(mask), str(mask)])
    if level == "d":
        mask = 28
    where = r.choice("ffFssrtn")
    m = Model(passes, " for name" if messages else "")
    result, held = [], []
    for start in "012":
        result.append(m.run(0, start))
        held += [m.held[k] for k in sorted(m.held)]
    res = w.ok(w.run("asan" if i % 8 == 0 else "plain", "workflow", level, where, *[x for p in passes for x in p], variant="lib"), "running a workflow")
    info = dict(passes=passes, level=level, where=where)
    ev = [x.decode() for x in res.outs("e")]
    w.need(ev == m.events, "events %r, expected %r" % (ev, m.events), **info)
    w.need([x.decode() for x in res.outs("r")] == result, "result %r, expected %r" % (res.outs("r"), result), **info)
    w.need([x.decode() for x in res.outs("h")] == held, "held %r, expected %r" % (res.outs("h"), held), **info)
    text = "".join(t + "\n" for b, t in m.sent if b & mask)
    one, two, stream = [x.decode() for x in res.outs("l")]
    opening = "FATAL: first\n" if mask & 16 else ""
    err = res.err.decode(errors="replace")
    expect = {"f": (text, "", ""), "F": (text, "", ""), "s": ("", "", text), "r": (text, opening, ""), "t": ("", opening, text), "n": ("", "", "")}[where]
    w.need((one, two, stream) == expect, "messages %r, expected %r" % ((one, two, stream), expect), **info)
    if where == "n":
        w.need(all(x in err for x in text.splitlines()), "messages are missing from the error output: %r, expected %r" % (err, text), **info)
        w.need(all(t not in err for b, t in m.sent if not b & mask), "messages that should be left out are in the error output: %r" % err, **info)
    w.need(int(res.outs("u")[0]) <= 0, "%s blocks are left behind by a message centre" % res.outs("u")[0].decode(), **info)
    w.count("passes run", len(passes))
    w.count("events compared", len(ev))
    w.count("messages compared", len(m.sent))
    w.seen("shapes of workflows", [p[2:] for p in passes])
    if any(p[3] >= 0 or p[4] >= 0 for p in passes) or any(not b & mask for b, _ in m.sent):
        w.nontrivial(passes, level, where)
    if i < 3:
        w.sample("%r, level %s, messages to %s" % (passes, level, where))
