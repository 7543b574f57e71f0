"""Runs the cases of one property on all cores, keeps the verdict discipline and writes the evidence.

A check module gives
  ID, TITLE, RULE, BUILDS (list of (kind, variant)), COUNT {'quick': n, 'thorough': n}
  case(w, rng, i)   raises Violation (through w.need / w.ok / w.fail)
and may give
  fixed(w)          a list of named fixed scenarios, run before the random ones
  known(w)          handled here: entries of known_findings.txt that name this property
"""
import base64
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build as B          # noqa: E402
import runner              # noqa: E402

sys.setrecursionlimit(60000)
threading.stack_size(512 << 20)
WORKERS = int(os.environ.get("JPS_WORKERS", "0")) or min(8, os.cpu_count() or 4)
MAXVIOL = 3                # a worker ends after that many
LIMIT = {"plain": 20000, "asan": 40000, "tsan": 60000, "sched": 40000, "vg": 90000, "o0": 30000, "fast": 30000}
DEADLINE = {"quick": 420, "thorough": 800}


class Violation(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.info = info


class Inconclusive(Exception):
    pass


def show(x, n=600):
    if isinstance(x, bytes):
        x = x.decode("latin1") if any(c > 126 for c in x) else x.decode()
    if not isinstance(x, str):
        if isinstance(x, (list, tuple)):
            return "[" + ", ".join(show(y, 120) for y in x[:12]) + (", ... %d in all" % len(x) if len(x) > 12 else "") + "]"
        x = repr(x)
    return x if len(x) <= n else x[:n // 2] + " ... (%d bytes) ... " % len(x) + x[-n // 2:]


class W:
    """What a case sees: drivers, counters, verdicts."""

    def __init__(self, mod, tier, seed, exes):
        self.mod, self.tier, self.seed, self.exes = mod, tier, seed, exes
        self.d = {}
        self.n = {}
        self.sets = {}
        self.samples = []
        self.last = []
        self.nt = []

    def drv(self, kind, variant=""):
        k = (kind, variant)
        if k not in self.d or self.d[k].p.poll() is not None:
            self.d[k] = runner.Driver(self.exes[k], valgrind=(kind == "vg"))
        return self.d[k]

    def run(self, kind, op, *fields, variant="", limit=None):
        """One request.  A time-out is inconclusive: it is run again with a far larger limit,
        and only a run that does not end then either is a hang."""
        lim = limit or LIMIT[kind]
        self.last.append((kind, variant, op, fields))
        if len(self.last) > 6:
            del self.last[0]
        self.count("runs of the real code (%s)" % kind)
        r = self._call(kind, variant, op, fields, lim)
        if r.timeout:
            self.count("time-outs run again")
            r = self._call(kind, variant, op, fields, 4 * lim)
            if r.timeout:
                raise Violation("hang: %s does not end (%d s)" % (op, 4 * lim // 1000), hang=True)
        return r

    def _call(self, kind, variant, op, fields, lim):
        try:
            return self.drv(kind, variant).call(op, *fields, limit=lim)
        except (RuntimeError, BrokenPipeError, OSError):
            self.d.pop((kind, variant), None)
            return self.drv(kind, variant).call(op, *fields, limit=lim)

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        s = self.sets.setdefault(name, set())
        if len(s) < 400000:
            s.add(h)

    def nontrivial(self, *key):
        """Non-trivial by the rule of the check.  A case counts once, however many of its runs are."""
        self.seen("non-trivial runs", *key)
        self.nt.append(key)

    def case_done(self):
        if self.nt:
            self.seen("", tuple(self.nt))
        self.nt = []

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(show(text, 400))

    # verdicts
    def fail(self, msg, **info):
        raise Violation(msg, **info)

    def need(self, cond, msg, **info):
        if not cond:
            raise Violation(msg, **info)

    def ok(self, r, what="run", none=False):
        """The run came to its end; none: it may have no output list at all (nothing to read)."""
        if not r.done:
            raise Violation("%s: %s" % (what, r.status()), stderr=r.err[-3000:].decode(errors="replace"))
        if not none and any(t == "N" for t, _ in r.recs):
            raise Violation("%s: no output list, not even an empty one" % what)
        return r

    def same(self, got, exp, what, **info):
        if got != exp:
            k = 0
            while k < min(len(got), len(exp)) and got[k] == exp[k]:
                k += 1
            raise Violation("%s: differs from result %d on (got %d, expected %d)" % (what, k, len(got), len(exp)),
                            got=show(got[k:k + 3]), expected=show(exp[k:k + 3]), **info)

    def close(self):
        for d in self.d.values():
            d.close()


def rng_of(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def _write_replay(mod, seed, tier, i, v, w):
    d = os.path.join(VERIF, "replays", mod.ID)
    os.makedirs(d, exist_ok=True)
    body = {"property": mod.ID, "seed": seed, "tier": tier, "case": i, "violation": str(v),
            "info": {k: show(x, 4000) for k, x in v.info.items()},
            "again": "VERIF_SEED=%d VERIF_TIER=%s python3 checks/check.py %s --case %s" % (seed, tier, mod.ID, i),
            "requests": [{"build": k, "variant": va, "op": op,
                          "fields": [base64.b64encode(x if isinstance(x, bytes) else str(x).encode()).decode()[:200000] for x in fs]}
                         for k, va, op, fs in w.last]}
    s = json.dumps(body, indent=1)
    p = os.path.join(d, hashlib.sha1(s.encode()).hexdigest()[:12] + ".json")
    with open(p, "w") as f:
        f.write(s)
    return p


def _one(mod, w, seed, tier, i, res):
    try:
        if isinstance(i, str):
            dict(mod.fixed(w))[i]()
        else:
            mod.case(w, rng_of(seed, mod.ID, i), i)
        return False
    except Violation as v:
        res["viol"].append((str(v), {k: show(x, 1500) for k, x in v.info.items()}, _write_replay(mod, seed, tier, i, v, w), i))
        return bool(v.info.get("hang"))
    except Inconclusive as e:
        w.count("inconclusive: %s" % e)
    except Exception:
        res["err"].append("case %s\n%s" % (i, traceback.format_exc()))
    finally:
        w.case_done()
    return False


def _worker(mod, seed, tier, exes, counter, total, fixed, t_end, q):
    res = {"viol": [], "err": []}
    w = W(mod, tier, seed, exes)

    def loop():
        done = 0
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= total + len(fixed):
                break
            if time.time() > t_end:
                w.count("cases left out when the time was used up")
                continue
            i = fixed[i] if i < len(fixed) else i - len(fixed)
            done += 1
            t1 = time.time()
            hang = _one(mod, w, seed, tier, i, res)
            if time.time() - t1 > float(os.environ.get("JPS_SLOW", "1e9")):
                print("SLOW case %s: %.1f s" % (i, time.time() - t1), file=sys.stderr, flush=True)
            if hang or len(res["viol"]) >= MAXVIOL or len(res["err"]) >= 3:
                break
        w.count("cases", done)
    try:
        th = threading.Thread(target=loop)      # a large stack for the recursive reference model
        th.start()
        th.join()
        w.close()
    except Exception:
        res["err"].append(traceback.format_exc())
    res["n"], res["sets"], res["samples"] = w.n, w.sets, w.samples
    q.put(res)


def load_known():
    """known_findings.txt: 'known: property=<id> <json>' and 'fixed: property=<id> <commit> <text>' lines."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property="):
                pid, js = line[len("known: property="):].split(" ", 1)
                e = json.loads(js)
                e["property"] = pid
                out.append(e)
    return out


def known_findings(mod, w, res):
    """Each listed finding is run; it may fail only in the way that is recorded."""
    for e in load_known():
        if e["property"] != mod.ID:
            continue
        fields = [x.encode() for x in e["fields"]]
        r = w.run("plain", e["op"], *fields)
        got = [x.decode("latin1") for x in r.outs()] if r.done else [r.status()]
        if got == e["expected"]:
            continue
        if got == e["observed"]:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, e["what"]), flush=True)
        else:
            v = Violation("a known finding fails in another way: %s" % e["what"], got=show(got), recorded=show(e["observed"]), expected=show(e["expected"]))
            res["viol"].append((str(v), v.info, _write_replay(mod, w.seed, w.tier, "known", v, w), "known"))


def prepare(builds):
    exes = {}
    with cf.ThreadPoolExecutor(len(builds)) as ex:
        fs = {b: ex.submit(B.build, *b) for b in builds}
        for b, f in fs.items():
            exes[b] = f.result()
    return exes


class Fallback:
    """Stands in for a check whose drivers use the documented internal interface, when that interface
    has changed so that they no longer compile while the public one still does: the same guarantee is
    then observed through whole runs only."""

    def __init__(self, mod):
        self.mod = mod
        self.ID, self.RULE = mod.ID, "FALLBACK (the internal interface does not compile any more): serial runs of the shared workload against the model.  " + mod.RULE
        self.BUILDS = [("plain", ""), ("asan", "")]
        self.COUNT = {"quick": 12000, "thorough": 100000}
        self.ASSUMES = getattr(mod, "ASSUMES", [])

    def case(self, w, r, i):
        import work
        c = work.draw(r, without=("big",))
        res = w.ok(w.run("asan" if i % 8 == 0 else "plain", "serial", c.q, c.doc), "serial run")
        if c.exact:
            w.same(res.outs(), c.texts, "serial run", query=c.q, document=c.doc)
        if c.texts:
            w.nontrivial(c.key())
        if i < 3:
            w.sample(c.q)


def main(pid, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(pid.lower())
    builds = list(dict.fromkeys(tuple(b) for b in mod.BUILDS))
    if ("plain", "") not in builds and any(e["property"] == pid for e in load_known()):
        builds.append(("plain", ""))
    try:
        exes = prepare(builds)
    except B.BuildError as e:
        try:
            if not any(v for _, v in builds):
                raise
            mod = Fallback(mod)
            builds = mod.BUILDS
            exes = prepare(builds)
            print("NOTE: the drivers of the internal interface do not compile, whole runs are observed instead\n%s" % str(e)[-1500:], file=sys.stderr)
        except B.BuildError as e:
            print("ERROR: build failed\n%s" % e, file=sys.stderr)
            return 2
    tb = time.time() - t0
    if "--case" in argv:
        c = argv[argv.index("--case") + 1]
        w = W(mod, tier, seed, exes)
        res = {"viol": [], "err": []}

        def one():
            _one(mod, w, seed, tier, int(c) if c.isdigit() else c, res)
        th = threading.Thread(target=one)
        th.start()
        th.join()
        w.close()
        for m, info, path, i in res["viol"]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print(m, json.dumps(info, indent=1))
        for e in res["err"]:
            print(e)
        return 1 if res["viol"] else 2 if res["err"] else 0
    total = mod.COUNT[tier]
    if "--n" in argv:
        total = int(argv[argv.index("--n") + 1])
    w0 = W(mod, tier, seed, exes)
    fixed = [n for n, _ in mod.fixed(w0)] if hasattr(mod, "fixed") else []
    counter = mp.Value("i", 0)
    q = mp.Queue()
    t_end = t0 + DEADLINE[tier]
    nw = min(getattr(mod, "WORKERS", WORKERS), WORKERS)
    ps = [mp.Process(target=_worker, args=(mod, seed, tier, exes, counter, total, fixed, t_end, q)) for _ in range(nw)]
    for p in ps:
        p.start()
    rs = []
    alive = list(ps)
    while len(rs) < nw:
        try:
            rs.append(q.get(timeout=1))
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
            if time.time() > t_end + 400:
                break
    for p in ps:
        p.join(1)
        if p.is_alive():
            p.kill()
    res0 = {"viol": [], "err": []}
    if any(e["property"] == pid for e in load_known()):
        try:
            known_findings(mod, w0, res0)
        except Violation as v:
            res0["viol"].append((str(v), v.info, _write_replay(mod, seed, tier, "known", v, w0), "known"))
        w0.close()
    n, sets, samples, viol, err = dict(w0.n), {}, [], res0["viol"], []
    for r in rs:
        for k, v in r["n"].items():
            n[k] = n.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples += r["samples"]
        viol += r["viol"]
        err += r["err"]
    if len(rs) < nw:
        err.append("%d workers did not report" % (nw - len(rs)))
    cov = {"evaluations": n.pop("cases", 0), "distinct_nontrivial": len(sets.pop("", ())), "rule": mod.RULE,
           "samples": samples[:6]}
    cov.update({k: v for k, v in sorted(n.items())})
    cov.update({"distinct " + k: len(v) for k, v in sorted(sets.items())})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for m, info, path, i in viol[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s: %s" % (i, m))
        for k, v in info.items():
            print("    %s: %s" % (k, v))
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], len(viol), time.time() - t0, tb))
    if "-v" in argv:
        print(json.dumps(cov, indent=1))
    if viol:
        return 1
    if err:
        print("ERROR\n" + "\n".join(err[:3]), file=sys.stderr)
        return 2
    if not cov["distinct_nontrivial"]:
        print("ERROR: nothing observed", file=sys.stderr)
        return 2
    return 0
