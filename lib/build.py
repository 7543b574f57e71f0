"""Builds the drivers from /repo's current working tree plus /verif/harness.

A build is cached under /verif/build by the hash of every input (sources,
harness, flags), so a changed tree always gets a fresh build."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JPS_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
GUARD = "JPSTREAM_VERIF"

KINDS = {
    # an instrumented allocator counts the live blocks and fills fresh ones with garbage
    "plain": ["-O2"],
    "asan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fsanitize-address-use-after-scope",
             "-fno-sanitize-recover=all", "-fno-sanitize=alignment"],
    "tsan": ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-finstrument-functions"],
    # every function entry of the library may yield; the interleaving is fingerprinted
    "sched": ["-O1", "-finstrument-functions"],
    # for valgrind
    "vg": ["-O1", "-fno-inline"],
    # for measurements of time: nothing added
    "fast": ["-O2"],
    # another optimisation level
    "o0": ["-O0"],
}


class BuildError(Exception):
    pass


def _sources():
    c = sorted(glob.glob(f"{REPO}/JSONQuery/*.c"))
    cc = sorted(glob.glob(f"{REPO}/DFABuilder/src/**/*.cpp", recursive=True))
    return c, cc


def _tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for d in ("JSONQuery", "DFABuilder", "JSONPathParser"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if f.endswith((".c", ".h", ".hpp", ".cpp", ".y", ".l")):
                    files.append(os.path.join(r, f))
    files += glob.glob(f"{VERIF}/harness/*")
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))


def build(kind, variant="", cov=False):
    """variant: '' (public API only), 'internal' or 'lib'.  Returns the path of the executable."""
    flags = list(KINDS[kind]) + ["-g1", "-w", "-D_GNU_SOURCE", "-D" + GUARD]
    if cov:
        flags += ["--coverage", "-fprofile-update=atomic"]
    noinstr = [x for x in flags if x != "-finstrument-functions" and x != "--coverage"]
    drv = list(flags if kind == "tsan" else noinstr)
    if "-finstrument-functions" in drv:
        drv.remove("-finstrument-functions")
    if variant:
        drv += ["-DJPS_" + variant.upper()]
    ren = ["-Dpthread_create=jps_pthread_create"]
    key = "%s-%s-%s" % (kind, (variant or "api") + ("-cov" if cov else ""), _tree_hash((flags, variant, KINDS[kind])))
    final = os.path.join(OUT, key)
    exe = os.path.join(final, "drv")
    if os.path.exists(exe):
        return exe
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=OUT)
    try:
        P = f"{REPO}/JSONPathParser"
        _run(["bison", "-d", "-v", "-t", "-o", f"{tmp}/parser_j.c", f"{P}/parser_j.y"])
        _run(["flex", "-o", f"{tmp}/scanner_j.c", f"--header-file={tmp}/scanner_j.h", f"{P}/scanner_j.l"])
        inc = ["-I" + x for x in (f"{REPO}/DFABuilder/include", f"{REPO}/DFABuilder/interface", f"{REPO}/DFABuilder/src", P,
                                  f"{REPO}/JSONQuery", f"{VERIF}/harness", tmp)]
        c, cc = _sources()
        H = f"{VERIF}/harness"
        jobs, objs = [], []

        def add(src, fl, std):
            o = f"{tmp}/{len(objs)}-{os.path.basename(src)}.o"
            objs.append(o)
            jobs.append([std[0], std[1]] + fl + inc + ["-c", src, "-o", o])
        GCC, GXX = ("gcc", "-std=gnu99"), ("g++", "-std=c++11")
        for s in cc:
            add(s, flags, GXX)
        if variant == "lib":
            add(f"{H}/ops_lib.cpp", noinstr, GXX)
        for s in c + [f"{tmp}/parser_j.c", f"{tmp}/scanner_j.c"]:
            add(s, flags + ren, GCC)
        add(f"{H}/driver.c", drv + ren, GCC)
        add(f"{H}/sched.c", [x for x in noinstr if "sanitize" not in x] + (["-DJPS_COUNTED"] if kind == "plain" else []), ("gcc", "-std=gnu11"))
        if kind == "plain":
            add(f"{H}/alloc.c", noinstr, ("gcc", "-std=gnu11"))
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for fu in [ex.submit(_run, j, tmp) for j in jobs]:
                fu.result()
        _run(["g++"] + [x for x in flags if x != "-finstrument-functions"] + objs + ["-lpthread", "-o", f"{tmp}/drv"])
        if not cov:
            for o in objs:
                os.unlink(o)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.exists(exe):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == "__main__":
    print(build(*sys.argv[1:]))
