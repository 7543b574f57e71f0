"""Client of the fork-server driver and a multi-process case runner."""
import os
import shutil
import struct
import subprocess
import tempfile

ASAN = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=1:hard_rss_limit_mb=3000"
UBSAN = "abort_on_error=1:print_stacktrace=1:halt_on_error=1"
TSAN = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"


class Result:
    __slots__ = ("kind", "code", "recs", "err", "raw")

    def __init__(self, kind, code, payload, err):
        self.kind, self.code, self.err = kind, code, err
        self.recs = []
        i, n = 0, len(payload)
        while i + 5 <= n:
            l = struct.unpack_from("<I", payload, i + 1)[0]
            self.recs.append((chr(payload[i]), payload[i + 5:i + 5 + l]))
            i += 5 + l

    @property
    def done(self):
        return self.kind == 0 and self.code == 0 and self.recs and self.recs[-1][0] == "."

    @property
    def timeout(self):
        return self.kind == 2

    def outs(self, tag="o"):
        return [v for t, v in self.recs if t == tag]

    def status(self):
        if self.done:
            return "ok"
        if self.kind == 2:
            return "timeout"
        if self.kind == 3:
            return "unbounded output"
        if self.kind == 1:
            return "signal %d" % self.code
        if self.code:
            return "exit %d" % self.code
        return "incomplete (%s)" % (self.recs[-1] if self.recs else "nothing",)


class Driver:
    def __init__(self, exe, env=None, valgrind=False):
        self.dir = tempfile.mkdtemp(prefix="jpsv-", dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        e = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN)
        e.update(env or {})
        cmd = [exe, self.dir]
        if valgrind:
            e["JPS_NOLIMIT"] = "1"
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=20"] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e)

    def call(self, op, *fields, limit=20000):
        fs = [op.encode(), b"%d" % limit] + [x if isinstance(x, bytes) else (b"%d" % x if isinstance(x, int) else x.encode()) for x in fields]
        msg = struct.pack("<I", len(fs)) + b"".join(struct.pack("<I", len(x)) for x in fs) + b"".join(fs)
        self.p.stdin.write(msg)
        self.p.stdin.flush()
        rd = self.p.stdout.read
        h = rd(12)
        if len(h) < 12:
            raise RuntimeError("driver died: %s" % self.p.poll())
        kind, code, n = struct.unpack("<III", h)
        pay = rd(n)
        m = struct.unpack("<I", rd(4))[0]
        return Result(kind, code, pay, rd(m))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
