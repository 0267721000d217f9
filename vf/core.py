"""Shared machinery: building the worker, talking to it, registering and running generated checks."""
import os, sys, json, struct, subprocess, hashlib, fcntl, shutil, time, math, array
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

# ----------------------------------------------------------------------------- build

def _tree_hash():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, "src"), os.path.join(REPO, "header"), os.path.join(VERIF, "shim")):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(f.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "Makefile"), "rb").read())
    return h.hexdigest()[:16]


MSAN = "-fsanitize=memory -fno-sanitize-memory-param-retval"


def build_twin(exe, kind="twin"):
    """The same tree with other values in uninitialised automatic variables (twin), or compiled with the memory sanitizer (msan)."""
    out = os.path.join(os.path.dirname(exe), kind); root = os.path.join(VERIF, "build")
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = os.path.join(out, "worker")
        if not os.path.exists(t):
            r = subprocess.run(["make", "-j8", "REPO=" + REPO, "BUILD=" + out] + (["INIT=zero"] if kind == "twin" else ["CC=clang", "SAN=" + MSAN, "CFLAGS=-g1 -O0 -w -fno-builtin -fno-omit-frame-pointer -ffp-contract=off " + MSAN]), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-4000:]); raise SystemExit(3)
        return t


def build():
    """Compile the current tree (content-addressed, so a stale object is never used)."""
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    key = _tree_hash()
    out = os.path.join(root, key)
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(out, "worker")
        if not os.path.exists(exe):
            olds = sorted((d for d in os.listdir(root) if len(d) == 16 and d != key),
                          key=lambda d: os.path.getmtime(os.path.join(root, d)))
            for d in olds[:-3]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            r = subprocess.run(["make", "-j8", "REPO=" + REPO, "BUILD=" + out], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-4000:])
                raise SystemExit(3)
        return exe

# ----------------------------------------------------------------------------- worker


class Violation(Exception):
    """The property does not hold for this case."""


class Crash(Violation):
    """The library ended or corrupted the process instead of returning."""
    def __init__(self, fn, code, detail):
        self.fn, self.code, self.detail = fn, code, detail
        super().__init__("%s did not return: %s" % (fn, detail))


class Discard(Exception):
    """Case outside the domain of the property (counted, never hidden)."""


class Unavailable(Discard):
    """The tree no longer offers the internal function this case calls (reported as discarded, see DESIGN.md)."""

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:max_malloc_fill_size=268435456:malloc_fill_byte=%d"
                    ":allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:max_free_fill_size=4096:free_fill_byte=221",
    "MSAN_OPTIONS": "exitcode=78:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78:print_stacktrace=0",
}


class Worker:
    def __init__(self, exe, cpu=40, fill=255):
        self.exe, self.cpu, self.fill, self.p = exe, cpu, fill, None
        self.calls = 0

    def start(self):
        import tempfile
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
        env.update(SAN_ENV)
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"] % self.fill
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe, str(self.cpu)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd="/", bufsize=0)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill(); self.p.wait(); self.p.stdout.close(); self.err.close()
            self.p = None

    def _read(self, n):
        buf = bytearray()
        while len(buf) < n:
            b = self.p.stdout.read(n - len(buf))
            if not b:
                return None
            buf += b
        return bytes(buf)

    def call(self, fn, ints=(), *arrs, allow_exit=False):
        """Run shim function fn; returns float64 array.  Arrays and scalars in arrs are concatenated."""
        if self.p is None:
            self.start()
        self.calls += 1
        d = [np.atleast_1d(np.asarray(a, dtype=np.float64)).ravel() for a in arrs]
        d = np.concatenate(d) if d else np.zeros(0)
        i = np.asarray(list(ints), dtype=np.int32)
        nm = fn.encode()
        msg = struct.pack("<iii", len(nm), len(i), len(d)) + nm + i.tobytes() + d.tobytes()
        try:
            mv = memoryview(msg)
            while mv:
                k = self.p.stdin.write(mv)
                mv = mv[k:]
            head = self._read(12)
        except BrokenPipeError:
            head = None
        if head is not None:
            mod, n, self.leak = struct.unpack("<iii", head)
            body = self._read(8 * n)
            if body is not None:
                if mod:
                    raise Violation("%s modified its input array(s): mask %d" % (fn, mod))
                return np.frombuffer(body, dtype=np.float64)
        rc = self.p.wait()
        self.err.seek(0)
        err = self.err.read().decode(errors="replace")
        self.p.stdout.close(); self.p.stdin.close(); self.err.close(); self.p = None
        if rc == 90 and "VF-PROTOCOL unknown " in err:
            raise Unavailable(fn)
        if rc == 90:
            sys.stderr.write("harness protocol error in %s: %s\n" % (fn, err[-500:]))
            os._exit(4)
        why = "exit status %d" % rc if rc >= 0 else "signal %d%s" % (-rc, " (CPU limit: no result)" if -rc in (26, 27) else "")
        line = [l for l in err.splitlines() if "ERROR:" in l or "runtime error" in l or "SUMMARY" in l or "WARNING: Mem" in l]
        raise Crash(fn, rc, why + (": " + " | ".join(line)[:400] if line else ""))

# ----------------------------------------------------------------------------- registry

SUBS = {}     # property id -> list of sub checks


class Sub:
    def __init__(self, prop, name, strat, fn, quick, thorough, nontrivial, rule):
        self.prop, self.name, self.strat, self.fn = prop, name, strat, fn
        self.quick, self.thorough, self.nontrivial, self.rule = quick, thorough, nontrivial, rule


def sub(prop, strat, quick, thorough, rule, nontrivial=None):
    """Register fn(case, W, ctx) as a generated check of prop.

    strat: hypothesis strategy (or callable(tier)) producing a JSON-able case.
    nontrivial(case) -> bool: the stated rule, `rule` in words.  fn may also call ctx.trivial()."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(Sub(prop, fn.__name__, strat, fn, quick, thorough, nontrivial, rule))
        return fn
    return deco


class Ctx:
    def __init__(self):
        self.labels = {}
        self.triv = False

    def label(self, s):
        self.labels[s] = self.labels.get(s, 0) + 1

    def trivial(self):
        self.triv = True

# ----------------------------------------------------------------------------- comparison helpers


def isbad(a):
    return not np.all(np.isfinite(a))


def close(name, got, want, rtol=1e-8, atol=0.0, scale=None):
    """|got-want| <= atol + rtol*scale, scale defaults to max |want|; NaN never passes."""
    got = np.asarray(got, float); want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation("%s: %d values instead of %d" % (name, got.size, want.size))
    if got.size == 0:
        return
    s = (np.max(np.abs(want)) if want.size else 0.0) if scale is None else scale
    tol = atol + rtol * s
    err = np.abs(got - want)
    bad = ~(err <= tol)
    if np.any(bad):
        k = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        raise Violation("%s: element %d is %.12g, expected %.12g (tolerance %.3g)" % (name, k, got.flat[k], want.flat[k], np.max(tol)))


def require(cond, msg):
    if not cond:
        raise Violation(msg)
