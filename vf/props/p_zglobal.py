"""G01, G02: every generated case of the other properties, re-used with oracles that apply to any call."""
import numpy as np, json
from hypothesis import strategies as st
from ..core import sub, SUBS, require, Violation, Discard, Crash, Worker, Unavailable, build_twin


class Twin:
    """Executes every call in two processes that differ in heap fill, automatic-variable fill and history."""
    def __init__(self, a, b): self.a, self.b, self.n, self.fns = a, b, 0, set()

    @property
    def calls(self): return self.a.calls

    def call(self, fn, ints=(), *arrs, **kw):
        try: r = self.a.call(fn, ints, *arrs, **kw)
        except Unavailable: raise
        except Violation as e:
            if isinstance(e, Crash) and e.code in (255, 1):      # refused with a message: the other process must refuse, too
                try: self.b.call(fn, ints, *arrs, **kw)
                except Crash as f:
                    if f.code == e.code: raise e
                raise Bad("%s is refused or not depending on the contents of uninitialised memory" % fn)
            raise Bad(str(e))
        self.fns.add(fn)
        try: q = self.b.call(fn, ints, *arrs, **kw); q2 = self.b.call(fn, ints, *arrs, **kw) if self.n < 3 else q
        except Violation as e: raise Bad("only with other contents of uninitialised memory: " + str(e))
        self.n += 1
        if fn == "rsvd": return r            # seeds its random start with the clock, by design
        for what, v in (("with other contents of uninitialised memory", q), ("when repeated", q2)):
            if r.tobytes() != v.tobytes():
                same = len(r) == len(v)
                d = [i for i in range(len(r)) if not (r[i] == v[i] or (np.isnan(r[i]) and np.isnan(v[i])))] if same else []
                if same and not d: continue
                raise Bad("%s gives another result %s: %s" % (fn, what, "value %d of %d is %r, then %r" % (d[0], len(r), r[d[0]], v[d[0]]) if same else "%d, then %d values" % (len(r), len(v))))
        return r


class Bad(Exception): pass


class LeakMeter:
    def __init__(self, a): self.a, self.fns = a, set()

    @property
    def calls(self): return self.a.calls

    def call(self, fn, ints=(), *arrs, **kw):
        r = self.a.call(fn, ints, *arrs, **kw); self.fns.add(fn)
        if self.a.leak:
            n = []
            for _ in range(3): self.a.call(fn, ints, *arrs, **kw); n.append(self.a.leak)
            if all(n): raise Bad("%s keeps %d bytes after every call" % (fn, min(n)))
        return r


class Initialised:
    """Executes every call in a process compiled with the memory sanitizer."""
    def __init__(self, a): self.a, self.fns = a, set()

    @property
    def calls(self): return self.a.calls

    def call(self, fn, ints=(), *arrs, **kw):
        try: r = self.a.call(fn, ints, *arrs, **kw)
        except Crash as e:
            if "MemorySanitizer" in str(e): raise Bad("%s uses a value that was never set: %s" % (fn, e))
            raise
        self.fns.add(fn)
        return r


OWN = {"G01", "G02"}


def cases(tier):
    subs = [s for p in sorted(SUBS) if p not in OWN for s in SUBS[p]]
    def one(s):
        t = s.strat(tier) if callable(s.strat) and not hasattr(s.strat, "example") else s.strat
        return t.map(lambda c: {"prop": s.prop, "check": s.name, "case": c})
    return st.sampled_from(subs).flatmap(one)


def target(c): return next(s for s in SUBS[c["prop"]] if s.name == c["check"])


_twin = {}


def run(c, W, ctx):
    s = target(c); n = 0
    try: s.fn(c["case"], W, type(ctx)())
    except Bad as e: raise Violation("%s (case of %s %s)" % (e, c["prop"], c["check"]))
    except Exception: n = 1                # the verdict of the other property is not at issue here
    if not W.fns: raise Discard()
    for f in W.fns: ctx.label(f)


@sub("G01", cases, 2500, 40000, "cases of all other checks; non-trivial = a library function ran to completion in both processes", lambda c: True)
def same_result_everywhere(case, W, ctx):
    """Uninitialised memory, history and repetition have no influence on any result; no call touches invalid memory."""
    if "w" not in _twin: _twin["w"] = Worker(build_twin(W.exe), fill=0)
    run(case, Twin(W, _twin["w"]), ctx)


@sub("G01", cases, 1500, 40000, "cases of all other checks; non-trivial = a library function ran to completion", lambda c: True)
def every_value_used_was_set(case, W, ctx):
    """No branch, index or result is computed from memory that nothing has written."""
    if "m" not in _twin: _twin["m"] = Worker(build_twin(W.exe, "msan"))
    run(case, Initialised(_twin["m"]), ctx)


@sub("G02", cases, 2500, 40000, "cases of all other checks; non-trivial = a library function ran to completion", lambda c: True)
def no_memory_kept(case, W, ctx):
    """What a call or an object allocates is released by the end of the call or by its free function."""
    run(case, LeakMeter(W), ctx)
