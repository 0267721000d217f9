"""Runs the checks of one property: python -m vf.run PROP [--replay FILE] [--scale X] [--only SUB]"""
import os, sys, json, time, hashlib, importlib, pkgutil, traceback, multiprocessing as mp
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import warnings
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
from . import core

NSHARD = 8


def load():
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module("vf.props." + m.name)


def known_findings(prop):
    out = []
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, subname, case, msg):
    for k in known:
        if k["sub"] != subname:
            continue
        if all(case.get(a) == b for a, b in k["case"].items()) and all(s in msg for s in k.get("message_contains", [])):
            return k
    return None


def jsonable(o):
    if isinstance(o, dict): return {k: jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [jsonable(v) for v in o]
    if isinstance(o, (np.floating,)): return float(o)
    if isinstance(o, (np.integer,)): return int(o)
    if isinstance(o, np.ndarray): return o.tolist()
    return o


def brief(o, n=12):
    if isinstance(o, dict): return {k: brief(v) for k, v in o.items()}
    if isinstance(o, list):
        return [brief(v) for v in o] if len(o) <= n else [brief(v) for v in o[:n]] + ["... %d values" % len(o)]
    if isinstance(o, float): return float("%.6g" % o) if np.isfinite(o) else str(o)
    return o


def run_case(s, case, W, ctx):
    """Oracle arithmetic that cannot digest what the library returned is a violation, not a harness error."""
    try:
        s.fn(case, W, ctx)
    except (core.Violation, core.Discard):
        raise
    except (ValueError, ArithmeticError, IndexError, np.linalg.LinAlgError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise core.Violation("output not interpretable: %s %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)) from e


def shard_main(arg):
    (prop, subname, shard, seed, n, exe, tier, stop) = arg
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, seed as hseed
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    load()
    s = next(x for x in core.SUBS[prop] if x.name == subname)
    W = core.Worker(exe)
    known = known_findings(prop)
    st = {"eval": 0, "disc": 0, "nontriv": set(), "labels": {}, "samples": [], "known": {}, "fail": None, "err": None, "sub": subname}
    strat = s.strat(tier) if callable(s.strat) and not hasattr(s.strat, "example") else s.strat

    def body(case):
        if stop is not None and os.path.exists(stop):
            return
        case = jsonable(case)
        ctx = core.Ctx()
        st["eval"] += 1
        try:
            run_case(s, case, W, ctx)
        except core.Discard:
            st["disc"] += 1
            return
        except core.Violation as e:
            msg = str(e)
            k = match_known(known, subname, case, msg)
            if k is not None:
                st["known"][k["what"]] = st["known"].get(k["what"], 0) + 1
                return
            st["fail"] = (case, msg)
            raise core.Violation(msg.split(":")[0]) from None
        for l, c in ctx.labels.items():
            st["labels"][l] = st["labels"].get(l, 0) + c
        nt = (not ctx.triv) and (s.nontrivial is None or bool(s.nontrivial(case)))
        if nt:
            h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).digest()[:8]
            if h not in st["nontriv"]:
                st["nontriv"].add(h)
                if len(st["samples"]) < 2 and st["eval"] > 3:
                    st["samples"].append({"check": subname, "case": brief(case)})

    t = settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                 report_multiple_bugs=False, phases=[Phase.explicit, Phase.generate, Phase.shrink],
                 suppress_health_check=list(HealthCheck))(given(strat)(body))
    t = hseed(seed)(t)
    try:
        t()
        st["fail"] = None
    except core.Violation:
        if stop is not None:
            open(stop, "w").close()
    except hypothesis.errors.Flaky:
        pass            # st["fail"] is judged by the replays
    except BaseException:
        if st["fail"] is None:
            st["err"] = traceback.format_exc()
    st["calls"] = W.calls
    W.close()
    st["nontriv"] = list(st["nontriv"])
    return st


def replay(prop, subname, case, exe, times=1):
    """Plain re-execution in fresh worker processes; list of messages (None = passed)."""
    s = next(x for x in core.SUBS[prop] if x.name == subname)
    out = []
    for _ in range(times):
        W = core.Worker(exe)
        try:
            run_case(s, case, W, core.Ctx()); out.append(None)
        except core.Discard:
            out.append(None)
        except core.Violation as e:
            out.append(str(e))
        finally:
            W.close()
    return out


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    opts = {"--replay": None, "--scale": "1", "--only": None, "--seed": None, "--tier": None}
    while a:
        o = a.pop(0); opts[o] = a.pop(0)
    t0 = time.time()
    exe = core.build()
    load()
    subs = core.SUBS.get(prop)
    if not subs:
        print("no such property"); sys.exit(4)
    if opts["--replay"]:
        r = json.load(open(opts["--replay"]))
        m = replay(prop, r["check"], r["case"], exe, 3)
        print("\n".join(str(x) for x in m))
        if all(m):
            print("VIOLATION property=%s replay=%s" % (prop, opts["--replay"])); sys.exit(1)
        sys.exit(0)
    tier = opts["--tier"] or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(opts["--seed"] or os.environ.get("VERIF_SEED") or 1)
    known = known_findings(prop)
    rdir = os.path.join(core.VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    stop = os.path.join(rdir, ".stop.%s.%d" % (prop, os.getpid()))
    tasks = []
    for k, s in enumerate(subs):
        if opts["--only"] and s.name not in opts["--only"].split(","): continue
        tot = int((s.quick if tier == "quick" else s.thorough) * float(opts["--scale"]))
        ns = max(1, min(NSHARD, tot // 4))
        for j in range(ns):
            hs = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, s.name, j)).encode()).digest()[:6], "big")
            tasks.append((prop, s.name, j, hs, max(1, tot // ns), exe, tier, stop))
    tasks.sort(key=lambda t: t[2])
    with mp.get_context("fork").Pool(NSHARD, maxtasksperchild=None) as pool:
        res = list(pool.imap_unordered(shard_main, tasks, chunksize=1))
    if os.path.exists(stop): os.unlink(stop)
    errs = [r["err"] for r in res if r["err"]]
    fails = [r for r in res if r["fail"]]
    fails.sort(key=lambda r: len(json.dumps(r["fail"][0])))
    viol = []
    seen = set()
    for r in fails:
        if r["sub"] in seen: continue
        case, msg = r["fail"]
        m = replay(prop, r["sub"], case, exe, 3)
        if all(m):
            seen.add(r["sub"])
            path = os.path.join(rdir, "%s-%s.json" % (prop, r["sub"]))
            json.dump({"property": prop, "check": r["sub"], "case": case, "message": m[0], "seed": seed, "tier": tier}, open(path, "w"), indent=1)
            viol.append((path, r["sub"], m[0]))
        else:
            print("NOTE: failure of %s did not reproduce from its saved input and is not reported: %s" % (r["sub"], msg))
    # known findings are re-executed from their recorded input on every run
    nknown = {}
    for k in known:
        if "replay_case" in k:
            m = replay(prop, k["sub"], k["replay_case"], exe, 1)
            nknown[k["what"]] = 1 if m[0] else 0
    for r in res:
        for w, c in r["known"].items(): nknown[w] = nknown.get(w, 0) + c
    per = {}
    for r in res:
        d = per.setdefault(r["sub"], {"evaluations": 0, "discarded": 0, "nt": set(), "labels": {}})
        d["evaluations"] += r["eval"]; d["discarded"] += r["disc"]; d["nt"] |= {x.hex() for x in r["nontriv"]}
        for l, c in r["labels"].items(): d["labels"][l] = d["labels"].get(l, 0) + c
    checks = {n: {"evaluations": d["evaluations"], "discarded": d["discarded"], "distinct_nontrivial": len(d["nt"]), "labels": dict(sorted(d["labels"].items()))} for n, d in per.items()}
    samples, ns = [], {}
    for r in res:
        for x in r["samples"]:
            if ns.get(r["sub"], 0) < 2:
                ns[r["sub"]] = ns.get(r["sub"], 0) + 1; samples.append(x)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(d["evaluations"] for d in checks.values()),
                       "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in checks.values()),
                       "discarded": sum(d["discarded"] for d in checks.values()),
                       "library_calls": sum(r.get("calls", 0) for r in res),
                       "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in subs),
                       "per_check": checks, "samples": samples[:40] or [{"note": "no case completed"}],
                       "known_findings_seen": nknown},
          "assumptions": ["IEEE double arithmetic; library compiled by gcc -O1 with address and undefined-behaviour sanitizers",
                          "oracles are numpy/scipy or independent re-derivations; tolerances are stated in the check source"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if nknown.get(k["what"]): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs" % (prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["discarded"], ev["wall_s"]))
    if os.environ.get("VF_VERBOSE"):
        print(json.dumps(checks, indent=1))
    for path, sn, m in viol:
        print("  %s: %s" % (sn, m[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viol: sys.exit(1)
    if errs:
        sys.stderr.write(errs[0]); sys.exit(3)
    sys.exit(0)


if __name__ == "__main__":
    main()
