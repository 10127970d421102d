"""Harness core: cases, monitors, shards, evidence.

A property is decided by a set of *scenarios*.  A scenario is a function
``f(c)`` that generates one workload from ``c.rng``, drives the real package
through ``c.call`` (the monitored boundary) and states its oracle through
``c.close`` / ``c.check``.  Nothing here knows how the package is written.
"""

import hashlib
import json
import math
import os
import subprocess
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")

PROPS = {}


class Property:
    def __init__(self, pid, quick, thorough, rule, level="exploration", assumptions=(), procs=8):
        self.pid, self.quick, self.thorough = pid, quick, thorough
        self.rule, self.level, self.assumptions = rule, level, list(assumptions)
        self.scenarios = []  # (name, weight, fn)
        self.procs = procs


def prop(pid, **kw):
    PROPS[pid] = Property(pid, **kw)
    return PROPS[pid]


def scenario(pid, weight=1, once=False):
    """Register a scenario; ``once``: a fixed probe that runs exactly once."""

    def deco(fn):
        PROPS[pid].scenarios.append((fn.__name__, weight, fn, once))
        return fn

    return deco


class Violation(Exception):
    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.known = known


class Skip(Exception):
    """The generated case is not applicable (counted, never a verdict)."""


def digest(obj, h=None):
    top = h is None
    h = h or hashlib.blake2b(digest_size=12)
    if isinstance(obj, np.ndarray):
        h.update(str((obj.dtype, obj.shape)).encode())
        h.update(repr(obj.tolist()).encode() if obj.dtype.kind == "O" else np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(type(obj).__name__.encode())
        for o in obj:
            digest(o, h)
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(str(k).encode())
            digest(obj[k], h)
    elif isinstance(obj, np.random.Generator):
        h.update(repr(obj.bit_generator.state).encode())
    else:
        h.update(repr(obj).encode())
    return h.hexdigest() if top else None


def short(o, n=12):
    """A compact, json-able rendering of an input."""
    if isinstance(o, np.ndarray):
        r = {"dtype": str(o.dtype), "shape": list(o.shape)}
        flat = o.ravel()
        r["head"] = [x.item() if hasattr(x, "item") else x for x in flat[:n]]
        r["head"] = [repr(v) if isinstance(v, (bytes, complex)) else v for v in r["head"]]
        return r
    if isinstance(o, (list, tuple)):
        return [short(x, n) for x in o[:n]]
    if isinstance(o, dict):
        return {str(k): short(v, n) for k, v in o.items()}
    if isinstance(o, np.generic):
        return o.item() if not isinstance(o, np.complexfloating) else repr(o)
    if isinstance(o, (int, float, str, bool, type(None))):
        return o
    return repr(o)[:200]


def same(a, b, rtol=1e-9, atol=1e-10):
    """Numeric agreement; NaN equals NaN, inf equals inf of the same sign."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


class Case:
    def __init__(self, pid, scen, index, seed, tier):
        self.pid, self.scen, self.index, self.seed, self.tier = pid, scen, index, seed, tier
        self.rng = np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(pid.encode()), zlib.crc32(scen.encode()), index])
        self.inputs = {}
        self.events = 0
        self.comparisons = 0
        self.nontrivial = False
        self.tags = {}
        self.known = []
        self.trace = []
        self.h = hashlib.blake2b(digest_size=12)

    # -- bookkeeping ---------------------------------------------------------
    def note(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = short(v)
            self.h.update(k.encode())
            digest(v, self.h)

    def tag(self, key, n=1):
        self.tags[key] = self.tags.get(key, 0) + n

    # -- monitored boundary --------------------------------------------------
    def call(self, fn, *a, **kw):
        """Call into the package; an unexpected exception is a violation."""
        self.events += 1
        name = getattr(fn, "__qualname__", repr(fn))
        if len(self.trace) < 60:
            self.trace.append([name, [short(x, 6) for x in a], {k: short(v, 6) for k, v in kw.items()}])
        try:
            r = fn(*a, **kw)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb if "infomeasure" in f.filename][-3:]
            raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]} at {where}")
        return r

    def raises(self, exc, fn, *a, **kw):
        self.events += 1
        self.comparisons += 1
        self.nontrivial = True
        name = getattr(fn, "__qualname__", repr(fn))
        try:
            r = fn(*a, **kw)
        except exc as e:
            self.tag("rejected:" + type(e).__name__)
            return e
        except Exception as e:
            raise Violation(f"{name}: expected {exc}, got {type(e).__name__}: {str(e)[:200]} ({short(list(a),4)} {short(kw,4)})")
        raise Violation(f"{name}: expected an error, got {short(r)} ({short(list(a),4)} {short(kw,4)})")

    # -- oracle ----------------------------------------------------------------
    def check(self, ok, msg, nontrivial=True, **ctx):
        self.comparisons += 1
        if nontrivial:
            self.nontrivial = True
        if not ok:
            raise Violation(msg + (" " + json.dumps(short(ctx), default=str) if ctx else ""))

    def close(self, got, want, what, rtol=1e-8, atol=1e-9, **ctx):
        self.comparisons += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype.kind == "c" or g.dtype.kind not in "fiub":
            raise Violation(f"{what}: result has dtype {g.dtype}")
        if np.any(np.isfinite(np.asarray(w, dtype=float)) & (np.abs(np.asarray(w, dtype=float)) > 1e-9)):
            self.nontrivial = True
        if not same(got, want, rtol, atol):
            raise Violation(f"{what}: got {short(g)} want {short(w)}" + (" " + json.dumps(short(ctx), default=str) if ctx else ""))

    def known_finding(self, key, text):
        self.known.append((key, text))


def run_case(P, name, fn, index, seed, tier):
    c = Case(P.pid, name, index, seed, tier)
    res = {"scenario": name, "index": index, "status": "ok"}
    t = time.monotonic()
    try:
        import infomeasure as im

        im.Config.reset()
        fn(c)
    except Skip as e:
        res["status"] = "skip"
        res["why"] = str(e)
    except Violation as v:
        res["status"] = "violation"
        res["msg"] = str(v)
    except Exception as e:
        # An error of the harness, unless it was raised inside the package by a
        # call made outside ``c.call``; reported separately, never as "held".
        pk = os.path.join(os.path.realpath(REPO), "infomeasure") + os.sep
        inside = any(os.path.realpath(f.filename).startswith(pk) for f in traceback.extract_tb(e.__traceback__))
        res["status"] = "violation" if inside else "error"
        res["msg"] = traceback.format_exc()[-2500:]
    res.update(
        events=c.events, comparisons=c.comparisons, nontrivial=bool(c.nontrivial and c.comparisons),
        tags=c.tags, known=c.known, hash=c.h.hexdigest() + name, inputs=c.inputs, trace=c.trace,
        t=time.monotonic() - t,
    )
    return res


# ------------------------------------------------------------------ schedule
def plan(P, total):
    """Deterministic list of (scenario, index): weighted round robin."""
    out = []
    for name, w, fn, once in P.scenarios:
        if once:
            out.append((name, 0, fn))
    weighted = [(n, w, f) for n, w, f, once in P.scenarios if not once]
    tw = sum(w for _, w, _ in weighted) or 1
    done = {n: 0 for n, _, _ in weighted}
    for i in range(1, total + 1):
        for n, w, f in weighted:
            target = max(1, math.ceil(w * i / tw)) if i else 0
            while done[n] < target:
                out.append((n, done[n], f))
                done[n] += 1
    return out


def shard_main(P, tier, seed, shard, nshards, total, cap, outfile):
    t0 = time.monotonic()
    todo = plan(P, total)[shard::nshards]
    agg = new_agg()
    import infomeasure  # noqa

    last_flush = 0
    for name, idx, fn in todo:
        if time.monotonic() - t0 > cap:
            agg["capped"] += 1
            continue
        r = run_case(P, name, fn, idx, seed, tier)
        merge_case(agg, r)
        if r["status"] in ("violation", "error") and len([1 for x in agg["bad"] if x["status"] == "violation"]) >= 5:
            break
    agg["done"] = True
    with open(outfile, "w") as f:
        json.dump(agg, f, default=str)


def new_agg():
    return dict(cases=0, skipped=0, events=0, comparisons=0, hashes=[], scen={}, tags={}, known={}, bad=[], samples=[], capped=0, slow=[], done=False)


def merge_case(agg, r):
    s = agg["scen"].setdefault(r["scenario"], dict(ok=0, skip=0, bad=0, nontrivial=0, comparisons=0, t=0.0))
    s["t"] += r["t"]
    agg["slow"] = sorted(agg["slow"] + [[round(r["t"], 2), r["scenario"], r["index"]]], reverse=True)[:5]
    for k, n in r["tags"].items():
        agg["tags"][k] = agg["tags"].get(k, 0) + n
    for k, text in r["known"]:
        agg["known"].setdefault(k, [text, 0])[1] += 1
    agg["events"] += r["events"]
    if r["status"] == "skip":
        s["skip"] += 1
        agg["skipped"] += 1
        return
    agg["cases"] += 1
    agg["comparisons"] += r["comparisons"]
    s["comparisons"] += r["comparisons"]
    if r["status"] == "ok":
        s["ok"] += 1
        if r["nontrivial"]:
            s["nontrivial"] += 1
            agg["hashes"].append(r["hash"])
            if sum(1 for x in agg["samples"] if x["scenario"] == r["scenario"]) < 1:
                agg["samples"].append(dict(scenario=r["scenario"], index=r["index"], inputs=r["inputs"], calls=r["trace"][:4]))
    else:
        s["bad"] += 1
        agg["bad"].append({k: r[k] for k in ("scenario", "index", "status", "msg", "inputs", "trace")})


# --------------------------------------------------------------------- parent
def load_known():
    known, path = {}, os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = dict(p.split("=", 1) for p in line[6:].split()[:2])
                known[(parts["property"], parts["key"])] = line[6:].split(None, 2)[2]
    return known


def child_env():
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    return env


def run_property(P, tier, seed, only=None):
    t0 = time.monotonic()
    total = P.quick if tier == "quick" else P.thorough
    cap = 240 if tier == "quick" else float(os.environ.get("VERIF_CAP", "3000"))
    nsh = P.procs
    outdir = os.path.join(EVID, "tmp_%s_%d" % (P.pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for s in range(nsh):
        out = os.path.join(outdir, f"{s}.json")
        cmd = [sys.executable, "-B", os.path.join(ROOT, "check.py"), P.pid, "--shard", f"{s}/{nsh}", "--out", out,
               "--seed", str(seed), "--tier", tier, "--total", str(total), "--cap", str(cap)]
        if only:
            cmd += ["--only", only]
        procs.append((out, subprocess.Popen(cmd, cwd=ROOT, env=child_env(), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)))
    deadline = t0 + cap + 240
    broken = []
    for out, p in procs:
        try:
            p.wait(timeout=max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            broken.append("shard timed out")
    agg = new_agg()
    hashes = set()
    for out, p in procs:
        try:
            a = json.load(open(out))
        except Exception:
            broken.append(f"shard died rc={p.returncode}: " + open(out + ".err").read()[-1500:])
            continue
        for k in ("cases", "skipped", "events", "comparisons", "capped"):
            agg[k] += a[k]
        hashes.update(a["hashes"])
        for n, s in a["scen"].items():
            d = agg["scen"].setdefault(n, dict(ok=0, skip=0, bad=0, nontrivial=0, comparisons=0, t=0.0))
            for k in d:
                d[k] += s[k]
        for k, n in a["tags"].items():
            agg["tags"][k] = agg["tags"].get(k, 0) + n
        for k, (t, n) in a["known"].items():
            agg["known"].setdefault(k, [t, 0])[1] += n
        agg["bad"] += a["bad"]
        agg["slow"] = sorted(agg["slow"] + a["slow"], reverse=True)[:5]
        for smp in a["samples"]:
            if sum(1 for x in agg["samples"] if x["scenario"] == smp["scenario"]) < 1:
                agg["samples"].append(smp)
    for out, _ in procs:
        for f in (out, out + ".err"):
            if os.path.exists(f):
                os.remove(f)
    try:
        os.rmdir(outdir)
    except OSError:
        pass
    return finish(P, tier, seed, agg, hashes, broken, t0, only)


def finish(P, tier, seed, agg, hashes, broken, t0, only):
    known = load_known()
    viol = [b for b in agg["bad"] if b["status"] == "violation"]
    errs = [b for b in agg["bad"] if b["status"] == "error"]
    unlisted = [(k, v) for k, v in agg["known"].items() if (P.pid, k) not in known]
    rep = os.path.join(EVID, "replays")
    os.makedirs(rep, exist_ok=True)
    lines = []
    for k, (text, n) in unlisted:
        viol.append(dict(scenario="known:" + k, index=0, status="violation", msg=text, inputs={}, trace=[]))
    for i, b in enumerate(viol[:3]):
        path = os.path.join(rep, f"{P.pid}-{b['scenario']}-{b['index']}.json".replace(":", "_"))
        json.dump(dict(property=P.pid, seed=seed, tier=tier, **b, replay=f"python check.py {P.pid} --replay {b['scenario']}:{b['index']} --seed {seed}"), open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={P.pid} replay={path}  # {b['scenario']}:{b['index']}: {b['msg'][:400]}")
    never = [] if only else [n for n, w, f, once in P.scenarios if agg["scen"].get(n, {}).get("comparisons", 0) == 0]
    cov = dict(
        evaluations=agg["cases"], distinct_nontrivial=len(hashes), rule=P.rule,
        samples=agg["samples"][:12], api_calls_observed=agg["events"], oracle_comparisons=agg["comparisons"],
        skipped=agg["skipped"], cases_not_started_time_cap=agg["capped"],
        scenarios={n: {k: (round(v, 1) if k == "t" else v) for k, v in s.items()} for n, s in sorted(agg["scen"].items())},
        observed=dict(sorted(agg["tags"].items())),
        known_findings={k: n for k, (t, n) in agg["known"].items()},
        exhaustive=False, slowest_cases=agg["slow"],
    )
    ev = dict(property=P.pid, tier=tier, seed=seed, level=P.level, coverage=cov, assumptions=P.assumptions,
              wall_s=round(time.monotonic() - t0, 2), violations=len(viol))
    tmp = os.path.join(EVID, f".{P.pid}.json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{P.pid}.json"))
    for k, (text, n) in agg["known"].items():
        if (P.pid, k) in known:
            print(f"KNOWN-FINDING: property={P.pid} {k}: {known[(P.pid, k)]} [{n} observations]")
    for l in lines:
        print(l)
    print(f"{P.pid}: {agg['cases']} cases, {len(hashes)} distinct non-trivial, {agg['comparisons']} oracle comparisons, "
          f"{agg['events']} API calls, {len(viol)} violations, {time.monotonic()-t0:.1f}s")
    if viol:
        return 1
    if broken or errs or never:
        for b in broken[:3]:
            print("INCONCLUSIVE:", b)
        for b in errs[:3]:
            print("HARNESS ERROR:", b["scenario"], b["index"], b["msg"])
        if never:
            print("INCONCLUSIVE: oracle never reached in", never)
        return 2
    return 0
