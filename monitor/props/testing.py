"""C05-C08, C13, C14: statistical tests, surrogates, faults, seeds, effective
values, degenerate inputs."""
import io
import itertools
import math
import os
import random
import sys
import threading

import numpy as np
from scipy.stats import hypergeom

from ..core import prop, scenario, Skip, same, Violation, short, digest, REPO
from ..catalog import *
from ..gen import *
from .. import refs as R
from .relations import agree
from .system import testable, HASTEST, local_or_refusal, world, fp, warm, outcome, eq, refused

METHODS = ["permutation_test", "bootstrap"]
CTE_KEY = "cte-source-not-resampled"
CTE_TEXT = "CTE test values equal the observed value: the source is not resampled"


def tdraw(r, ms=HASTEST, aps=None, det=True, n=None, extra=True, labels="int"):
    m = pick(r, list(ms))
    ap = pick(r, aps or approaches(m))
    if ap == "nsb" and r.random() < 0.7:
        ap = "discrete"
    return draw(r, m, ap, n=n, labels=labels, det=det, nvars=2, extra=extra)


# --------------------------------------------------------------------- C05
prop("C05", quick=4000, thorough=30000,
     rule="Each case runs tests of a random measure, approach, method and number of tests (explicit or configured, also tiny and with many ties) and recomputes every field of the result from its test values; non-trivial = the test values were compared with all summary fields.",
     assumptions=["the t-score is only compared when the standard deviation is above 1e-9 of the scale of the values"])


def summary(c, t, g, n, method, **ctx):
    v = t.test_values
    c.check(isinstance(v, np.ndarray) and v.shape == (n,) and v.dtype.kind == "f", "shape of the test values", shape=np.shape(v), n=n, **ctx)
    c.check(t.n_tests == n and t.method == method, "test settings in the result", got=(t.n_tests, t.method), want=(n, method), **ctx)
    c.check(same(t.observed_value, g, 0, 0), "observed value is not the global value", got=t.observed_value, want=g, **ctx)
    c.check(isinstance(t.observed_value, float), "observed value is no float", nontrivial=False)
    vs = v.tolist()
    p = sum(1 for x in vs if x > t.observed_value) / n
    c.close(t.p_value, p, "p-value", rtol=1e-12, atol=1e-12, obs=t.observed_value, values=v, **ctx)
    if not np.all(np.isfinite(v)):
        c.tag("nonfinite")
        return
    mean = math.fsum(vs) / n
    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in vs) / (n - 1))
    sc = max(1e-300, max(map(abs, vs)))
    c.close(t.null_mean, mean, "null mean", rtol=1e-9, atol=1e-9 * sc, **ctx)
    c.close(t.null_std, sd, "null standard deviation", rtol=1e-7, atol=1e-9 * sc, **ctx)
    if sd > max(1e-7 * sc, 1e-280) and np.isfinite(t.observed_value):
        c.close(t.t_score, (t.observed_value - mean) / sd, "t-score", rtol=1e-5, atol=1e-6, **ctx)
        c.tag("t-score")
    elif t.null_std == 0:
        c.check(np.isnan(t.t_score), "t-score without spread is not NaN", got=t.t_score, **ctx)
        c.tag("no spread")
    srt = sorted(vs)

    def pct(q):
        h = (n - 1) * q / 100
        lo = min(int(math.floor(h)), n - 2)
        return srt[lo] + (h - lo) * (srt[lo + 1] - srt[lo])

    r = c.rng
    qs = [0.0, 100.0, 50.0] + [float(x) for x in r.uniform(0, 100, 3)]
    c.close(c.call(t.percentile, qs), [pct(q) for q in qs], "percentiles", rtol=1e-9, atol=1e-9 * sc, **ctx)
    c.close(c.call(t.percentile, qs[3]), pct(qs[3]), "single percentile", rtol=1e-9, atol=1e-9 * sc)
    for lv in (95, float(r.uniform(0.5, 99.5))):
        ci = c.call(t.confidence_interval, lv)
        c.close(ci, [pct((100 - lv) / 2), pct(100 - (100 - lv) / 2)], "confidence interval", rtol=1e-9, atol=1e-8 * sc, level=lv, **ctx)
    meth = pick(r, ["lower", "higher", "nearest", "midpoint", "hazen", "weibull", "median_unbiased", "inverted_cdf"])
    c.close(c.call(t.percentile, qs[3:], method=meth), np.percentile(np.array(srt), qs[3:], method=meth), f"percentile method {meth}", rtol=1e-9, atol=1e-9 * sc)
    c.close(c.call(t.confidence_interval, 80, method=meth), np.percentile(np.array(srt), [10, 90], method=meth), f"interval method {meth}", rtol=1e-9, atol=1e-9 * sc)


@scenario("C05", 6)
def fields(c):
    r = c.rng
    q = tdraw(r, det=bool(r.random() < 0.6), n=int(r.integers(10, 45)))
    if r.random() < 0.25:  # heavy ties: tiny binary data
        q = Call(pick(r, ["mi", "te"]), pick(r, ["discrete", "miller_madow"]), [r.integers(0, 2, 6), r.integers(0, 2, 6)], None, {})
    n = int(pick(r, [2, 3, 4, 5, 7, 11, 20, 40]))
    if q.ap == "nsb":
        n = min(n, 3)
    method = pick(r, METHODS)
    b = base(r)
    c.note(**q.note(), n=n, method=method, base=b)
    est = q.est(c, base=b, seed=int(r.integers(1000)))
    first = bool(r.random() < 0.5)
    if first:
        g0 = c.call(est.global_val)
    kw = {}
    if r.random() < 0.4:
        im.Config.set("statistical_test_n_tests", n)
    else:
        kw["n_tests"] = n if r.random() < 0.8 else np.int64(n)
        if r.random() < 0.5:
            im.Config.set("statistical_test_n_tests", n + 3)
    if r.random() < 0.4:
        im.Config.set("statistical_test_method", method)
    else:
        kw["method"] = method
        if r.random() < 0.5:
            im.Config.set("statistical_test_method", METHODS[1 - METHODS.index(method)])
    t = c.call(est.statistical_test, **kw)
    g = c.call(est.global_val)
    if first:
        c.check(same(g, g0, 0, 0), "statistical test changed the global value", m=q.m, ap=q.ap)
    summary(c, t, g, n, method, m=q.m, ap=q.ap)
    if r.random() < 0.3:
        keep = t.test_values.copy()
        t2 = c.call(est.statistical_test, n_tests=3, method=pick(r, METHODS))
        summary(c, t2, g, 3, t2.method, m=q.m, ap=q.ap)
        c.check(np.array_equal(keep, t.test_values, equal_nan=True), "a later test changed an earlier result")
    c.tag(f"{q.m}:{method}")


@scenario("C05", 0.7)
def small_values(c):
    """Measures that are nearly zero for the data and every resample."""
    r = c.rng
    n = int(r.integers(20, 60))
    m = pick(r, ["mi", "te", "cmi"])
    z = r.normal(size=n)
    x, y = r.normal(size=(2, n)) + float(r.uniform(0, 1)) * z
    u = 10.0 ** float(r.uniform(-6, 2))
    q = Call(m, "kernel", [x * u, y * u], z * u if m == "cmi" else None, dict(kernel="gaussian", bandwidth=10.0 ** float(r.uniform(0.5, 4.5)) * (u if r.random() < 0.7 else 1)))
    k = int(r.integers(2, 25))
    method = pick(r, METHODS)
    c.note(**q.note(), n=k, method=method)
    e = q.est(c, seed=int(r.integers(1000)))
    t = c.call(e.statistical_test, n_tests=k, method=method)
    summary(c, t, c.call(e.global_val), k, method, m=m)
    c.tag("small:1e%d" % (5 * round(math.log10(max(1e-30, np.abs(t.test_values).max())) / 5)))


@scenario("C05", 1)
def result_object(c):
    """The summary of given values, through the estimators' own method."""
    r = c.rng
    q = draw(r, "mi", "discrete", n=12, nvars=2, labels="int", extra=False)
    est = q.est(c)
    n = int(r.integers(2, 30))
    v = r.normal(size=n) if r.random() < 0.5 else np.round(r.normal(size=n))
    obs = float(pick(r, [float(v[0]), float(v.max()), float(v.min()), float(r.normal())]))
    if r.random() < 0.5:  # values of any size
        u = 10.0 ** float(r.uniform(-30, 12))
        v, obs = v * u, obs * u
    c.note(v=v, obs=obs)
    t = c.call(est._statistical_test_result, observed_value=obs, test_values=v if r.random() < 0.6 else v.tolist(), n_tests=n, method="bootstrap") if hasattr(est, "_statistical_test_result") else None
    if t is None:  # no such helper: the other scenarios decide
        c.check(True, "", nontrivial=False)
        return
    summary(c, t, obs, n, "bootstrap")


# --------------------------------------------------------------------- C06
prop("C06", quick=700, thorough=9000,
     rule="Each case runs a test on data small enough to enumerate every permutation or resample (4-6 observations, or binary series of any length with enumerable contingency tables) and checks that every test value is the measure of one of them and that their frequencies agree with uniform drawing (6 sigma); non-trivial = the enumerated set has at least two values.",
     assumptions=["uniformity is decided by a six sigma bound on the frequencies of distinct values"])


def perms(n, method):
    if method == "permutation_test":
        return np.array(list(itertools.permutations(range(n))))
    return np.array(list(itertools.product(range(n), repeat=n)))


def null_set(values):
    """Distinct values (merged within tolerance) and their probabilities."""
    v = np.sort(np.asarray(values, dtype=float))
    nan = np.isnan(v)
    fin = v[~nan]
    groups = []
    for x in fin:
        if groups and abs(x - groups[-1][0]) <= 1e-8 * max(1, abs(x)):
            groups[-1][1] += 1
        else:
            groups.append([x, 1])
    if nan.any():
        groups.append([math.nan, int(nan.sum())])
    return [(g[0], g[1] / len(v)) for g in groups]


def against_null(c, tv, groups, what, stat=True, **ctx):
    n = len(tv)
    cnt = [0] * len(groups)
    for x in tv:
        for i, (g, p) in enumerate(groups):
            if (math.isnan(g) and math.isnan(x)) or abs(x - g) <= 1e-6 * max(1, abs(g)):
                cnt[i] += 1
                break
        else:
            raise Violation(f"{what}: test value {x} is not the measure of any surrogate; possible {[round(g, 6) for g, _ in groups][:12]} {short(ctx)}")
    c.comparisons += n
    if len(groups) > 1:
        c.nontrivial = True
    if stat and n >= 30:
        for (g, p), k in zip(groups, cnt):
            dev = abs(k - n * p)
            c.check(dev <= 6.5 * math.sqrt(n * p * (1 - p)) + 4, f"{what}: surrogates are not drawn uniformly", nontrivial=False, value=g, expected=n * p, observed=k, tests=n, **ctx)
        c.tag("uniformity")
    c.tag("null values", len(groups))


MI_APS = DISC_A + ["ordinal", "ksg", "kernel", "renyi", "tsallis"]


@scenario("C06", 4)
def mi_small(c):
    r = c.rng
    m = pick(r, ["mi", "cmi"])
    ap = pick(r, MI_APS)
    method = pick(r, METHODS)
    if ap in ("renyi", "tsallis", "ordinal") or (ap == "nsb"):
        method = "permutation_test"
    n = 5 if method == "permutation_test" else 4
    if ap == "nsb":
        n = 4
    if ap == "ordinal":
        n = 6
    kw = {}
    disc_ = kindof(ap) == "disc"
    if ap == "bayes":
        kw["alpha"] = pick(r, [0.5, 1.0])
    elif ap == "ordinal":
        kw["embedding_dim"] = int(pick(r, [2, 3]))
    elif ap == "ksg":
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, ksg_id=int(pick(r, [1, 2])))
    elif ap == "kernel":
        kw.update(kernel="box", bandwidth=float(r.uniform(0.5, 2)))
    elif not disc_:
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, **{"alpha" if ap == "renyi" else "q": float(pick(r, [0.5, 1.0, 1.5]))})
    mk = (lambda k: r.integers(0, 3, k)) if disc_ else (lambda k: r.normal(size=k))
    off = int(pick(r, [0, 0, 1, -1])) if m == "mi" else 0
    N = n + abs(off)
    x, y, z = mk(N), mk(N), mk(N)
    if r.random() < 0.4 and not disc_ and ap in ("ksg", "kernel"):
        y = np.column_stack([y, mk(N)])
    if off:
        kw["offset"] = off
    b = base(r)
    xe, ye = R.shift(x, y, off)
    c.note(m=m, ap=ap, kw=kw, x=x, y=y, z=z, method=method)
    k2 = {k: v for k, v in kw.items() if k != "offset"}
    if m == "cmi":
        k2["cond"] = z
        kw["cond"] = z
    P = perms(n, method)
    if ap == "ordinal" and len(P) > 200:
        pass
    vals = [c.call(getattr(im, m), xe[p], ye, approach=ap, base=b, **k2) for p in P]
    groups = null_set(vals)
    T = 200 if disc_ and ap != "nsb" else 60 if ap != "nsb" else 8
    e = c.call(im.estimator, x, y, measure=m, approach=ap, base=b, seed=int(r.integers(10**6)), **kw)
    if r.random() < 0.5:
        c.call(e.global_val)
    t = c.call(e.statistical_test, n_tests=T, method=method)
    against_null(c, t.test_values, groups, f"{m} {ap} {method}", m=m, ap=ap, kw=kw)
    c.tag(f"{m}:{ap}:{method}")


@scenario("C06", 3)
def te_small(c):
    """One source history element per row: a surrogate is a permuted series."""
    r = c.rng
    m = pick(r, ["te", "te", "te", "cte"])
    ap = pick(r, DISC_A + ["ksg", "kernel", "renyi", "tsallis"])
    method = pick(r, METHODS)
    if ap in ("renyi", "tsallis", "nsb"):
        method = "permutation_test"
    rows = 4 if method == "bootstrap" or ap == "nsb" else 5
    disc_ = kindof(ap) == "disc"
    kw = {}
    if ap == "bayes":
        kw["alpha"] = pick(r, [0.5, 1.0])
    elif ap == "ksg":
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, ksg_id=int(pick(r, [1, 2])))
    elif ap == "kernel":
        kw.update(kernel="box", bandwidth=float(r.uniform(0.5, 2)))
    elif not disc_:
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, **{"alpha" if ap == "renyi" else "q": float(pick(r, [0.5, 1.0, 1.5]))})
    d = int(pick(r, [1, 1, 2]))
    cl = int(pick(r, [1, 2])) if m == "cte" else 1
    step = int(pick(r, [1, 1, 2]))
    prop_t = int(pick(r, [0, 0, 1, -1])) if m == "te" else 0
    mx = max(1, d, cl if m == "cte" else 1)
    n_eff = mx * step + (rows - 1) * step + 1
    n = n_eff + abs(prop_t) * step
    mk = (lambda k: r.integers(0, 3, k)) if disc_ else (lambda k: r.normal(size=k))
    x, y, z = mk(n), mk(n), mk(n)
    b = base(r)
    ek = dict(dest_hist_len=d, step_size=step, **({"prop_time": prop_t} if m == "te" else {"cond": z, "cond_hist_len": cl}))
    pos = np.arange(mx * step, n_eff, step) - step + (abs(prop_t) * step if prop_t < 0 else 0)
    c.note(m=m, ap=ap, kw=kw, ek=ek, x=x, y=y, method=method)
    P = perms(rows, method)
    vals = []
    for p in P:
        xs = x.copy()
        xs[pos] = x[pos][p]
        vals.append(c.call(getattr(im, m), xs, y, approach=ap, base=b, **kw, **ek))
    groups = null_set(vals)
    T = 200 if disc_ and ap != "nsb" else 60 if ap != "nsb" else 8
    e = c.call(im.estimator, x, y, measure=m, approach=ap, base=b, seed=int(r.integers(10**6)), **kw, **ek)
    if r.random() < 0.5:
        c.call(e.global_val)
    t = c.call(e.statistical_test, n_tests=T, method=method)
    if m == "cte" and same(t.test_values, np.full(T, t.observed_value)):
        if len(groups) > 1:
            c.known_finding(CTE_KEY, CTE_TEXT)
            c.check(True, "")
        return
    against_null(c, t.test_values, groups, f"{m} {ap} {method}", m=m, ap=ap, kw=kw, ek={k: v for k, v in ek.items() if k != "cond"})
    c.tag(f"{m}:{ap}:{method}")


@scenario("C06", 2)
def te_rows(c):
    """Longer source histories: rows of the embedding are permuted intact."""
    r = c.rng
    ap = pick(r, ["discrete", "discrete", "ordinal", "ksg"])
    method = pick(r, METHODS) if ap != "ordinal" else "permutation_test"
    rows = 4 if method == "bootstrap" else 5
    s, d = int(pick(r, [2, 2, 3])), int(pick(r, [1, 2]))
    step = int(pick(r, [1, 2])) if ap != "ordinal" else 1
    n = max(s, d) * step + (rows - 1) * step + 1
    kw = {}
    if ap == "ordinal":
        kw["embedding_dim"] = 2
        x, y = r.permutation(n + 1), r.permutation(n + 1)
        X, Y = R.patterns(x, 2), R.patterns(y, 2)
    elif ap == "ksg":
        kw.update(k=1, noise_level=0)
        x, y = r.normal(size=n), r.normal(size=n)
    else:
        x, y = r.integers(0, 2, n), r.integers(0, 2, n)
        X, Y = R.sym(x), R.sym(y)
    ek = dict(src_hist_len=s, dest_hist_len=d, step_size=step)
    c.note(ap=ap, kw=kw, ek=ek, x=x, y=y, method=method)
    P = perms(rows, method)
    if ap == "ksg":
        from .continuous import ksg_ref

        S, F, D = R.embed_arr(x, y, s, d, step)
        vals = [float(np.mean(ksg_ref([S[p], F], 1, np.inf, 1, D))) for p in P]
    else:
        S, F, D = R.embed(X, Y, s, d, step)
        vals = [R.CMI([[S[i] for i in p], F], D) for p in P]
    groups = null_set(vals)
    e = c.call(im.estimator, x, y, measure="te", approach=ap, seed=int(r.integers(10**6)), **kw, **ek)
    T = 150 if ap != "ksg" else 40
    t = c.call(e.statistical_test, n_tests=T, method=method)
    against_null(c, t.test_values, groups, f"te {ap} {method} with histories", ek=ek)
    c.tag(f"te-rows:{ap}:{method}")


@scenario("C06", 2)
def binary(c):
    """Binary series of any length: the table is a function of the overlap."""
    r = c.rng
    n = int(r.integers(20, 250))
    method = pick(r, METHODS)
    x = (r.random(n) < r.uniform(0.15, 0.85)).astype(int)
    y = np.where(r.random(n) < 0.5, x, (r.random(n) < 0.5).astype(int))
    if x.min() == x.max() or y.min() == y.max():
        raise Skip("constant")
    a, b_ = int(x.sum()), int(y.sum())

    def f(k, a=a):
        tab = [k, a - k, b_ - k, n - a - b_ + k]
        hx = sum(-v / n * math.log(v / n) for v in (a, n - a) if v)
        hy = sum(-v / n * math.log(v / n) for v in (b_, n - b_) if v)
        return hx + hy - sum(-v / n * math.log(v / n) for v in tab if v)

    c.note(x=x, y=y, method=method)
    e = c.call(im.estimator, x, y, measure="mi", approach="discrete", seed=int(r.integers(10**6)))
    T = 150
    t = c.call(e.statistical_test, n_tests=T, method=method)
    if method == "permutation_test":
        lo, hi = max(0, a + b_ - n), min(a, b_)
        ks = range(lo, hi + 1)
        pm = hypergeom(n, a, b_).pmf(list(ks))
        vals = {}
        for k, p in zip(ks, pm):
            key = round(f(k), 9)
            vals[key] = vals.get(key, 0) + float(p)
        groups = sorted(vals.items())
        against_null(c, t.test_values, groups, "binary MI permutation", n=n)
        mu = sum(v * p for v, p in groups)
        sd = math.sqrt(max(0.0, sum(v * v * p for v, p in groups) - mu * mu))
        c.check(abs(t.null_mean - mu) <= 7 * sd / math.sqrt(T) + 1e-9, "mean of the permutation null", got=t.null_mean, want=mu, sd=sd)
    else:
        ok = set()
        for a2 in range(n + 1):
            for k in range(max(0, a2 + b_ - n), min(a2, b_) + 1):
                ok.add(round(f(k, a2), 8))
        for v in t.test_values:
            c.check(any(round(v + s, 8) in ok for s in (0, 1e-9, -1e-9)), "bootstrap value is no table with the target's marginal", v=v, n=n)
        pa = a / n
        m2 = (n - 1) / (2 * n * n) if False else None
        # the null mean of n * MI is close to 1/2 for two binary variables
        if min(a, n - a, b_, n - b_) > 15:
            c.check(0.15 < n * t.null_mean < 1.3, "mean of the bootstrap null", got=n * t.null_mean)
    c.tag("binary:" + method)


@scenario("C06", 2)
def distinct_draws(c):
    """Different tests use different draws, in every measure with tests."""
    r = c.rng
    q = tdraw(r, ("mi", "cmi", "te"), n=int(r.integers(60, 90)), det=True, extra=False)
    if q.ap == "nsb":
        raise Skip("slow")
    if q.ap == "kernel":
        q.kw["bandwidth"] = 1.0
    if q.kind == "disc":  # enough states that resamples differ
        f = lambda: codes(r, 60, 5, "iid")
        q = q.with_data([f(), f()], None if q.cond is None else codes(r, 60, 3, "iid"))
    if q.ap == "ordinal":
        q.kw["embedding_dim"] = 3
    method = pick(r, METHODS)
    c.note(**q.note(), method=method)
    t = c.call(q.est(c, seed=int(r.integers(10**6))).statistical_test, n_tests=12, method=method)
    v = t.test_values
    if not np.all(np.isfinite(v)):
        raise Skip("non-finite null")
    u = len(np.unique(np.round(v, 12)))
    c.check(u >= 3, "the tests do not use different draws", m=q.m, ap=q.ap, kw=q.kw, values=v)
    c.check(u > 1 and not all(abs(x - t.observed_value) < 1e-12 for x in v), "test values equal the observed value", m=q.m, ap=q.ap)
    c.tag(f"draws:{q.m}:{q.ap}")


@scenario("C06", 1)
def coupling(c):
    """Strong coupling is destroyed by the surrogates, and only by them."""
    r = c.rng
    m = pick(r, ["mi", "te"])
    ap = pick(r, ["discrete", "miller_madow", "grassberger", "bayes", "ordinal", "ksg", "kernel", "zhang"])
    n = 400
    if kindof(ap) == "disc":
        x = r.integers(0, 2, n)
        y = np.roll(x, 1) if m == "te" else x.copy()
    else:
        x = r.normal(size=n)
        y = (np.roll(x, 1) if m == "te" else x) + 0.05 * r.normal(size=n)
    kw = dict(alpha=1.0) if ap == "bayes" else dict(embedding_dim=2) if ap == "ordinal" else dict(bandwidth=0.5, kernel="box") if ap == "kernel" else dict(k=4) if ap == "ksg" else {}
    method = pick(r, METHODS)
    c.note(m=m, ap=ap, kw=kw, x=x, y=y, method=method)
    e = c.call(im.estimator, x, y, measure=m, approach=ap, seed=3, **kw)
    t = c.call(e.statistical_test, n_tests=6, method=method)
    c.check(t.p_value == 0 and max(t.test_values) < 0.5 * t.observed_value, "surrogates keep the coupling", m=m, ap=ap, obs=t.observed_value, values=t.test_values)


@scenario("C06", 0, once=True)
def cte_probe(c):
    r = c.rng
    x = r.integers(0, 2, 200)
    y = np.roll(x, 1)
    z = r.integers(0, 2, 200)
    c.note(x=x, y=y, z=z)
    for method in METHODS:
        t = c.call(c.call(im.estimator, x, y, cond=z, measure="cte", approach="discrete", seed=1).statistical_test, n_tests=5, method=method)
        c.check(len(t.test_values) == 5, "number of test values")
        if all(abs(v - t.observed_value) < 1e-12 for v in t.test_values):
            c.known_finding(CTE_KEY, CTE_TEXT)


# --------------------------------------------------------------------- C07
prop("C07", quick=700, thorough=15000, level="fault_enumeration",
     rule="Each case runs a query sequence once to count the calls into NumPy/SciPy made on behalf of the package, then repeats it raising an exception (MemoryError, KeyboardInterrupt, FloatingPointError, a private error) at 4 to 12 of these points, and compares exception, caller data, settings, random state and the values of every later query with an undisturbed run; non-trivial = at least one exception was injected and reached the caller.",
     assumptions=["faults are raised at entry to or return from library (NumPy/SciPy/builtin) calls made by the package, where memory errors and interrupts are delivered"])


class Boom(Exception):
    pass


class Injector:
    """Raise an exception at the n-th library call made by package code.

    Not while a context manager of a library is entered or left: no code can
    undo a manager whose own `__exit__` was interrupted."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.fired = at, exc, 0, False
        self.pkg = os.path.join(os.path.realpath(REPO), "infomeasure") + os.sep

    def lib(self, frame, event, arg):
        if event == "c_call":
            if not os.path.realpath(frame.f_code.co_filename).startswith(self.pkg):
                return False
            if getattr(arg, "__name__", "") in ("__enter__", "__exit__"):
                return False
            mod = getattr(arg, "__module__", None) or type(getattr(arg, "__self__", None)).__module__ or ""
            return mod.split(".")[0] in ("numpy", "scipy", "_ckdtree")
        if event in ("call", "return"):
            b = frame.f_back
            if b is None or not b.f_code.co_filename.startswith(self.pkg):
                return False
            fn = frame.f_code.co_filename
            if frame.f_code.co_name in ("__enter__", "__exit__"):
                return False
            return "/numpy/" in fn or "/scipy/" in fn or fn.startswith("<__array_function__")
        return False

    def __call__(self, frame, event, arg):
        if self.fired or not self.lib(frame, event, arg):
            return
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise self.exc

    def run(self, fn):
        sys.setprofile(self)
        try:
            return fn()
        finally:
            sys.setprofile(None)


FAULTS = [lambda: Boom("injected"), lambda: MemoryError("injected"), lambda: KeyboardInterrupt("injected"), lambda: FloatingPointError("injected"), lambda: ValueError("injected-value")]


def inject(c, fn, k, exc):
    inj = Injector(k, exc)
    c.events += 1
    try:
        inj.run(fn)
    except BaseException as e:  # noqa
        if e is exc:
            c.tag("reached caller:" + type(exc).__name__)
            return True
        if inj.fired and not isinstance(e, (KeyboardInterrupt, SystemExit)) and (e.__context__ is exc or e.__cause__ is exc):
            c.tag("translated")
            return True
        raise Violation(f"injected {exc!r} became {e!r}")
    if inj.fired:
        raise Violation(f"injected {exc!r} at library call {k} was swallowed and a value returned")
    return False


@scenario("C07", 3)
def tests(c):
    """Interrupted statistical tests and effective values."""
    r = c.rng
    warm()
    q = tdraw(r, n=int(r.integers(12, 26)), det=True)
    if q.ap == "nsb":
        raise Skip("slow under tracing")
    method = pick(r, METHODS)
    what = pick(r, ["test", "test", "eff"]) if q.m in ("te", "cte") else "test"
    c.note(**q.note(), method=method, what=what)
    ref = q.copy().est(c)
    g0, l0 = c.call(ref.global_val), local_or_refusal(c, ref)
    guard = [a for v in q.data for a in (v if isinstance(v, tuple) else (v,))] + ([q.cond] if q.cond is not None else [])

    def op(e):
        if what == "eff":
            return lambda: e.effective_val(method=method)
        return lambda: e.statistical_test(n_tests=3, method=method)

    e = q.est(c, seed=7)
    cnt = Injector()
    full = cnt.run(op(e))
    want = None if what == "eff" else full.test_values
    N = cnt.n
    if N == 0:
        raise Skip("no library call")
    c.tag("injection points", N)
    f0, w0 = fp(guard), world()
    bad = []
    pts = sorted(set(int(v) for v in r.integers(1, N + 1, 12 if c.tier == "thorough" else 6)))
    for k in pts:
        e = q.est(c, seed=7)
        if r.random() < 0.5:
            c.call(e.global_val)
        exc = pick(r, FAULTS)()
        if not inject(c, op(e), k, exc):
            continue
        c.check(fp(guard) == f0, "caller data changed by an interrupted test", m=q.m, ap=q.ap, k=k)
        w1 = world()
        c.check(w1 == w0, "process state changed by an interrupted test", m=q.m, ap=q.ap, diff={a: (w0[a], w1[a]) for a in w0 if w0[a] != w1[a]})
        agree(c, c.call(e.global_val), g0, f"global value after a test interrupted at library call {k}/{N}", q.ap, m=q.m, kw=q.kw, method=method)
        lv = local_or_refusal(c, e)
        c.check((lv is None) == (l0 is None), "local values unavailable after an interrupted test")
        if l0 is not None:
            c.close(lv, l0, f"local values after a test interrupted at library call {k}/{N}", m=q.m, ap=q.ap, method=method)
        t = c.call(e.statistical_test, n_tests=2, method=pick(r, METHODS))
        agree(c, t.observed_value, g0, "observed value after an interrupted test", q.ap, m=q.m)
        fresh = q.est(c, seed=7)
        if want is not None:
            again = c.call(op(fresh))
            c.close(again.test_values, want, "a fresh test after an interrupted one", m=q.m, ap=q.ap)
    c.tag(f"{what}:{q.m}")


@scenario("C07", 2)
def values(c):
    """Interrupted values and local values of every measure."""
    r = c.rng
    warm()
    q = draw(r, labels=pick(r, ["int", None]), det=True, n=int(r.integers(12, 30)))
    if q.ap == "nsb" and r.random() < 0.8:
        raise Skip("slow under tracing")
    c.note(**q.note())
    obj = q.m not in ("kld", "jsd")
    v0 = q.copy().run(c)
    l0 = local_or_refusal(c, q.copy().est(c)) if obj else None
    guard = [a for v in q.data for a in (v if isinstance(v, tuple) else (v,))] + ([q.cond] if q.cond is not None else [])
    f0, w0 = fp(guard), world()
    order = pick(r, ["gl", "lg"])

    def op(e):
        def go():
            for s in order:
                if s == "g":
                    e.global_val()
                else:
                    try:
                        e.local_vals()
                    except refused():
                        pass
        return go

    mk = lambda: q.est(c) if obj else None
    fn = (lambda e: op(e)) if obj else (lambda e: (lambda: getattr(im, q.m)(*q.data, **q.kwargs())))
    cnt = Injector()
    cnt.run(fn(mk()))
    N = cnt.n
    if N == 0:
        raise Skip("no library call")
    c.tag("injection points", N)
    for k in sorted(set(int(v) for v in r.integers(1, N + 1, 10 if c.tier == "thorough" else 5))):
        e = mk()
        # NSB reports a failing quadrature as NaN, so only interrupts there
        if not inject(c, fn(e), k, pick(r, FAULTS[2:3] if q.ap == "nsb" else FAULTS[:4])()):
            continue
        c.check(fp(guard) == f0, "caller data changed by an interrupted call", m=q.m, ap=q.ap, k=k)
        w1 = world()
        c.check(w1 == w0, "process state changed by an interrupted call", m=q.m, ap=q.ap, diff={a: (w0[a], w1[a]) for a in w0 if w0[a] != w1[a]})
        agree(c, q.run(c), v0, f"fresh value after an interruption at library call {k}/{N}", q.ap, m=q.m, kw=q.kw)
        if obj:
            agree(c, c.call(e.global_val), v0, f"value of an object interrupted at library call {k}/{N}", q.ap, m=q.m, kw=q.kw)
            lv = local_or_refusal(c, e)
            if l0 is not None and lv is not None:
                c.close(lv, l0, f"local values of an object interrupted at library call {k}/{N}", m=q.m, ap=q.ap)
            c.check((lv is None) == (l0 is None), "availability of local values after an interruption")
    c.tag(f"value:{q.m}")


@scenario("C07", 1)
def null_after(c):
    """Later tests of an interrupted object still resample the original data."""
    r = c.rng
    m = pick(r, ["mi", "cmi", "te"])
    n = 5
    x, y, z = (r.integers(0, 3, n + (m == "te")) for _ in range(3))
    kw = dict(cond=z) if m == "cmi" else {}
    pos = np.arange(n)
    vals = []
    for p in itertools.permutations(range(n)):
        xs = x.copy()
        xs[pos] = x[pos][list(p)]
        vals.append(c.call(getattr(im, m), xs, y, approach="discrete", **kw))
    groups = null_set(vals)
    e = c.call(im.estimator, x, y, measure=m, approach="discrete", seed=int(r.integers(1000)), **kw)
    cnt = Injector()
    cnt.run(lambda: e.statistical_test(n_tests=6, method="permutation_test"))
    c.note(m=m, x=x, y=y, z=z)
    for k in sorted(set(int(v) for v in r.integers(1, cnt.n + 1, 4))):
        inject(c, lambda: e.statistical_test(n_tests=6, method=pick(r, METHODS)), k, pick(r, FAULTS)())
        t = c.call(e.statistical_test, n_tests=40, method="permutation_test")
        against_null(c, t.test_values, groups, f"{m} test after an interrupted test")
        agree(c, t.observed_value, c.call(getattr(im, m), x, y, approach="discrete", **kw), "observed value", "discrete")


@scenario("C07", 1)
def errors(c):
    """Operations that fail by themselves leave the object usable."""
    r = c.rng
    q = tdraw(r, n=int(r.integers(12, 30)), det=True)
    c.note(**q.note())
    e = q.est(c, seed=1)
    g0 = q.copy().run(c)
    for _ in range(4):
        k = pick(r, ["method", "count", "one", "kw"])
        if k == "method":
            c.raises((ValueError, TypeError), e.statistical_test, n_tests=3, method="nope")
        elif k == "count":
            c.raises((ValueError, TypeError), e.statistical_test, n_tests=-1)
        elif k == "one":
            c.raises(ValueError, e.statistical_test, n_tests=1, method=pick(r, METHODS))
        else:
            c.raises(TypeError, e.statistical_test, tests=3)
        agree(c, c.call(e.global_val), g0, "value after a failed test", q.ap, m=q.m)
    t = c.call(e.statistical_test, n_tests=2)
    agree(c, t.observed_value, g0, "observed value after failed tests", q.ap, m=q.m)
    lv = local_or_refusal(c, e)
    l0 = local_or_refusal(c, q.copy().est(c))
    c.check((lv is None) == (l0 is None), "availability of local values")
    if l0 is not None:
        c.close(lv, l0, "local values after failed tests", m=q.m, ap=q.ap)


# --------------------------------------------------------------------- C08
prop("C08", quick=2400, thorough=25000,
     rule="Each case repeats a randomized request (noise-perturbed estimate, test, effective value, in random order) with equal and different seeds under scrambled global random states and compares bit for bit; non-trivial = a randomized result was reproduced, or a deterministic one repeated under different global states.",
     assumptions=["the Kozachenko-Leonenko and other entropies take no seed; their noise is only required to be absent when the noise level is 0"])


def scramble(r):
    np.random.seed(int(r.integers(2**31)))
    random.seed(int(r.integers(2**31)))
    np.random.random(int(r.integers(1, 9)))


def exact(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


@scenario("C08", 5)
def reproducible(c):
    r = c.rng
    q = tdraw(r, det=bool(r.random() < 0.3), n=int(r.integers(14, 40)))
    if not q.kind == "disc" and "noise_level" not in q.kw and q.ap in ("ksg", "renyi", "tsallis") and r.random() < 0.6:
        q.kw["noise_level"] = float(pick(r, [1e-3, 0.05]))
    seed = int(r.integers(2**31)) if r.random() < 0.8 else 0
    forms = [lambda: seed, lambda: np.int64(seed), lambda: np.random.default_rng(seed), lambda: np.random.SeedSequence(seed)]
    ops = [pick(r, ["g", "p", "b", "e", "l"]) for _ in range(int(r.integers(2, 6)))]
    if "e" in ops and q.m not in ("te", "cte"):
        ops = ["p" if o == "e" else o for o in ops]
    c.note(**q.note(), seed=seed, ops=ops)
    ref = None
    for i in range(3):
        scramble(r)
        s = forms[0]() if i == 0 else pick(r, forms)()
        e = c.call(im.estimator, *q.data, measure=q.m, **q.kwargs(seed=s))
        out = []
        for o in ops:
            if o == "g":
                out.append(c.call(e.global_val))
            elif o == "l":
                lv = local_or_refusal(c, e)
                out.append(None if lv is None else np.array(lv))
            elif o == "e":
                out.append(c.call(e.effective_val, method="bootstrap"))
            else:
                out.append(c.call(e.statistical_test, n_tests=3, method=METHODS["pb".index(o)]).test_values)
            scramble(r)
        if ref is None:
            ref = out
            continue
        for o, a, b in zip(ops, out, ref):
            c.check((a is None) == (b is None) and (a is None or exact(a, b)), "not reproducible with equal seeds", m=q.m, ap=q.ap, kw=q.kw, op=o, ops=ops, a=a, b=b, seed=type(s).__name__)
    scramble(r)
    if ops[0] == "g":
        c.check(exact(c.call(getattr(im, q.m), *q.data, **q.kwargs(seed=seed)), ref[0]), "functional value with the same seed differs", m=q.m, ap=q.ap, kw=q.kw)
    c.tag(f"{q.m}:{q.ap}")


@scenario("C08", 2)
def different(c):
    """Different seeds give different resamples and noise."""
    r = c.rng
    m = pick(r, ["mi", "cmi", "te"])
    ap = pick(r, ["discrete", "miller_madow", "grassberger", "chao_shen", "bayes", "ordinal", "ksg", "kernel", "renyi", "tsallis"])
    q = draw(r, m, ap, n=60, labels="int", det=True, nvars=2, extra=False)
    if q.kind == "disc":
        q = q.with_data([codes(r, 60, 5, "iid"), codes(r, 60, 5, "iid")], None if q.cond is None else codes(r, 60, 3, "iid"))
    if ap == "ordinal":
        q.kw["embedding_dim"] = 3
    method = pick(r, METHODS)
    c.note(**q.note(), method=method)
    got = []
    for s in (0, 1, 2, None):
        np.random.seed(4)
        t = c.call(c.call(im.estimator, *q.data, measure=m, **q.kwargs(seed=s)).statistical_test, n_tests=10, method=method)
        got.append(t.test_values)
    for i in range(4):
        for j in range(i):
            c.check(not exact(got[i], got[j]), "different seeds draw the same resamples", m=m, ap=ap, kw=q.kw, method=method, values=got[i])
    if ap in ("ksg", "renyi", "tsallis"):
        kw = {**q.kwargs(), "noise_level": 0.1}
        a, b = (c.call(getattr(im, m), *q.data, seed=s, **kw) for s in (0, 1))
        c.check(a != b, "different seeds add the same noise", m=m, ap=ap, a=a, b=b)
        c.check(c.call(getattr(im, m), *q.data, seed=0, **kw) == a, "same seed adds different noise", m=m, ap=ap)


@scenario("C08", 2)
def deterministic(c):
    """Without noise nothing is random, seed or not."""
    r = c.rng
    q = draw(r, labels=pick(r, ["int", None]), det=True, n=int(r.integers(14, 60)))
    c.note(**q.note())
    scramble(r)
    a = q.run(c)
    for i in range(2):
        scramble(r)
        b = q.run(c, **({"seed": int(r.integers(100))} if i and q.m in HASTEST else {}))
        c.check(exact(a, b) or same(a, b, 1e-12, 1e-12), "noise-free value is random", m=q.m, ap=q.ap, kw=q.kw, a=a, b=b)
    if np.isfinite(a) and a:
        c.nontrivial = True


@scenario("C08", 1)
def noise_small(c):
    """The default noise is negligible and unbiased; data are perturbed, not replaced."""
    r = c.rng
    m = pick(r, ["mi", "cmi", "te", "cte", "h"])
    ap = "kl" if m == "h" else pick(r, ["ksg", "renyi", "tsallis"])
    q = draw(r, m, ap, n=50, det=True, nvars=2, extra=False)
    q.kw.pop("normalize", None)
    c.note(**q.note())
    a = q.run(c)
    kw = {k: v for k, v in q.kwargs().items() if k != "noise_level"}
    b = c.call(getattr(im, m), *q.data, **kw)
    tol = 1e-3 if ap != "ksg" else 0.2
    c.check(abs(a - b) < tol * max(1, abs(a)), "default noise changes the value", m=m, ap=ap, a=a, b=b, kw=q.kw)
    big = c.call(getattr(im, m), *q.data, **{**kw, "noise_level": 100.0})
    c.check(big != a, "noise level has no effect", m=m, ap=ap)


# --------------------------------------------------------------------- C13
prop("C13", quick=700, thorough=15000,
     rule="Each case asks for effective transfer entropies of data whose surrogates can be enumerated (or of larger data with the same seed) and checks global minus effective against the set of surrogate values, the object's other answers before and after, and the configured default method; non-trivial = the surrogate set has at least two values.",
     assumptions=["one fresh surrogate is drawn per call"])


@scenario("C13", 4)
def enumerated(c):
    r = c.rng
    m = pick(r, ["te", "te", "te", "cte"])
    ap = pick(r, DISC_A + ["ksg", "kernel", "renyi", "tsallis"])
    method = pick(r, METHODS) if ap not in ("renyi", "tsallis", "nsb") else "permutation_test"
    rows = 4 if method == "bootstrap" or ap == "nsb" else 5
    disc_ = kindof(ap) == "disc"
    kw = {}
    if ap == "bayes":
        kw["alpha"] = pick(r, [0.5, 1.0])
    elif ap == "ksg":
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, ksg_id=int(pick(r, [1, 2])))
    elif ap == "kernel":
        kw.update(kernel="box", bandwidth=float(r.uniform(0.5, 2)))
    elif not disc_:
        kw.update(k=int(pick(r, [1, 2])), noise_level=0, **{"alpha" if ap == "renyi" else "q": float(pick(r, [0.5, 1.0, 1.5]))})
    d = int(pick(r, [1, 2]))
    n = rows + d
    mk = (lambda k: r.integers(0, 3, k)) if disc_ else (lambda k: r.normal(size=k))
    x, y, z = mk(n), mk(n), mk(n)
    b = base(r)
    ek = dict(dest_hist_len=d, **({"cond": z} if m == "cte" else {}))
    c.note(m=m, ap=ap, kw=kw, d=d, x=x, y=y, z=z, method=method)
    pos = np.arange(d, n) - 1
    vals = []
    for p in perms(rows, method):
        xs = x.copy()
        xs[pos] = x[pos][p]
        vals.append(c.call(getattr(im, m), xs, y, approach=ap, base=b, **kw, **ek))
    groups = null_set(vals)
    e = c.call(im.estimator, x, y, measure=m, approach=ap, base=b, seed=int(r.integers(10**6)), **kw, **ek)
    g = c.call(getattr(im, m), x, y, approach=ap, base=b, **kw, **ek)
    before = bool(r.random() < 0.5)
    if before:
        agree(c, c.call(e.global_val), g, "global value", ap)
        l0 = local_or_refusal(c, e)
        l0 = None if l0 is None else np.array(l0)
    if r.random() < 0.4:
        c.call(e.effective_val, method=METHODS[1 - METHODS.index(method)])
    if r.random() < 0.4:
        im.Config.set("statistical_test_method", method)
        effs = [c.call(e.effective_val) for _ in range(4)]
    else:
        effs = [c.call(e.effective_val, method=method) for _ in range(4)]
    for v in effs:
        c.check(np.ndim(v) == 0 and isinstance(v, (float, np.floating)), "effective value is no scalar", v=v)
    agree(c, c.call(e.global_val), g, "global value after effective values", ap)
    if before:
        l1 = local_or_refusal(c, e)
        c.check((l0 is None) == (l1 is None) and (l0 is None or same(l0, l1)), "effective value changed the local values", ap=ap)
    if m == "cte" and all(abs(v) < 1e-12 for v in effs):
        if len(groups) > 1:
            c.known_finding(CTE_KEY, CTE_TEXT)
        c.check(True, "")
        return
    if math.isnan(g):
        raise Skip("NaN value")
    against_null(c, [g - v for v in effs], groups, f"effective {m} {ap} {method}", stat=False)
    c.tag(f"{m}:{ap}:{method}")


@scenario("C13", 2)
def same_stream(c):
    """The effective value subtracts the first surrogate of the seeded stream."""
    r = c.rng
    q = tdraw(r, ("te", "cte"), n=int(r.integers(16, 50)), det=True)
    if q.ap == "nsb":
        raise Skip("slow")
    method = pick(r, METHODS)
    b = base(r)
    seed = int(r.integers(1000))
    c.note(**q.note(), method=method, base=b)
    v = c.call(q.est(c, base=b, seed=seed).effective_val, method=method)
    t = c.call(q.est(c, base=b, seed=seed).statistical_test, n_tests=2, method=method)
    agree(c, v, t.observed_value - t.test_values[0], "effective value vs first test value", q.ap, m=q.m, kw=q.kw)
    agree(c, t.observed_value, q.run(c, base=b), "observed value", q.ap)


@scenario("C13", 2)
def both_methods(c):
    """Every call honours the method it was given, also on an object that has
    answered for the other method (or another default) before."""
    r = c.rng
    q = tdraw(r, ("te",), n=int(r.integers(40, 70)), det=True, aps=[a for a in approaches("te") if a not in ("nsb", "ansb")])
    order = [METHODS[int(i)] for i in r.permutation(2)]
    conf = [bool(b) for b in r.random(2) < 0.3]
    c.note(**q.note(), order=order, conf=conf)
    same_n, k = 0, 3
    for _ in range(k):
        e = q.est(c, seed=int(r.integers(10**6)))
        out = []
        for method, viaconf in zip(order, conf):
            if viaconf:
                im.Config.set("statistical_test_method", method)
                out.append(c.call(e.effective_val))
            else:
                out.append(c.call(e.effective_val, method=method))
        if not all(map(math.isfinite, out)):
            raise Skip("not finite")
        same_n += out[0] == out[1]
    if same_n == k:
        # equal for every seed: only right if both kinds of surrogates cannot differ
        t = [c.call(q.est(c, seed=5).statistical_test, n_tests=20, method=m).test_values for m in METHODS]
        c.check(len(set(t[0]) | set(t[1])) <= 2, "the second method gives the value of the first", q=q.kw, m=q.m, ap=q.ap, order=order)
    else:
        c.check(True, "")
    c.tag(f"both:{q.ap}:{order[0]}")


@scenario("C13", 2)
def strong(c):
    """Strong one-way coupling survives, absent coupling does not."""
    r = c.rng
    ap = pick(r, ["discrete", "miller_madow", "grassberger", "zhang", "bayes", "chao_shen", "ordinal", "ksg", "kernel", "bonachela", "shrink"])
    n = 600
    if kindof(ap) == "disc":
        x = r.integers(0, 2, n)
        y = np.roll(x, 1)
    else:
        x = r.normal(size=n)
        y = np.roll(x, 1) + 0.05 * r.normal(size=n)
    kw = dict(alpha=0.5) if ap == "bayes" else dict(embedding_dim=2) if ap == "ordinal" else dict(bandwidth=0.5, kernel="box") if ap == "kernel" else dict(k=4) if ap == "ksg" else {}
    method = pick(r, METHODS)
    c.note(ap=ap, kw=kw, x=x, method=method)
    e = c.call(im.estimator, x, y, measure="te", approach=ap, seed=int(r.integers(1000)), **kw)
    g, v = c.call(e.global_val), c.call(e.effective_val, method=method)
    c.check(v > 0.5 * g > 0, "effective TE of a strong coupling", ap=ap, g=g, eff=v)
    if kindof(ap) == "disc":
        u = r.integers(0, 2, n)
        e = c.call(im.estimator, u, y, measure="te", approach=ap, seed=int(r.integers(1000)), **kw)
        c.check(abs(c.call(e.effective_val, method=method)) < 0.1, "effective TE without coupling", ap=ap)
    c.tag("strong:" + ap)


@scenario("C13", 0, once=True)
def cte_probe(c):
    r = c.rng
    x = r.integers(0, 2, 200)
    y, z = np.roll(x, 1), r.integers(0, 2, 200)
    c.note(x=x, z=z)
    v = c.call(c.call(im.estimator, x, y, cond=z, measure="cte", approach="discrete", seed=1).effective_val)
    c.check(np.ndim(v) == 0, "no scalar")
    if abs(v) < 1e-12:
        c.known_finding(CTE_KEY, CTE_TEXT)


# --------------------------------------------------------------------- C14
prop("C14", quick=10000, thorough=80000,
     rule="Each case takes one degenerate class of valid inputs (constant, all distinct, 1-3 observations, k = N-1, duplicated points, constant offset or scale of 1e-60..1e60, integers near the limits of their type, one varying column, long series) and a measure and approach, and checks type, shape, finiteness and where it is known in closed form the value; non-trivial = a value was checked.",
     assumptions=["NSB and ANSB are undefined (NaN) without coincidences", "nearest-neighbour estimates of exactly duplicated points and Gaussian kernels of singular samples are only required to be real or refused"])


def scalar(c, v, what, finite=True, **ctx):
    c.check(np.ndim(v) == 0 and isinstance(v, (float, int, np.floating, np.integer)) and not isinstance(v, (bool, complex)), f"{what}: not a real scalar", got=repr(v)[:80], t=str(type(v)), **ctx)
    if finite:
        c.check(math.isfinite(v), f"{what}: not finite", got=v, **ctx)
    return v


def nan_ok(ap, *cnts):
    return ap in ("nsb", "ansb")


@scenario("C14", 4)
def disc_degenerate(c):
    r = c.rng
    ap = pick(r, DISC_A)
    kw = {"alpha": pick(r, ALPHAS)} if ap == "bayes" else {}
    n = int(pick(r, [1, 2, 2, 3, 4, 7, 30, 200]))
    kind = pick(r, ["const", "distinct", "onediff", "pairs", "limits", "random"])
    if kind == "const":
        x = np.full(n, int(pick(r, [0, 1, -5, 255, 2**62])))
    elif kind == "distinct":
        x = r.permutation(n)
    elif kind == "onediff":
        x = np.zeros(n, int)
        x[int(r.integers(n))] = 1
    elif kind == "pairs":
        x = np.arange(n) // 2
    elif kind == "limits":
        t = pick(r, [np.int8, np.uint8, np.int16, np.int32, np.int64, np.uint64, np.uint16])
        i = np.iinfo(t)
        x = np.array([pick(r, [i.min, i.max, i.max - 1, i.min + 1]) for _ in range(n)], dtype=t)
    else:
        x = r.integers(0, 3, n)
    b = base(r)
    c.note(ap=ap, kw=kw, kind=kind, x=x, base=b)
    cnt = R.counts(R.sym(x))
    und = ap in ("nsb", "ansb") and len(cnt) == n  # no coincidences
    from .discrete import entropy_close

    if kind == "const" and ap in ("discrete", "miller_madow", "shrink", "zhang"):
        v = scalar(c, c.call(im.entropy, x, approach=ap, base=b, **kw), f"H of a constant, {ap}", n=n)
        c.check(abs(v) < 1e-12, f"H of a constant, {ap}", got=v)
    v = c.call(im.entropy, x, approach=ap, base=b, **kw)
    scalar(c, v, f"H {ap} {kind}", finite=ap not in ("nsb", "ansb"), n=n)
    if und:
        c.check(math.isnan(v), f"{ap} without coincidences is not NaN", got=v, n=n)
    # all measures on (x, related)
    y = x[::-1].copy()
    if ap not in ("nsb",):
        fin = ap not in ("nsb", "ansb")
        v = scalar(c, c.call(im.mi, x, y, approach=ap, base=b, **kw), f"MI {ap} {kind}", finite=fin, n=n)
        if kind == "const" and ap in ("discrete", "miller_madow", "zhang", "shrink"):
            c.check(abs(v) < 1e-12, f"MI of constants, {ap}", got=v)
        scalar(c, c.call(im.cmi, x, y, cond=x, approach=ap, base=b, **kw), f"CMI {ap} {kind}", finite=fin, n=n)
        if n >= 2:
            v = scalar(c, c.call(im.te, x, y, approach=ap, base=b, **kw), f"TE {ap} {kind}", finite=fin, n=n)
            if kind == "const" and ap in ("discrete", "miller_madow", "zhang", "shrink"):
                c.check(abs(v) < 1e-12, f"TE of constants, {ap}", got=v)
            scalar(c, c.call(im.cte, x, y, cond=x, approach=ap, base=b, **kw), f"CTE {ap} {kind}", finite=fin, n=n)
    if ap in ("discrete", "miller_madow", "bayes"):
        scalar(c, c.call(im.hx, x, y, approach=ap, base=b, **kw), f"HX {ap} {kind}", n=n)
        scalar(c, c.call(im.kld, x, y, approach=ap, base=b, **kw), f"KLD {ap} {kind}", n=n)
    if ap in ("discrete", "bayes", "shrink"):
        v = scalar(c, c.call(im.jsd, x, y, approach=ap, base=b, **kw), f"JSD {ap} {kind}", n=n)
        c.check(abs(v) < 1e-9, f"JSD of reordered data, {ap}", got=v)
    if ap in LOCAL_H:
        lv = c.call(c.call(im.estimator, x, measure="h", approach=ap, base=b, **kw).local_vals)
        c.check(isinstance(lv, np.ndarray) and lv.shape == (n,) and lv.dtype.kind == "f" and np.all(np.isfinite(lv)), f"local values {ap} {kind}", got=lv, n=n)
    c.tag(f"{kind}:{ap}")


def cont_kw(r, ap, n):
    if ap in ("kl", "ksg"):
        return dict(k=int(r.integers(1, n)) if n > 1 else 1, minkowski_p=pick(r, [np.inf, 2, 1]), ksg_id=int(pick(r, [1, 2])), noise_level=0)
    if ap in ("renyi", "tsallis"):
        return dict(k=int(r.integers(1, n)) if n > 1 else 1, **{"alpha" if ap == "renyi" else "q": float(pick(r, [0.5, 1.0, 1.5]))})
    return dict(kernel="box", bandwidth=float(r.uniform(0.2, 3)))


@scenario("C14", 3)
def cont_tiny(c):
    """Two to six observations, k up to N-1, every continuous measure."""
    r = c.rng
    n = int(r.integers(2, 7))
    m = pick(r, ["h", "hx", "mi", "cmi", "te", "cte", "kld"])
    ap = pick(r, CONT_H if m in ("h", "hx", "kld") else CONT_D)
    rows = n - 1 if m in ("te", "cte") else n
    if rows < 2:
        rows, n = 2, 3
    kw = cont_kw(r, ap, rows)
    if ap in ("renyi", "tsallis") and m not in ("h", "hx", "kld"):
        kw["noise_level"] = 0
    vs = [r.normal(size=n) for _ in range(3)]
    b = base(r)
    c.note(m=m, ap=ap, kw=kw, vs=vs, base=b)
    data = vs[:1] if m == "h" else vs[:2]
    if m in ("cmi", "cte"):
        kw["cond"] = vs[2]
    v = c.call(getattr(im, m), *data, approach=ap, base=b, **kw)
    fin = not (m in ("hx", "kld") and ap == "kernel")
    scalar(c, v, f"{m} {ap} tiny", finite=fin, n=n, kw={k: x for k, x in kw.items() if k != "cond"})
    if m == "h":
        x = vs[0]
        k = kw.get("k", 1)
        if ap == "kl":
            w = R.KL(x, k, kw["minkowski_p"], kw["ksg_id"]) / R.lnb(b)
            c.close(v, w, "tiny KL entropy", kw=kw)
    if ap == "ksg" and m in ("mi", "cmi"):
        from .continuous import ksg_ref

        w = float(np.mean(ksg_ref(data, kw["k"], kw["minkowski_p"], kw["ksg_id"], kw.get("cond")))) / R.lnb(b)
        c.close(v, w, f"tiny KSG {m}", n=n)
    c.tag(f"tiny:{m}:{ap}")


@scenario("C14", 3)
def magnitudes(c):
    """Extreme scales and offsets: closed-form shift of entropies."""
    r = c.rng
    n = int(r.integers(20, 60))
    d = int(pick(r, [1, 1, 2]))
    x = r.normal(size=(n, d)) if d > 1 else r.normal(size=n)
    ex = int(pick(r, [-60, -30, -12, 12, 30, 60]))
    a = 2.0 ** (ex * 3)  # exact scaling
    ap = pick(r, ["kl", "kernel", "renyi", "ksg", "gauss"])
    b = base(r)
    c.note(ap=ap, a=a, x=x, base=b)
    la = d * math.log(a) / R.lnb(b)
    if ap == "kl":
        kw = dict(approach="kl", k=3, noise_level=0, minkowski_p=pick(r, [np.inf, 1]))
    elif ap == "renyi":
        kw = dict(approach="renyi", k=3, alpha=1.0)
    elif ap == "kernel":
        kw = dict(approach="kernel", kernel="box", bandwidth=0.7)
    elif ap == "gauss":
        kw = dict(approach="kernel", kernel="gaussian", bandwidth=0.5)
    else:
        y = x + r.normal(size=x.shape)
        p = pick(r, [np.inf, 1])
        kw = dict(approach="ksg", k=3, noise_level=0, minkowski_p=p, base=b)
        c.close(c.call(im.mi, x * a, y * a, **kw), c.call(im.mi, x, y, **kw), "KSG MI at extreme scale", scale=a)
        c.tag("mag:ksg")
        return
    v = c.call(im.entropy, x, base=b, **kw)
    if ap == "kernel":
        kw["bandwidth"] *= a
    w = c.call(im.entropy, x * a, base=b, **kw)
    scalar(c, w, f"H {ap} at scale {a}")
    c.close(w, v + la, f"entropy at extreme scale, {ap}", rtol=1e-7, atol=1e-7, scale=a)
    c.tag("mag:" + ap)


@scenario("C14", 2)
def duplicates(c):
    """Duplicated observations with the default noise: finite for KSG/KL noise."""
    r = c.rng
    n = int(r.integers(20, 50))
    x = np.round(r.normal(size=n), int(pick(r, [0, 1])))
    y = np.round(x + r.normal(size=n), 0)
    m = pick(r, ["h", "mi", "cmi", "te", "cte"])
    ap = pick(r, ["kernel", "ksg"]) if m != "h" else pick(r, ["kernel", "kl"])
    kw = dict(kernel="box", bandwidth=1.0) if ap == "kernel" else dict(k=3)
    z = np.round(r.normal(size=n), 0)
    c.note(m=m, ap=ap, x=x, y=y)
    data = [x] if m == "h" else [x, y]
    if m in ("cmi", "cte"):
        kw["cond"] = z
    v = scalar(c, c.call(getattr(im, m), *data, approach=ap, **kw), f"{m} {ap} of duplicated data")
    lv = local_or_refusal(c, c.call(im.estimator, *data, measure=m, approach=ap, **kw))
    if lv is not None:
        c.check(np.all(np.isfinite(lv)), "local values of duplicated data", m=m, ap=ap, lv=lv)
    if m == "mi" and ap == "kernel":
        k0 = np.full(n, 2.5)
        c.close(c.call(im.mi, k0, y, approach="kernel", **kw), 0.0, "box kernel MI with a constant")
        c.check(True, "")
    c.tag(f"dup:{m}:{ap}")


@scenario("C14", 2)
def ordinal_degenerate(c):
    r = c.rng
    dim = int(r.integers(1, 6))
    n = int(pick(r, [dim, dim + 1, dim + 2, 40]))
    kind = pick(r, ["const", "ramp", "down", "alt", "random"])
    x = {"const": np.zeros(n), "ramp": np.arange(n) * 1.5, "down": -np.arange(n) * 1.0, "alt": np.where(np.arange(n) % 2, 1, -1) * (1 + np.arange(n) * 1e-3), "random": r.normal(size=n)}[kind]
    b = base(r)
    c.note(dim=dim, n=n, kind=kind, base=b)
    kw = dict(approach="ordinal", embedding_dim=dim, base=b, stable=True)
    v = scalar(c, c.call(im.entropy, x, **kw), "ordinal entropy", kind=kind, n=n, dim=dim)
    c.close(v, R.H(R.patterns(x, dim)) / R.lnb(b), "ordinal entropy of degenerate data", kind=kind, dim=dim, n=n)
    if kind in ("const", "ramp", "down") or n == dim:
        c.check(abs(v) < 1e-12, "ordinal entropy of one pattern", got=v, kind=kind)
    y = x[::-1].copy()
    kw.pop("stable")
    if kind != "const":
        w = scalar(c, c.call(im.mi, x, y, **kw), "ordinal MI", kind=kind, n=n, dim=dim)
        c.close(w, R.MI(R.patterns(x, dim), R.patterns(y, dim)) / R.lnb(b), "ordinal MI of degenerate data", kind=kind)
    c.tag(f"ord:{kind}:{dim}")


@scenario("C14", 0.2)
def long_series(c):
    r = c.rng
    n = int(r.integers(60000, 150000))
    k = int(pick(r, [2, 50, 3000]))
    x = r.integers(0, k, n)
    y = np.where(r.random(n) < 0.5, x, r.integers(0, k, n))
    ap = pick(r, ["discrete", "miller_madow", "grassberger", "chao_shen", "bonachela", "shrink", "bayes", "chao_wang_jost"])
    kw = dict(alpha=0.5) if ap == "bayes" else {}
    c.note(n=n, k=k, ap=ap)
    v = scalar(c, c.call(im.entropy, x, approach=ap, **kw), "H of a long series", ap=ap, n=n, k=k)
    cnt = list(np.unique(x, return_counts=True)[1])
    if ap != "bonachela":
        c.close(v, R.H_by(ap, [int(t) for t in cnt], **kw), "entropy of a long series", rtol=1e-7, atol=1e-7, ap=ap, n=n, k=k)
    if ap in ("discrete", "miller_madow"):
        scalar(c, c.call(im.mi, x, y, approach=ap), "MI of a long series")
        w = scalar(c, c.call(im.te, x, y, approach=ap), "TE of a long series")
        if k == 2 and ap == "discrete":
            c.close(w, R.TE(R.sym(x), R.sym(y)), "TE of a long series", rtol=1e-7, atol=1e-7)
    c.tag("long:" + ap)
