"""C01-C04, C09-C12: purity, representation, interfaces, histories, threads,
workers, validation, configuration."""
import io
import json
import logging
import math
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np

from ..core import prop, scenario, Skip, same, Violation, short, digest, REPO, child_env
from ..catalog import *
from ..gen import *
from .. import refs as R
from .relations import agree

REFUSE = (io.UnsupportedOperation, NotImplementedError, RuntimeError)  # incl. TheoreticalInconsistencyError
NAMES = {
    "h": ["entropy", "h", "Entropy", "H"],
    "hx": ["cross_entropy", "hx", "cross entropy", "Cross-Entropy", "HX"],
    "mi": ["mutual_information", "mi", "mutual information", "Mutual-Information", "MI"],
    "cmi": ["conditional_mutual_information", "cmi", "conditional mutual information", "Conditional-Mutual_Information", "CMI"],
    "te": ["transfer_entropy", "te", "transfer entropy", "Transfer-Entropy", "TE"],
    "cte": ["conditional_transfer_entropy", "cte", "conditional transfer entropy", "Conditional-Transfer-Entropy", "CTE"],
}
ALIAS = {"miller_madow": ["mm"], "ordinal": ["symbolic", "permutation"]}
ALIAS_H = {**ALIAS, "chao_shen": ["cs"], "chao_wang_jost": ["cwj"], "shrink": ["js"], "kl": ["metric"]}
ALIAS_D = {**ALIAS, "ksg": ["metric"]}
HASTEST = ("mi", "cmi", "te", "cte")


def refused():
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError

    return (io.UnsupportedOperation, TheoreticalInconsistencyError)


def testable(q):
    return q.m in ("te", "cte") or (q.m in ("mi", "cmi") and len(q.data) == 2)


def cased(r, s):
    k = r.integers(4)
    return s if k == 0 else s.upper() if k == 1 else s.title() if k == 2 else "".join(ch.upper() if r.random() < 0.5 else ch for ch in s)


def local_or_refusal(c, est, what="local values"):
    """Local values, or None when they are refused as documented."""
    c.events += 1
    try:
        return est.local_vals()
    except refused():
        return None
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__}: {str(e)[:200]}")


# --------------------------------------------------------------------- C01
prop("C01", quick=2400, thorough=30000,
     rule="Each case draws a call of any measure and approach (including noise-perturbed ones), lays its inputs out as plain, read-only, strided, view-of-larger-array, list or nested inputs, fingerprints inputs and every process-wide setting, runs values, local values, tests and effective values, and compares the fingerprints after every step; non-trivial = at least one query ran and its fingerprint was compared.",
     assumptions=["the package's own module caches and logger records are not considered caller state"])


def lay(r, a):
    """(argument, guarded bases) for one array."""
    k = pick(r, ["plain", "readonly", "strided", "view", "list", "col"], [0.25, 0.25, 0.15, 0.2, 0.1, 0.05])
    if k == "list":
        l = a.tolist()
        return l, [l]
    if k == "strided":
        b = np.empty((2 * len(a) + 1,) + a.shape[1:], dtype=a.dtype)
        b[...] = a[0]
        b[1::2] = a
        return b[1::2], [b]
    if k == "view":
        b = np.concatenate([a[:1], a, a[-1:]])
        return b[1:-1], [b]
    b = a.copy()
    if k == "readonly":
        b.flags.writeable = False
    return b, [b]


def fp(objs):
    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((digest(o), o.strides, o.dtype.str, o.flags.writeable, o.flags.owndata))
        else:
            out.append(repr(o))
    return out


def world():
    lg = logging.getLogger("infomeasure")
    return dict(
        numpy_random=digest(list(map(str, np.random.get_state()))) + digest(np.random.get_state()[1]),
        python_random=digest(repr(random.getstate())),
        config={k: im.Config.get(k) for k in ("base", "statistical_test_method", "statistical_test_n_tests")},
        geterr=dict(np.geterr()), errcall=repr(np.geterrcall()), warn=len(warnings.filters), warnhead=repr(warnings.filters[:3]),
        loglevel=lg.level, handlers=len(lg.handlers), rootlevel=logging.getLogger().level, disable=logging.root.manager.disable,
        cwd=os.getcwd(), reclimit=sys.getrecursionlimit(), env=digest(dict(os.environ)), printopt=repr(np.get_printoptions()),
        threads=threading.active_count(),
    )


_warm = []


def warm():
    """Import every estimator module once: importing is not part of a call."""
    if not _warm:
        for m in ("h", "mi", "cmi", "te", "cte"):
            for ap in approaches(m):
                im.get_estimator_class(LONGM[m], ap)
        x = np.arange(12.0)
        im.entropy(x, approach="kernel", kernel="gaussian", bandwidth=0.5)
        im.entropy(np.arange(12) % 3, approach="nsb")
        _warm.append(1)


@scenario("C01", 5)
def purity(c):
    r = c.rng
    warm()
    q = draw(r, labels=pick(r, ["int", None]), det=bool(r.random() < 0.4), n=int(r.integers(16, 50)))
    guard = []

    def L(a):
        if isinstance(a, tuple):
            return tuple(L(v) for v in a)
        o, g = lay(r, a)
        guard.extend(g)
        return o

    p = q.with_data([L(v) for v in q.data], None if q.cond is None else L(q.cond))
    c.note(**q.note(), layout=[type(g).__name__ for g in guard])
    if r.random() < 0.4:
        im.Config.set("base", pick(r, [2, 10, 3.5]))
        im.Config.set("statistical_test_n_tests", 3)
        im.Config.set("statistical_test_method", "bootstrap")
    np.random.seed(int(r.integers(2**31)))
    random.seed(int(r.integers(2**31)))
    np.seterr(divide=pick(r, ["warn", "ignore"]), invalid="ignore", over="warn")
    try:
        f0, w0 = fp(guard), world()

        def verify(step):
            c.check(fp(guard) == f0, f"inputs changed by {step}", m=q.m, ap=q.ap, kw=q.kw, before=f0, after=fp(guard))
            w1 = world()
            c.check(w1 == w0, f"process-wide state changed by {step}", m=q.m, ap=q.ap, kw=q.kw, diff={k: (w0[k], w1[k]) for k in w0 if w0[k] != w1[k]})

        p.run(c)
        verify("functional call")
        if q.m in ("kld", "jsd"):
            return
        est = p.est(c)
        verify("constructor")
        for step in r.permutation(["global", "local", "test", "boot", "eff", "seeded"]):
            if step == "global":
                c.call(est.result)
            elif step == "local":
                lv = local_or_refusal(c, est)
                if lv is not None and isinstance(lv, np.ndarray) and lv.flags.writeable:
                    lv[...] = 7.25  # results are not views of the inputs
            elif step in ("test", "boot") and testable(q):
                c.call(est.statistical_test, n_tests=2, method="permutation_test" if step == "test" else "bootstrap")
            elif step == "eff" and q.m in ("te", "cte"):
                c.call(est.effective_val)
            elif step == "seeded" and q.m in HASTEST:
                c.call(p.est(c, seed=5).result)
            verify(step)
        c.tag(f"pure:{q.m}:{q.ap}")
    finally:
        np.seterr(divide="warn", invalid="warn", over="warn")


@scenario("C01", 1)
def readonly(c):
    """Read-only inputs give the value of writable ones."""
    r = c.rng
    q = draw(r, labels=pick(r, ["int", None]), det=True, n=int(r.integers(16, 60)))
    c.note(**q.note())
    p = q.copy()
    for v in p.data + ([p.cond] if p.cond is not None else []):
        for a in v if isinstance(v, tuple) else (v,):
            a.flags.writeable = False
    agree(c, p.run(c), q.run(c), "read-only inputs", q.ap, m=q.m, kw=q.kw)
    c.check(True, "")


@scenario("C01", 1)
def failing(c):
    """A rejected call leaves inputs and settings alone as well."""
    r = c.rng
    warm()
    q = draw(r, labels="int", det=False, n=int(r.integers(16, 40)))
    bad = pick(r, [dict(bogus=1), dict(base="x"), dict(k=-1), dict(bandwidth=-1.0), dict(approach="nope"), dict(embedding_dim=10**6), dict(alpha="foo")])
    c.note(**q.note(), bad=str(bad))
    guard = [a for v in q.data for a in (v if isinstance(v, tuple) else (v,))] + ([q.cond] if q.cond is not None else [])
    f0, w0 = fp(guard), world()
    kw = {**q.kwargs(), **bad}
    c.events += 1
    try:
        getattr(im, q.m)(*q.data, **kw)
        c.tag("accepted")
    except Exception as e:
        c.tag("refused:" + type(e).__name__)
    c.check(fp(guard) == f0, "inputs changed by a rejected call", m=q.m, ap=q.ap, kw=str(kw))
    w1 = world()
    c.check(w1 == w0, "state changed by a rejected call", diff={k: (w0[k], w1[k]) for k in w0 if w0[k] != w1[k]})


# --------------------------------------------------------------------- C02
prop("C02", quick=5000, thorough=60000,
     rule="Each case evaluates one call with canonical contiguous arrays and then with randomly chosen equivalent representations (lists, other dtypes holding the same numbers, strided, reversed, Fortran, big-endian, read-only, column arrays, matrix instead of tuple); non-trivial = a finite non-zero value was compared.",
     assumptions=["float16/float32 inputs are compared to 1e-6 when min-max normalisation is requested (it works in the precision of the data)"])


def exact_dtypes(a):
    out = []
    f = a.astype(float)
    for dt in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "?"):
        t = np.dtype(dt)
        if t.kind in "iu":
            info = np.iinfo(t)
            if not (np.all(f == np.round(f)) and f.min() >= info.min and f.max() <= min(info.max, 2**53)):
                continue
        elif t.kind == "b" and not np.all((f == 0) | (f == 1)):
            continue
        with np.errstate(all="ignore"):
            b = a.astype(t)
        if np.array_equal(b.astype(float), f):
            out.append(dt)
    return out


def represent(r, a, deep=True):
    """An equivalent representation of an array and its name."""
    opts = ["strided", "reversed", "readonly", "bigendian", "dtype", "dtype", "list", "offsetview", "matcol"]
    k = pick(r, opts)
    if a.dtype.kind in "US" and k in ("bigendian", "dtype"):
        k = "list"
    if k == "dtype":
        dt = pick(r, exact_dtypes(a)) if a.dtype.kind in "iufb" else None
        return (a.astype(dt), "dtype") if dt else (a.copy(), "copy")
    if k == "strided":
        b = np.empty((3 * len(a),) + a.shape[1:], dtype=a.dtype)
        b[...] = a[-1]
        b[::3] = a
        return b[::3], k
    if k == "reversed":
        return a[::-1].copy()[::-1], k
    if k == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b, k
    if k == "bigendian":
        return a.astype(a.dtype.newbyteorder(">")), k
    if k == "offsetview":
        return np.concatenate([a[-1:], a])[1:], k
    if k == "matcol":
        if a.ndim == 2:
            return np.asfortranarray(a), "fortran"
        b = np.empty((len(a), 3), dtype=a.dtype, order="F" if r.random() < 0.5 else "C")
        b[...] = a[:1]
        b[:, 1] = a
        return b[:, 1], k
    return a.tolist(), k


def exactly(r, q):
    """Make continuous data hold numbers that several dtypes represent."""
    if q.kind == "disc":
        return q
    def f(a):
        if isinstance(a, tuple):
            return tuple(f(v) for v in a)
        return np.round(a * 40) if mode == "int" else np.round(a * 64) / 64
    mode = pick(r, ["int", "frac"])
    q2 = q.with_data([f(v) for v in q.data], None if q.cond is None else f(q.cond))
    if mode == "int" and q.ap == "kernel" and not q.kw.get("normalize"):
        if q.kw["kernel"] == "box":
            q2.kw["bandwidth"] = q.kw["bandwidth"] * 40 + 0.5
    return q2


def tie_free(q):
    if q.ap != "ordinal":
        return True
    return all(len(np.unique(a)) == len(a) for v in q.data + ([q.cond] if q.cond is not None else []) for a in (v if isinstance(v, tuple) else (v,)))


@scenario("C02", 6)
def layouts(c):
    r = c.rng
    q = draw(r, labels=pick(r, ["int", "neg", "uint8", "bool", "str"]), det=True, n=int(r.integers(16, 60)))
    q = exactly(r, q)
    if q.ap == "ordinal":  # distinct integers, many dtypes
        f = lambda a: r.permutation(len(a)) if not isinstance(a, tuple) else tuple(r.permutation(len(v)) for v in a)
        q = q.with_data([f(v) for v in q.data], None if q.cond is None else f(q.cond))
    c.note(**q.note())
    ref = q.run(c)
    names = []
    t32 = [False]

    def rep(a):
        if isinstance(a, tuple):
            return tuple(rep(v) for v in a)
        o, nm = represent(r, a)
        dt = getattr(o, "dtype", None)
        if dt is not None and dt.kind == "f" and dt.itemsize < 8:
            t32[0] = True
        names.append(nm + ("" if dt is None else ":" + dt.str))
        return o

    for _ in range(3):
        names.clear()
        t32[0] = False
        p = q.with_data([rep(v) for v in q.data], None if q.cond is None else rep(q.cond))
        got = p.run(c)
        if t32[0] and q.kw.get("normalize"):
            c.close(got, ref, f"value for {names}", rtol=1e-3, atol=1e-3) if q.ap not in ("ksg", "kernel") else c.check(True, "")
        else:
            agree(c, got, ref, f"value for {names}", q.ap, m=q.m, kw=q.kw)
        for nm in names:
            c.tag("rep:" + nm)


COLUMN_OK = {"h": CONT_H + DISC_A, "hx": CONT_H + ["discrete", "miller_madow", "bayes"], "mi": CONT_D + DISC_A, "cmi": CONT_D + [a for a in DISC_A if a not in ("miller_madow", "discrete")], "te": CONT_D + DISC_A, "cte": CONT_D + DISC_A}


@scenario("C02", 2)
def columns(c):
    """An (n,1) array is the 1-D array."""
    r = c.rng
    m = pick(r, list(COLUMN_OK))
    ap = pick(r, COLUMN_OK[m])
    q = draw(r, m, ap, labels="int", det=True, extra=False, n=int(r.integers(16, 60)), nvars=2)
    q.kw.pop("normalize", None)
    c.note(**q.note())
    f = lambda a: a.reshape(-1, 1)
    p = q.with_data([f(v) for v in q.data], None if q.cond is None else f(q.cond))
    agree(c, p.run(c), q.run(c), "column arrays", ap, m=m, kw=q.kw)
    c.tag(f"col:{m}:{ap}")


@scenario("C02", 2)
def matrix(c):
    """A matrix is the tuple of its columns (joint entropy), any memory order."""
    r = c.rng
    ap = pick(r, DISC_A + CONT_H)
    d = int(r.integers(2, 5))
    n = int(r.integers(12, 60))
    vs = ddata(r, n, d, "int") if kindof(ap) == "disc" else cdata(r, n, d)
    kw = akw(r, ap, "h", n)
    M = np.column_stack(vs)
    c.note(ap=ap, kw=kw, M=M)
    ref = c.call(im.entropy, tuple(vs), approach=ap, **kw)
    for o in (M, np.asfortranarray(M), M[::-1].copy()[::-1], np.hstack([M, M])[:, :d]):
        agree(c, c.call(im.entropy, o, approach=ap, **kw), ref, "matrix for joint entropy", ap, kw=kw)
    agree(c, c.call(im.entropy, M.tolist(), approach=ap, **kw), ref, "nested list for joint entropy", ap, kw=kw)
    agree(c, c.call(im.entropy, tuple(v.tolist() for v in vs), approach=ap, **kw), ref, "tuple of lists", ap, kw=kw)


# --------------------------------------------------------------------- C03
prop("C03", quick=3000, thorough=60000,
     rule="Each case draws a call with random keyword arguments and compares every way to request it: long name, alias, generic function with cond, estimator factory with every spelling of the measure, class lookup, approach aliases in random letter case; randomized estimates use the same seed; non-trivial = a finite non-zero value was compared.")


@scenario("C03", 6)
def spellings(c):
    r = c.rng
    det = bool(r.random() < 0.7)
    q = draw(r, pick(r, list(NAMES)), labels="int", det=det, n=int(r.integers(16, 60)))
    if not det and q.m in ("h", "hx") and q.ap == "kl":
        q.kw["noise_level"] = 0
    if q.m in HASTEST:
        q.kw["seed"] = int(r.integers(1000))
    b = base(r)
    c.note(**q.note(), base=b)
    kw = {**q.kw, "base": b}
    if q.cond is not None:
        kw["cond"] = q.cond
    ref = c.call(getattr(im, LONGM[q.m]), *q.data, approach=q.ap, **kw)
    E = lambda got, what: (agree(c, got, ref, what, q.ap, m=q.m, kw=q.kw), c.tag("way:" + what.split(":")[0]))
    als = [q.ap] + (ALIAS_H if q.m in ("h", "hx") else ALIAS_D).get(q.ap, [])
    spell = lambda: cased(r, pick(r, als))
    E(c.call(getattr(im, q.m), *q.data, approach=spell(), **kw), "alias function")
    E(c.call(getattr(im, LONGM[q.m]), *q.data, approach=spell(), **kw), "approach alias")
    if q.m == "cmi":
        E(c.call(im.mutual_information, *q.data, approach=spell(), **kw), "generic with cond")
        E(c.call(im.mi, *q.data, approach=spell(), **kw), "mi with cond")
        E(c.call(c.call(im.estimator, *q.data, measure=pick(r, NAMES["mi"]), approach=spell(), **kw).result), "estimator mi with cond")
    if q.m == "cte":
        E(c.call(im.transfer_entropy, *q.data, approach=spell(), **kw), "generic with cond")
        E(c.call(im.te, *q.data, approach=spell(), **kw), "te with cond")
        E(c.call(c.call(im.estimator, *q.data, measure=pick(r, NAMES["te"]), approach=spell(), **kw).result), "estimator te with cond")
    if q.m == "hx":
        E(c.call(im.entropy, *q.data, approach=spell(), **kw), "entropy of two samples")
    nm = pick(r, NAMES[q.m])
    est = c.call(im.estimator, *q.data, measure=nm, approach=spell(), **kw)
    qs = r.permutation(["result", "global_val", "local"])
    for s in qs:
        if s == "local":
            local_or_refusal(c, est)
        else:
            E(c.call(getattr(est, s)), f"estimator {s}: {nm}")
    c.check(same(est.res_global, est.result(), 0, 0), "res_global differs from result()", nontrivial=False)
    cm = {"hx": "h"}.get(q.m, q.m)
    K = c.call(im.get_estimator_class, measure=cased(r, pick(r, [cm, LONGM[cm]])), approach=spell())
    c.check(type(est) is K, "class lookup and factory disagree", K=str(K), E=str(type(est)))
    ck = dict(kw)
    if q.m == "cte":
        ck.setdefault("prop_time", 0)
    E(c.call(c.call(K, *q.data, **ck).result), "class")


@scenario("C03", 2)
def every_keyword(c):
    """Every documented keyword reaches the estimator through every interface:
    for a value of the keyword that changes the class result, all others follow."""
    r = c.rng
    m = pick(r, list(NAMES))
    ap = pickap(r, m)
    q = draw(r, m, ap, labels="int", det=True, extra=False, n=int(r.integers(24, 70)), nvars=2)
    q.kw.pop("normalize", None)
    alt = {}
    if ap == "bayes":
        alt["alpha"] = 3.7
        if m in ("h", "mi", "te"):
            alt["K"] = 200
    if ap == "nsb" and m in ("h", "mi", "te"):
        alt["K"] = 200
    if ap == "ordinal":
        alt["embedding_dim"] = 3 if q.kw["embedding_dim"] != 3 else 2
        if m not in ("hx",):
            alt["step_size"] = 2
    if ap == "kernel":
        alt["bandwidth"] = q.kw["bandwidth"] * 1.7
        alt["kernel"] = "box" if q.kw["kernel"] == "gaussian" else "gaussian"
    if "k" in q.kw:
        alt["k"] = q.kw["k"] + 2
    if ap in ("kl", "ksg"):
        alt["minkowski_p"] = 3
        alt["ksg_id"] = 3 - q.kw["ksg_id"]
    if ap == "renyi":
        alt["alpha"] = 1.9
    if ap == "tsallis":
        alt["q"] = 1.9
    if m == "mi":
        alt["offset"] = int(pick(r, [-3, -1, 1, 2]))
        if ap in CONT_D:
            alt["normalize"] = True
    if m == "cmi" and ap in CONT_D:
        alt["normalize"] = True
    if m in ("te", "cte"):
        alt["src_hist_len"] = 2
        alt["dest_hist_len"] = 2
        alt["step_size"] = 2
    if m == "te":
        alt["prop_time"] = int(pick(r, [-2, 1, 3]))
        alt["offset"] = int(pick(r, [-2, 1, 3]))
    if m == "cte":
        alt["cond_hist_len"] = 2
    alt["base"] = 7
    key = pick(r, list(alt))
    kw = {**q.kw, key: alt[key]}
    c.note(**q.note(), key=key, value=alt[key])
    cm = {"hx": "h"}.get(m, m)
    K = c.call(im.get_estimator_class, measure=cm, approach=ap)
    ck = dict(kw)
    if q.cond is not None:
        ck["cond"] = kw["cond"] = q.cond
    if m == "cte":
        ck["prop_time"] = 0
    ref = c.call(c.call(K, *q.data, **ck).result)
    plain = c.call(c.call(K, *q.data, **{k: v for k, v in {**ck, **q.kw}.items() if k != key or k in q.kw}).result)
    agree(c, c.call(getattr(im, m), *q.data, approach=ap, **kw), ref, f"keyword {key}, functional", ap, m=m)
    agree(c, c.call(c.call(im.estimator, *q.data, measure=pick(r, NAMES[m]), approach=ap, **kw).result), ref, f"keyword {key}, factory", ap, m=m)
    c.tag(f"kw:{key}:{'effective' if not same(ref, plain) else 'same'}")


@scenario("C03", 1)
def unknown(c):
    r = c.rng
    m = pick(r, list(NAMES))
    q = draw(r, m, labels="int", det=True, n=24)
    bad = pick(r, ["unknown", "", "discret", "k l", "entropy", "kl2", None, 3]) if r.random() < 0.6 else "ksg" if m in ("h", "hx") else "kl"
    kw = {k: v for k, v in q.kwargs().items() if k != "approach"}
    c.note(m=m, bad=bad)
    c.raises((ValueError, TypeError), getattr(im, m), *q.data, approach=bad, **kw)
    c.raises((ValueError, TypeError), im.estimator, *q.data, measure=m, approach=bad, **kw)
    c.raises((ValueError, TypeError), im.get_estimator_class, measure=LONGM[m], approach=bad)
    c.raises((ValueError, TypeError), getattr(im, m), *q.data, **kw)
    bm = pick(r, ["", "entropi", "hxx", "m i", "total_correlation", "mutual information x", "jsdd"])
    c.raises((ValueError, TypeError), im.estimator, *q.data, measure=bm, **q.kwargs())
    c.raises((ValueError, TypeError), im.estimator, *q.data, **q.kwargs())
    c.raises((ValueError, TypeError), im.get_estimator_class, measure=bm, approach=q.ap)
    c.raises((ValueError, TypeError), im.get_estimator_class, approach=q.ap)
    c.raises(TypeError, getattr(im, m), *q.data, **q.kwargs(), no_such_argument=1)
    c.raises(TypeError, im.estimator, *q.data, measure=m, **q.kwargs(), no_such_argument=1)


# --------------------------------------------------------------------- C04
prop("C04", quick=360, thorough=6000,
     rule="Each case is a random history of 25-60 API operations over a pool of calls, estimator objects, configuration changes, statistical tests and reused input buffers; every answer is compared with the answer the same request gave in isolation (freshly computed, in part in a fresh process); non-trivial = a repeated request was compared after intervening operations.",
     assumptions=["input arrays are not modified between constructing and querying one estimator object (estimators may hold views)"])


def ask(q, b=None):
    return getattr(im, q.m)(*q.data, **q.kwargs(**({} if b is None else {"base": b})))


def outcome(fn, *a, **kw):
    try:
        v = fn(*a, **kw)
        return ("value", np.asarray(v, dtype=float))
    except Exception as e:
        return ("error", type(e).__name__)


def eq(a, b, loose=False):
    if a[0] != b[0]:
        return False
    return a[1] == b[1] if a[0] == "error" else same(a[1], b[1], 1e-7 if loose else 1e-9, 1e-9 if loose else 1e-10)


@scenario("C04", 4)
def history(c):
    r = c.rng
    pool = [draw(r, labels=pick(r, ["int", None]), det=True, n=int(r.integers(16, 50))) for _ in range(int(r.integers(3, 7)))]
    # siblings: same data other parameters / same parameters other data of equal shape
    for q in list(pool[:2]):
        p = q.copy()
        p.data = [tuple(r.permutation(a) for a in v) if isinstance(v, tuple) else r.permutation(v) for v in p.data]
        pool.append(p)
    c.note(pool=[q.note() for q in pool])
    first = []
    for q in pool:
        c.events += 1
        first.append(outcome(ask, q.copy(), "e"))
    objs = []
    nops = int(r.integers(25, 60))
    log = []
    cfg = "e"
    for step in range(nops):
        k = int(r.integers(len(pool)))
        q = pool[k]
        op = pick(r, ["ask", "askcopy", "new", "query", "query", "query", "config", "drop", "garbage", "fail"], [0.2, 0.1, 0.15, 0.12, 0.12, 0.13, 0.06, 0.04, 0.04, 0.04])
        log.append(f"{op}:{k}")
        c.events += 1
        if op in ("ask", "askcopy"):
            got = outcome(ask, q if op == "ask" else q.copy(), "e" if r.random() < 0.7 or cfg != "e" else None)
            c.check(eq(got, first[k]), "answer depends on history", m=q.m, ap=q.ap, kw=q.kw, got=got, want=first[k], log=log[-20:])
        elif op == "new" and q.m not in ("kld", "jsd"):
            objs.append((k, q.est(c, base="e"), {}))
        elif op == "query" and objs:
            k, e, seen = objs[int(r.integers(len(objs)))]
            q = pool[k]
            s = pick(r, ["global", "global", "local", "test", "eff"])
            log[-1] = f"{s}:{k}"
            if s == "global":
                got = outcome(e.global_val)
                c.check(eq(got, first[k]), "object answer depends on history", m=q.m, ap=q.ap, kw=q.kw, got=got, want=first[k], log=log[-20:])
            elif s == "local":
                got = outcome(e.local_vals)
                if "local" not in seen:
                    seen["local"] = outcome(q.copy().est(c, base="e").local_vals)
                c.check(eq(got, seen["local"]), "local values depend on history", m=q.m, ap=q.ap, kw=q.kw, got=got, want=seen["local"], log=log[-20:])
            elif s == "test" and testable(q):
                res = c.call(e.statistical_test, n_tests=2, method=pick(r, ["bootstrap", "permutation_test"]))
                c.check(eq(("value", np.asarray(res.observed_value)), first[k]), "observed value depends on history", m=q.m, ap=q.ap, log=log[-20:])
            elif s == "eff" and q.m in ("te", "cte"):
                c.call(e.effective_val)
        elif op == "config":
            cfg = pick(r, ["e", "e", 2, 10])
            im.Config.set("base", cfg)
        elif op == "drop" and objs:
            objs.pop(int(r.integers(len(objs))))
        elif op == "garbage":
            draw(r, det=False, n=20).run(c)
        elif op == "fail":
            outcome(lambda: getattr(im, q.m)(*q.data, **{**q.kwargs(), "no_such": 1}))
            outcome(lambda: getattr(im, q.m)(*[v[:-1] if i else v for i, v in enumerate(q.data)], **q.kwargs()))
    for k, e, seen in objs:
        got = outcome(e.result)
        c.check(eq(got, first[k]), "object answer depends on history", m=pool[k].m, ap=pool[k].ap, got=got, want=first[k], log=log[-20:])


@scenario("C04", 2)
def buffers(c):
    """A buffer refilled with new content gives the value of the new content."""
    r = c.rng
    m = pick(r, ["h", "hx", "mi", "cmi", "te", "cte"])
    ap = pickap(r, m)
    n = int(r.integers(20, 60))
    qa = draw(r, m, ap, n=n, labels="int", det=True, extra=False, nvars=2)
    qb = draw(r, m, ap, n=n, labels="int", det=True, extra=False, nvars=2)
    cut = lambda q: [np.array(v)[: min(len(u), len(w))] for v, u, w in zip(q.data, qa.data, qb.data)]
    A, B = cut(qa), cut(qb)
    ca, cb = qa.cond, qb.cond
    a = Call(m, ap, A, ca, qa.kw)
    b = Call(m, ap, B, cb, qa.kw)
    c.note(a=a.note(), b=b.note())
    va, vb = a.copy().run(c), b.copy().run(c)
    buf = a.copy()
    for content, want in ((b, vb), (a, va), (b, vb)):
        for dst, src in zip(buf.data, content.data):
            dst[...] = src
        if buf.cond is not None:
            buf.cond[...] = content.cond
        agree(c, buf.run(c), want, "refilled buffer", ap, m=m, kw=qa.kw)


@scenario("C04", 2)
def twin_objects(c):
    """Two objects on the same data do not influence each other."""
    r = c.rng
    q = draw(r, pick(r, HASTEST), labels="int", det=True, n=int(r.integers(16, 50)), nvars=2)
    c.note(**q.note())
    fresh = q.copy().est(c)
    g0 = c.call(fresh.global_val)
    l0 = local_or_refusal(c, fresh)
    e1, e2 = q.est(c, seed=1), q.est(c, seed=1)
    order = [pick(r, ["g", "l", "p", "b", "e"]) for _ in range(8)]
    for s in order:
        e = e1 if r.random() < 0.6 else e2
        if s == "p":
            c.call(e.statistical_test, n_tests=2, method="permutation_test")
        elif s == "b":
            c.call(e.statistical_test, n_tests=2, method="bootstrap")
        elif s == "e" and q.m in ("te", "cte"):
            c.call(e.effective_val, method="permutation_test")
        elif s == "l":
            local_or_refusal(c, e)
        else:
            agree(c, c.call(e.global_val), g0, "global value of a used object", q.ap, m=q.m, order=order)
    for e in (e1, e2):
        agree(c, c.call(e.global_val), g0, "global value of a used object", q.ap, m=q.m, order=order)
        lv = local_or_refusal(c, e)
        c.check((lv is None) == (l0 is None), "availability of local values depends on history", m=q.m, ap=q.ap, order=order)
        if l0 is not None:
            c.close(lv, l0, "local values of a used object", m=q.m, ap=q.ap, order=order)


CHILD = r'''
import sys, pickle, warnings, logging
warnings.simplefilter("ignore")
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import numpy as np, infomeasure as im
logging.getLogger("infomeasure").setLevel(logging.CRITICAL)
jobs = pickle.load(sys.stdin.buffer)
out = []
for m, data, kw in jobs:
    try:
        out.append(("value", np.asarray(getattr(im, m)(*data, **kw), dtype=float)))
    except Exception as e:
        out.append(("error", type(e).__name__))
pickle.dump(out, sys.stdout.buffer)
'''


@scenario("C04", 0.15)
def fresh_process(c):
    """A process that asks in another order gets the same answers."""
    r = c.rng
    pool = [draw(r, labels=pick(r, ["int", None]), det=True, n=int(r.integers(16, 60))) for _ in range(40)]
    c.note(pool=[(q.m, q.ap, q.kw) for q in pool], first=pool[0].note())
    mine = []
    for q in pool:
        c.events += 1
        mine.append(outcome(ask, q, "e"))
    order = r.permutation(len(pool))
    jobs = [(pool[i].m, pool[i].data, pool[i].kwargs(base="e")) for i in order]
    p = subprocess.run([sys.executable, "-B", "-c", CHILD, REPO, ""], input=pickle.dumps(jobs), capture_output=True, timeout=200, env=child_env())
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-800:])
    out = pickle.loads(p.stdout)
    for i, o in zip(order, out):
        q = pool[i]
        c.check(eq(mine[i], o), "a fresh process answers differently", m=q.m, ap=q.ap, kw=q.kw, here=mine[i], fresh=o)


# --------------------------------------------------------------------- C09
prop("C09", quick=120, thorough=2500,
     rule="Each case evaluates 12-24 requests alone and then concurrently from 3-6 threads released by a barrier with a 1e-6 s interpreter switch interval, requests repeated in thread-specific orders, inputs shared between threads; every concurrent answer is compared with the one given alone; non-trivial = at least 20 answers were produced by overlapping threads.",
     assumptions=["CPython with the GIL: interleavings are at byte-code granularity and inside native calls that release the GIL", "one estimator object is used by one thread only"],
     procs=6)


@scenario("C09", 1)
def threads(c):
    r = c.rng
    warm()
    pool = [draw(r, labels=pick(r, ["int", "int", None]), det=True, n=int(r.integers(16, 50))) for _ in range(int(r.integers(8, 16)))]
    if r.random() < 0.5:  # same approach hammered from all threads
        ap = pick(r, ["nsb", "zhang", "ordinal", "bayes", "ksg", "kernel", "renyi", "discrete", "grassberger", "chao_wang_jost"])
        pool += [draw(r, pick(r, HASTEST), ap, labels="int", det=True, n=int(r.integers(16, 40))) for _ in range(6)]
    bases = [base(r) for _ in pool]
    seeds = [int(r.integers(100)) for _ in pool]
    c.note(pool=[(q.m, q.ap, q.kw) for q in pool], bases=bases, first=pool[0].note())

    def job(i):
        q = pool[i]
        out = [outcome(ask, q, bases[i])]
        if q.m not in ("kld", "jsd"):
            e = im.estimator(*q.data, measure=q.m, **q.kwargs(base=bases[i], **({"seed": seeds[i]} if q.m in HASTEST else {})))
            if testable(q) and q.ap not in ("nsb",):
                out.append(outcome(lambda: e.statistical_test(n_tests=3, method="permutation_test").test_values))
            out.append(outcome(e.local_vals))
            out.append(outcome(e.global_val))
        return out

    alone = [job(i) for i in range(len(pool))]
    c.events += sum(map(len, alone))
    T = int(r.integers(3, 7))
    orders = [r.permutation(len(pool)) for _ in range(T)]
    bar = threading.Barrier(T)
    got = [dict() for _ in range(T)]
    errs = []
    spans = []

    def work(t):
        try:
            bar.wait()
            for i in orders[t]:
                got[t][int(i)] = job(int(i))
        except BaseException as e:  # noqa
            errs.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        [t.start() for t in th]
        [t.join(150) for t in th]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in th):
        raise RuntimeError("thread did not finish")
    c.check(not errs, "exception escaped a concurrent call", errs=errs)
    for t in range(T):
        for i in range(len(pool)):
            q = pool[i]
            for j, (a, b) in enumerate(zip(got[t][i], alone[i])):
                c.events += 1
                c.check(eq(a, b, q.ap == "nsb"), "concurrent answer differs", nontrivial=False, m=q.m, ap=q.ap, kw=q.kw, part=j, got=a, alone=b, thread=t)
                c.tag("concurrent_answers")
    c.nontrivial = True
    c.check(im.Config.get("base") == "e", "configuration changed by concurrent calls")


# --------------------------------------------------------------------- C10
prop("C10", quick=160, thorough=1500,
     rule="Each case evaluates a kernel measure with 1 worker and with 2..7 or -1 workers: small samples for every measure and kernel, and samples above the 20000 row threshold where the evaluation is really distributed; non-trivial = finite values compared.",
     assumptions=["only kernel approaches accept a worker count"], procs=4)


def kcall(r, m, n, kern):
    kw = dict(kernel=kern, bandwidth=float(pick(r, [0.3, 0.6, 1.0])))
    k = dict(h=1, hx=2, jsd=2, kld=2, mi=2, cmi=3, te=2, cte=3)[m]
    vs = cdata(r, n, k) if m in ("mi", "cmi", "te", "cte") else [r.normal(size=n) for _ in range(k)]
    cond = None
    if m in ("cmi", "cte"):
        cond, vs = vs[-1], vs[:-1]
    return Call(m, "kernel", vs, cond, kw)


@scenario("C10", 6)
def small(c):
    r = c.rng
    m = pick(r, ["h", "hx", "kld", "mi", "cmi", "te", "cte"])
    q = kcall(r, m, int(r.integers(10, 600)), pick(r, ["box", "gaussian"]))
    if m == "h" and r.random() < 0.5:
        q.data = [tuple(cdata(r, len(q.data[0]), int(r.integers(2, 4))))]
    w = int(pick(r, [2, 3, 5, 7, -1]))
    c.note(**q.note(), workers=w)
    agree(c, q.run(c, workers=w), q.run(c, workers=1), "workers", "kernel", m=m, kw=q.kw, w=w)
    if m != "kld":
        e1, e2 = q.est(c, workers=1), q.est(c, workers=w)
        a, b = local_or_refusal(c, e1), local_or_refusal(c, e2)
        c.check((a is None) == (b is None), "local values depend on workers")
        if a is not None:
            c.close(b, a, "local values with workers", m=m, kw=q.kw)
    c.tag("small:" + m)


@scenario("C10", 2)
def boxlarge(c):
    r = c.rng
    m = pick(r, ["h", "mi", "te", "cmi", "cte"])
    q = kcall(r, m, int(r.integers(20000, 24000)), "box")
    q.kw["bandwidth"] = 0.1
    w = int(pick(r, [2, 3, -1]))
    c.note(**q.note(), workers=w)
    agree(c, q.run(c, workers=w), q.run(c, workers=1), "workers, large box sample", "kernel", m=m)
    c.tag("large-box:" + m)


@scenario("C10", 0.2)
def pooled(c):
    """Gaussian densities distributed over a process pool, order included."""
    r = c.rng
    m = pick(r, ["h", "h", "hx", "mi"]) if c.index else "h"
    n = int(r.integers(20000, 26000))
    w = int(pick(r, [2, 3, 4]))
    kw = dict(kernel="gaussian", bandwidth=0.4, approach="kernel")
    d = int(pick(r, [1, 2]))
    if m == "h":
        x = r.normal(size=(n, d)) if d > 1 else r.normal(size=n)
        data = [x]
    elif m == "hx":
        data = [r.normal(size=int(r.integers(16000, 20000))), r.normal(size=20000)]
    else:
        x = r.normal(size=20500)
        data = [x, x + r.normal(size=20500)]
    c.note(m=m, data=data, w=w)
    es = [c.call(im.estimator, *data, measure=m, workers=k, **kw) for k in (1, w)]
    vs = [c.call(e.result) for e in es]
    agree(c, vs[1], vs[0], "pooled Gaussian densities", "kernel", m=m, w=w, n=n)
    if m != "hx":
        ls = [c.call(e.local_vals) for e in es]
        c.close(ls[1], ls[0], "pooled local values", m=m, w=w)
    c.tag("pool:" + m)


# --------------------------------------------------------------------- C11
prop("C11", quick=12000, thorough=80000,
     rule="Each case draws a valid call (whose value is computed to show it is valid), spoils exactly one argument with a value from a class of inadmissible values and requires an exception; non-trivial = the valid twin gave a number and the spoiled call was refused.",
     assumptions=["logarithm bases, prior support sizes K and statistical plausibility of data are not validated by the package and not part of the property"])


def spoilers(r, q):
    """[(name, function(data, cond, kw) -> (data, cond, kw))] for a call."""
    S = []
    kw0 = q.kw

    def setk(name, **k):
        S.append((name, lambda d, z, kw: (d, z, {**kw, **k})))

    m, ap = q.m, q.ap
    nonint = [0, -1, -7, 2.5, "a", None, [1]]
    if m in ("mi", "cmi", "te", "cte"):
        S.append(("length", lambda d, z, kw: ([d[0], d[1][: -int(r.integers(1, 5))]] + d[2:], z, kw)))
        S.append(("length0", lambda d, z, kw: ([d[0][int(r.integers(1, 5)):]] + d[1:], z, kw)))
        S.append(("onevar", lambda d, z, kw: (d[:1], z, kw)))
        if z_ok(q):
            S.append(("condlength", lambda d, z, kw: (d, z[: -int(r.integers(1, 5))], kw)))
            S.append(("nocond", lambda d, z, kw: (d, None, kw)))
    if m in ("te", "cte"):
        S.append(("threevars", lambda d, z, kw: (d + [d[0]], z, kw)))
        for k in ("src_hist_len", "dest_hist_len", "step_size") + (("cond_hist_len",) if m == "cte" else ()):
            if not (k == "step_size" and ap == "ordinal"):
                setk(k, **{k: pick(r, [0, -1, -3, 1.5, "a", 10**4])})
    if m == "te":
        setk("prop_time", prop_time=pick(r, [1.5, 10**4, "a"]))
        setk("prop+offset", prop_time=1, offset=2)
    if m == "cte":
        setk("cte prop_time", prop_time=int(pick(r, [1, -1, 2])))
        setk("cte offset", offset=int(pick(r, [1, -1, 2])))
    if m == "mi":
        if len(q.data) == 2:
            setk("offset", offset=pick(r, [1.5, "a", 10**4, -10**4]))
        S.append(("offset3", lambda d, z, kw: (d[:2] + [d[0]], z, {**kw, "offset": int(pick(r, [1, -1, 3]))})))
        if ap in CONT_D:
            S.append(("normalize2d", lambda d, z, kw: ([np.column_stack([v, v[::-1]]) for v in d], z, {**{k: v for k, v in kw.items() if k != "offset"}, "normalize": True})))
    if m == "cmi":
        setk("cmi offset", offset=int(pick(r, [1, -1, 3])))
    if m == "h":
        S.append(("jointlength", lambda d, z, kw: ([(flat(d), flat(d)[:-2])], z, kw)))
        S.append(("threevars", lambda d, z, kw: ([flat(d)] * 3, z, kw)))
        S.append(("empty", lambda d, z, kw: ([flat(d)[:0]], z, kw)))
        S.append(("scalar", lambda d, z, kw: ([pick(r, [3, 2.5, None, "abc"])], z, kw)))
    if m in ("hx", "kld"):
        S.append(("tuple", lambda d, z, kw: ([(d[0], d[0]), d[1]], z, kw)))
        S.append(("onevar", lambda d, z, kw: (d[:1], z, kw)))
        S.append(("threevars", lambda d, z, kw: (d + d[:1], z, kw)))
    S.append(("nodata", lambda d, z, kw: ([], z, kw)))
    setk("keyword", **{pick(r, ["bogus", "kk", "band_width", "Base", "hist_len"]): 1})
    if "k" in kw0:
        setk("k", k=pick(r, [0, -1, "a", 10**4] + ([2.5] if ap in ("kl", "ksg") else [])))
    if ap in ("kl", "ksg"):
        setk("minkowski_p", minkowski_p=pick(r, [0.5, 0, -1, 0.99]))
        setk("ksg_id", ksg_id=pick(r, [0, 3, -1, 12]))
    if ap == "kl":
        setk("noise", noise_level=-0.5)
    if ap == "kernel":
        setk("bandwidth", bandwidth=pick(r, [0, -1, -0.3, "a", None]))
        setk("kernel", kernel=pick(r, ["triangle", "", "boxx", "epanechnikov"]))
    if ap == "renyi":
        setk("alpha", alpha=pick(r, [0, -1, -0.5, "a", None]))
    if ap == "tsallis":
        setk("q", q=pick(r, [0, -1, -0.5, "a", None]))
    if ap == "bayes":
        setk("prior", alpha=pick(r, ["foo", "", "jeffreys-prior", None, [1]]))
    if ap == "ordinal":
        setk("embedding_dim", embedding_dim=pick(r, [0, -1, 2.5, "a", 10**4]))
        setk("ostep", step_size=pick(r, [0, -1, 1.5]))
    return S


def flat(d):
    return d[0][0] if isinstance(d[0], tuple) else d[0]


def z_ok(q):
    return q.cond is not None


@scenario("C11", 8)
def rejected(c):
    r = c.rng
    q = draw(r, labels="int", det=True, n=int(r.integers(20, 60)))
    S = spoilers(r, q)
    name, f = S[int(r.integers(len(S)))]
    c.note(**q.note(), spoiled=name)
    v = q.run(c)
    c.check(np.ndim(v) == 0, "valid call gave no scalar", nontrivial=False)
    d, z, kw = f(list(q.data), q.cond, dict(q.kw))
    p = Call(q.m, q.ap, d, z, kw)
    way = pick(r, ["functional", "estimator"]) if q.m not in ("kld", "jsd") else "functional"

    def go():
        if way == "functional":
            return getattr(im, q.m)(*p.data, **p.kwargs())
        e = im.estimator(*p.data, measure=q.m, **p.kwargs())
        return e.result()

    if way == "estimator" and name == "onevar" and q.m in ("mi", "cmi"):
        raise Skip("estimator() of one variable is the documented self-information shortcut")
    go.__qualname__ = f"{q.m}[{q.ap}] with bad {name} ({ {k: short(v) for k, v in kw.items() if k not in q.kw or q.kw[k] is not v} }) via {way}"
    c.raises(Exception, go)
    c.tag(f"bad:{name}")


@scenario("C11", 1)
def objects(c):
    """Tests, percentiles, settings and units reject bad arguments."""
    r = c.rng
    q = draw(r, pick(r, HASTEST), labels="int", det=True, n=int(r.integers(16, 30)), nvars=2)
    c.note(**q.note())
    est = q.est(c)
    g = c.call(est.global_val)
    for bad in (0, -1, 1, 2.5, "5", None)[: 5]:
        c.raises((ValueError, TypeError), est.statistical_test, n_tests=bad, method="permutation_test")
    for bad in ("perm", "", "Bootstrap ", 3, "permutation"):
        c.raises((ValueError, TypeError), est.statistical_test, n_tests=3, method=bad)
    if q.m in ("te", "cte"):
        for bad in ("perm", "", 3):
            c.raises((ValueError, TypeError), est.effective_val, method=bad)
    agree(c, c.call(est.global_val), g, "value after rejected tests", q.ap)
    res = c.call(est.statistical_test, n_tests=3)
    for lv in (0, 100, -5, 101, 250):
        c.raises(ValueError, res.confidence_interval, lv)
    for pc in (-1, 101, 1000):
        c.raises(ValueError, res.percentile, pc)
    if q.m in ("mi", "cmi") :
        e3 = c.call(im.estimator, *(list(q.data) + [q.data[0]]), measure=q.m, **{k: v for k, v in q.kwargs().items() if k != "offset"})
        c.raises((io.UnsupportedOperation, ValueError, NotImplementedError), e3.statistical_test, n_tests=3)
    h = draw(r, "h", labels="int", det=True, n=20)
    e = h.est(c)
    c.raises((AttributeError, NotImplementedError, io.UnsupportedOperation), lambda: e.statistical_test(n_tests=3))


@scenario("C11", 1)
def settings(c):
    r = c.rng
    C = im.Config
    before = {k: C.get(k) for k in ("base", "statistical_test_method", "statistical_test_n_tests")}
    bad = [("base", v) for v in ("2", "E", None, [2], "bits", (2,), {})] + [("statistical_test_method", v) for v in ("perm", "", None, 3, "Bootstrap")] + [("statistical_test_n_tests", v) for v in (2.5, "10", None, [5], "e")]
    k, v = bad[int(r.integers(len(bad)))]
    c.note(k=k, v=v)
    c.raises(TypeError, C.set, k, v)
    c.raises(KeyError, C.set, pick(r, ["Base", "bases", "", "n_tests", None, 3]), 2)
    c.raises(KeyError, C.get, pick(r, ["Base", "bases", "", "n_tests"]))
    c.raises(ValueError, C.set_logarithmic_unit, pick(r, ["bitss", "", "e", "2", "natural", "byte", "bit "]))
    c.check({k: C.get(k) for k in before} == before, "rejected setting changed the configuration")


# --------------------------------------------------------------------- C12
prop("C12", quick=8000, thorough=50000,
     rule="Each case is a random history of 20-80 configuration operations (valid and invalid sets, units, resets, gets, estimates, tests) checked step by step against a dictionary model; non-trivial = at least one set changed the model and was read back.")

UNITS = {2: ["bits", "bit", "shannons", "shannon"], "e": ["nats", "nat", "nit", "nepit"], 10: ["hartleys", "hartley", "bans", "ban", "dits", "dit"]}
NAMESU = {2: "bit", "e": "nat", 10: "hartley"}


@scenario("C12", 1)
def model(c):
    r = c.rng
    C = im.Config
    D = dict(base="e", statistical_test_method="permutation_test", statistical_test_n_tests=200)
    M = dict(D)
    x = r.integers(0, 4, 30)
    y = (x + r.integers(0, 2, 30)) % 4
    hx = R.H(R.sym(x))
    e = c.call(im.estimator, x, y, measure="mi", approach="discrete", seed=1)
    held = c.call(im.estimator, x, measure="h", approach="discrete")
    log = []
    for _ in range(int(r.integers(20, 80))):
        op = pick(r, ["set", "set", "unit", "bad", "badkey", "badunit", "reset", "get", "use", "test", "name", "desc"])
        if op == "set":
            k = pick(r, list(D))
            v = {"base": lambda: pick(r, [2, 10, "e", 3, 2.5, 7, 1.5, 100.0, 2.0, 10.0, np.float64(2.0), np.float64(10.0), 1000, 257, math.e]), "statistical_test_method": lambda: pick(r, ["bootstrap", "permutation_test"]), "statistical_test_n_tests": lambda: int(r.integers(2, 12)) if r.random() < 0.9 else int(pick(r, [0, 1, -3, 10**6]))}[k]()
            c.call(C.set, k, v)
            M[k] = v
            log.append((k, v))
            c.nontrivial = True
        elif op == "unit":
            b = pick(r, [2, "e", 10])
            u = cased(r, pick(r, UNITS[b]))
            c.call(C.set_logarithmic_unit, u)
            M["base"] = b
            log.append(u)
        elif op == "bad":
            k, v = pick(r, [("base", "two"), ("base", None), ("statistical_test_method", "x"), ("statistical_test_n_tests", 2.5), ("statistical_test_n_tests", "e"), ("statistical_test_method", 2), ("base", "bootstrap")])
            c.raises(TypeError, C.set, k, v)
            log.append(("bad", k, v))
        elif op == "badkey":
            c.raises(KeyError, C.set, pick(r, ["Base", "x", ""]), 2)
            c.raises(KeyError, C.get, "x")
        elif op == "badunit":
            c.raises(ValueError, C.set_logarithmic_unit, pick(r, ["x", "", "2", "e", "natss"]))
        elif op == "reset":
            c.call(C.reset)
            M = dict(D)
            log.append("reset")
        elif op == "use":
            c.close(c.call(im.entropy, x, approach="discrete"), hx / R.lnb(M["base"]), "entropy in the configured base", log=log[-8:])
            b = base(r)
            c.close(c.call(im.entropy, x, approach="discrete", base=b), hx / R.lnb(b), "entropy in the passed base", log=log[-8:])
            c.close(c.call(held.result), hx, "value of an estimator built before", log=log[-8:])
        elif op == "test" and M["statistical_test_n_tests"] < 2:
            c.raises((ValueError, TypeError), e.statistical_test)
        elif op == "test" and M["statistical_test_n_tests"] <= 12:
            t = c.call(e.statistical_test)
            c.check(t.n_tests == M["statistical_test_n_tests"] == len(t.test_values) and t.method == M["statistical_test_method"], "defaults of the statistical test", got=(t.n_tests, t.method), model=M, log=log[-8:])
            t = c.call(e.statistical_test, n_tests=3, method="bootstrap")
            c.check(t.n_tests == 3 and t.method == "bootstrap" and len(t.test_values) == 3, "passed test settings", got=(t.n_tests, t.method), model=M)
        elif op == "name":
            nm = c.call(C.get_logarithmic_unit)
            b = M["base"]
            if b in NAMESU:
                c.check(NAMESU[b] in nm, "unit name", got=nm, model=M, log=log[-8:])
            else:
                c.check(str(b) in nm and not any(v in nm for v in NAMESU.values()), "unit name of other bases", got=nm, model=M)
        elif op == "desc":
            if M["base"] in NAMESU:
                d = c.call(C.get_logarithmic_unit_description)
                c.check(isinstance(d, str) and len(d) > 10, "unit description", got=d)
            else:
                c.raises(ValueError, C.get_logarithmic_unit_description)
        got = {k: c.call(C.get, k) for k in D}
        c.check(got == M, "configuration differs from the model", nontrivial=False, got=got, model=M, log=log[-8:])
    c.note(log=log, x=x)
