"""A11, B01-B05: identities, local values, invariances, bases, inequalities."""
import io
import math

import numpy as np

from ..core import prop, scenario, Skip, same, Violation
from ..catalog import *
from ..gen import *
from .. import refs as R

LN2 = math.log(2)


def scale_of(*v):
    v = [abs(float(x)) for x in v if np.isfinite(x)]
    return max([1.0] + v)


def agree(c, a, b, what, ap, **ctx):
    t = tolof(ap)
    s = scale_of(a, b) if np.ndim(a) == 0 else 1.0
    c.close(a, b, what, rtol=t["rtol"], atol=t["atol"] * s, **ctx)
    if np.ndim(a) == 0 and np.isfinite(a):
        c.nontrivial = True


# ------------------------------------------------------------------- A11
prop("A11", quick=8000, thorough=40000,
     rule="Each case draws a pair or group of samples and an approach and evaluates one family of divergence identities; non-trivial = a finite divergence was compared.",
     assumptions=["bounds of the JSD are only required of approaches whose estimated distributions are normalised"])


def same_sample(r, q):
    """The second sample is the first one: the same object, a view or a copy."""
    x = q.data[0]
    if q.ap in ("kl", "renyi", "tsallis"):
        q.kw["k"] = max(2, q.kw["k"])  # the first neighbour is the sample itself
    q.data = [x, pick(r, [x, x[:], x[::-1], x.copy()])]


@scenario("A11", 3)
def kld_identity(c):
    r = c.rng
    q = draw(r, "kld", labels=None)
    if r.random() < 0.2:
        same_sample(r, q)
    b = base(r)
    c.note(**q.note(), base=b)
    k = q.run(c, base=b)
    hx = c.call(im.cross_entropy, *q.data, **q.kwargs(base=b))
    h = c.call(im.entropy, q.data[0], **q.kwargs(base=b))
    agree(c, k, hx - h, "KLD = H_Q(P) - H(P)", q.ap, kw=q.kw)
    e = c.call(im.estimator, *q.data, measure="hx", **q.kwargs(base=b))
    agree(c, c.call(e.global_val), hx, "cross-entropy estimator", q.ap)
    c.tag("kld:" + q.ap)


@scenario("A11", 3)
def jsd_laws(c):
    r = c.rng
    q = draw(r, "jsd", labels=pick(r, [None, "int"]))
    b = base(r)
    c.note(**q.note(), base=b)
    j = q.run(c, base=b)
    perm = r.permutation(len(q.data))
    agree(c, q.with_data([q.data[i] for i in perm]).run(c, base=b), j, "JSD symmetric", q.ap, kw=q.kw)
    if q.ap != "kernel":
        n = len(q.data)
        c.check(-1e-9 <= j <= math.log(n) / R.lnb(b) + 1e-9, "JSD outside [0, log n]", j=j, n=n, ap=q.ap, kw=q.kw)
    if q.ap != "kernel" or q.kw["kernel"] == "box":
        x = q.data[0]
        agree(c, q.with_data([x, x.copy()] + [x] * int(r.integers(0, 2))).run(c, base=b), 0.0, "JSD of identical samples", q.ap)
        agree(c, q.with_data([x, r.permutation(x)]).run(c, base=b) if q.ap != "ordinal" else 0.0, 0.0, "JSD of reordered samples", q.ap)
    c.tag("jsd:" + q.ap)


@scenario("A11", 2)
def discrete_laws(c):
    r = c.rng
    n = size(r, 2, 200, 0)
    k = int(r.integers(1, 8))
    cx = codes(r, n, k, pick(r, ["iid", "skew"]))
    cy = np.concatenate([cx, codes(r, n, k + int(r.integers(0, 3)), "skew")])  # supp P in supp Q
    lab, _ = relabel(r, np.concatenate([cx, cy]))
    x, y = lab[:n], lab[n:]
    b = base(r)
    c.note(x=x, y=y, base=b)
    kl = c.call(im.kld, x, y, approach="discrete", base=b)
    c.check(kl >= -1e-9, "negative KLD", kl=kl)
    c.close(c.call(im.kld, x, np.concatenate([x, r.permutation(x)]), approach="discrete", base=b), 0.0, "KLD of identical distributions")
    # equal sizes: the pooled sample has the averaged distribution
    m = int(r.integers(2, 5))
    vs = np.split(relabel(r, codes(r, n * m, int(r.integers(1, 8)), "skew"))[0], m)
    pool = np.concatenate(vs)
    j = c.call(im.jsd, *vs, approach="discrete", base=b)
    c.close(j, np.mean([c.call(im.kld, v, pool, approach="discrete", base=b) for v in vs]), "JSD = mean KLD to the mixture")
    # JSD = MI between label and membership for equal sizes
    memb = np.repeat(np.arange(m), n)
    c.close(j, c.call(im.mi, pool, memb, approach="discrete", base=b), "JSD = I(label; sample index)")


@scenario("A11", 1)
def refusals(c):
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError as TIE

    r = c.rng
    x, y = disc(r, 30, 4, "int"), disc(r, 30, 4, "int")
    ap = pick(r, [a for a in DISC if a not in HX])
    c.note(x=x, y=y, ap=ap)
    c.raises((TIE, ValueError, NotImplementedError), im.cross_entropy, x, y, approach=ap)
    c.raises((TIE, ValueError, NotImplementedError), im.kld, x, y, approach=ap)
    bad = pick(r, ["kl", "renyi", "tsallis", "miller_madow", "grassberger", "chao_shen", "chao_wang_jost", "bonachela", "zhang", "nsb", "ansb"])
    kw = {"renyi": dict(alpha=1.5), "tsallis": dict(q=1.5)}.get(bad, {})
    c.raises(ValueError, im.jsd, x.astype(float) + r.random(30), y.astype(float) + r.random(30), approach=bad, **kw)


# ------------------------------------------------------------------- B01
prop("B01", quick=2400, thorough=25000,
     rule="Each case draws a measure and approach with local values, data, parameters and base; length, finiteness, mean, query-order independence, equal-observation equality and the pointwise formula (where closed) are compared; non-trivial = at least one finite comparison.",
     assumptions=["shrinkage local values are excluded (documented as not averaging to the entropy)"])


def pointwise(q, b):
    """Closed pointwise values (nats/ln b) or None."""
    ss = None
    if q.m == "h" and q.ap in ("discrete", "miller_madow", "grassberger", "zhang", "ordinal"):
        x = q.data[0]
        if q.ap == "ordinal":
            vs = x if isinstance(x, tuple) else (x,)
            s = R.zipn(*[R.patterns(v, q.kw["embedding_dim"], q.kw.get("step_size", 1)) for v in vs])
        else:
            s = R.sym(x)
        ct, n = R.counts(s), len(s)
        if q.ap in ("discrete", "ordinal"):
            f = {k: -math.log(v / n) for k, v in ct.items()}
        elif q.ap == "miller_madow":
            f = {k: -math.log(v / n) + (len(ct) - 1) / (2 * n) for k, v in ct.items()}
        elif q.ap == "grassberger":
            f = {k: math.log(n) - float(R.psi(v)) - (-1) ** v / (v + 1) for k, v in ct.items()}
        else:
            f = {}
            for k, v in ct.items():
                t, pr = 0.0, 1.0
                for w in range(1, n - v + 1):
                    pr *= 1 + (1 - v) / (n - w)
                    t += pr / w
                f[k] = t
        return np.array([f[k] for k in s]) / R.lnb(b)
    if q.ap not in ("discrete", "miller_madow", "ordinal") or q.m not in ("mi", "cmi", "te", "cte"):
        return None
    kw = q.kw
    st = kw.get("step_size", 1)
    pat = (lambda v: R.patterns(v, kw["embedding_dim"], st)) if q.ap == "ordinal" else R.sym
    mm = 0.0
    if q.m == "mi":
        v = q.data
        if kw.get("offset"):
            v = R.shift(v[0], v[1], kw["offset"])
        ss = [pat(x) for x in v]
        out = R.mi_local(*ss)
        if q.ap == "miller_madow":
            mm = R.mm_mi_corr(ss)
    elif q.m == "cmi":
        ss, z = [pat(x) for x in q.data], pat(q.cond)
        out = R.cmi_local(ss, z)
        if q.ap == "miller_madow":
            mm = R.mm_mi_corr(ss, z)
    else:
        a = (kw.get("src_hist_len", 1), kw.get("dest_hist_len", 1), st)
        x, y = q.data
        if q.m == "te":
            x, y = R.shift(x, y, kw.get("prop_time", 0) * st)
            S, F, D = R.embed(pat(x), pat(y), *a)
        else:
            S, F, D, C = R.embed(pat(x), pat(y), *a, 0, pat(q.cond), kw.get("cond_hist_len", 1))
            D = R.zipn(D, C)
        out = R.cmi_local([S, F], D)
        if q.ap == "miller_madow":
            u = lambda *t: len(set(R.zipn(*t)))
            mm = (u(F, D) + u(S, D) - u(S, F, D) - u(D)) / (2 * len(F))
    return (out + mm) / R.lnb(b)


def nobs(q):
    """Number of observations of the effective sample."""
    d = q.data[0][0] if isinstance(q.data[0], tuple) else q.data[0]
    n = len(d)
    st = q.kw.get("step_size", 1)
    if q.m == "mi":
        n -= abs(q.kw.get("offset") or 0)
    if q.m == "te":
        n -= abs(q.kw.get("prop_time", 0)) * st
    if q.ap == "ordinal":
        n -= (q.kw["embedding_dim"] - 1) * st
    if q.m in ("te", "cte"):
        h = max(q.kw.get("src_hist_len", 1), q.kw.get("dest_hist_len", 1), q.kw.get("cond_hist_len", 1) if q.m == "cte" else 0)
        n = len(range(h * st, n, st))
    return n


@scenario("B01", 6)
def local(c):
    r = c.rng
    m = pick(r, ["h", "h", "mi", "cmi", "te", "cte"])
    ap = pick(r, LOCAL_H if m == "h" else LOCAL_DERIVED)
    q = draw(r, m, ap, labels=pick(r, [None, "int", "neg"]))
    b = base(r)
    c.note(**q.note(), base=b)
    first = r.random() < 0.5
    e = q.est(c, base=b)
    if first:
        lv = c.call(e.local_vals)
        g = c.call(e.global_val)
    else:
        g = c.call(e.global_val)
        lv = c.call(e.local_vals)
    lv = np.asarray(lv)
    c.check(lv.shape == (nobs(q),), "one local value per observation", shape=list(lv.shape), want=nobs(q), m=m, ap=ap, kw=q.kw)
    c.check(bool(np.isfinite(lv).all()), "local values finite", m=m, ap=ap)
    c.close(np.mean(lv), g, "mean of local values", m=m, ap=ap, kw=q.kw)
    e2 = q.est(c, base=b)
    if first:
        c.close(c.call(e2.global_val), g, "global value does not depend on query order", rtol=1e-12, atol=1e-12)
        c.close(c.call(e2.local_vals), lv, "local values do not depend on query order", rtol=1e-12, atol=1e-12)
    else:
        c.close(c.call(e2.local_vals), lv, "local values do not depend on query order", rtol=1e-12, atol=1e-12)
        c.close(c.call(e2.global_val), g, "global value does not depend on query order", rtol=1e-12, atol=1e-12)
    c.close(c.call(e2.result), g, "result()", rtol=1e-12, atol=1e-12)
    want = pointwise(q, b)
    if want is not None:
        c.close(lv, want, "pointwise values", m=m, ap=ap, kw=q.kw)
        c.tag("pointwise:%s:%s" % (m, ap))
    c.tag("%s:%s" % (m, ap))


@scenario("B01", 0.15)
def long(c):
    """Local values of long samples of several variables."""
    r = c.rng
    n = int(r.integers(1500, 9000))
    m = pick(r, ["h", "mi", "mi", "cmi", "te", "cte"])
    ap = pick(r, ["discrete", "miller_madow", "ordinal"])
    nv = int(pick(r, [2, 3, 5, 6, 7]))
    k = int(pick(r, [2, 2, 3, 5]))
    vs = [codes(r, n, k, pick(r, ["skew", "iid"])) if ap != "ordinal" else r.normal(size=n) for _ in range(nv if m in ("mi", "cmi") else 2)]
    z = codes(r, n, k, "iid") if ap != "ordinal" else r.normal(size=n)
    kw = dict(embedding_dim=int(r.integers(2, 4))) if ap == "ordinal" else {}
    if m in ("te", "cte"):
        kw.update(src_hist_len=int(r.integers(1, 3)), dest_hist_len=int(r.integers(1, 3)))
    q = Call(m, ap, vs if m != "h" else [vs[0]], z if m in ("cmi", "cte") else None, kw)
    c.note(**q.note())
    e = q.est(c)
    g, lv = c.call(e.global_val), c.call(e.local_vals)
    c.check(np.shape(lv) == (nobs(q),), "one local value per observation", m=m, ap=ap)
    c.close(np.mean(lv), g, "mean of local values", m=m, ap=ap, kw=q.kw)
    c.close(lv, pointwise(q, "e"), "pointwise values", m=m, ap=ap, kw=q.kw)
    c.tag("long:%s:%s" % (m, ap))


@scenario("B01", 2)
def sample_order(c):
    """Permuting the observations permutes the local values."""
    r = c.rng
    m = pick(r, ["h", "mi", "cmi"])
    ap = pick(r, [a for a in (LOCAL_H if m == "h" else LOCAL_DERIVED) if a != "ordinal"])
    q = draw(r, m, ap, labels=pick(r, [None, "int"]))
    q.kw.pop("offset", None)
    b = base(r)
    c.note(**q.note(), base=b)
    d0 = q.data[0][0] if isinstance(q.data[0], tuple) else q.data[0]
    p = r.permutation(len(d0))
    f = lambda v: tuple(x[p] for x in v) if isinstance(v, tuple) else v[p]
    q2 = q.with_data([f(v) for v in q.data], None if q.cond is None else f(q.cond))
    a = c.call(q.est(c, base=b).local_vals)
    a2 = c.call(q2.est(c, base=b).local_vals)
    c.close(a2, np.asarray(a)[p], "local values in sample order", m=m, ap=ap, rtol=1e-7, atol=1e-8)
    c.tag("order:%s:%s" % (m, ap))


@scenario("B01", 2)
def refusals(c):
    from infomeasure.utils.exceptions import TheoreticalInconsistencyError as TIE

    r = c.rng
    m = pick(r, ["h", "hx", "mi", "cmi", "te", "cte"])
    ap = pick(r, HX if m == "hx" else ["renyi", "tsallis", "chao_shen", "chao_wang_jost", "bonachela", "bayes", "nsb", "ansb"])
    q = draw(r, m, ap)
    if m != "hx" and ap == "bayes":
        # Bayes offers pointwise values of its own distribution
        q = draw(r, m, "ansb")
    if nobs(q) < 1:
        raise Skip("no observations left")
    c.note(**q.note())
    e = q.est(c)
    c.raises((io.UnsupportedOperation, TIE), e.local_vals)
    e2 = q.est(c)
    agree(c, c.call(e.global_val), c.call(e2.global_val), "a refused local query leaves the value", q.ap)
    c.tag("refused:%s:%s" % (m, q.ap))


# ------------------------------------------------------------------- B02
prop("B02", quick=6000, thorough=30000,
     rule="Each case draws a discrete approach, measure, integer-coded data and one transformation (relabelling into 16 label kinds, joint reordering of observations, exchange of variables); non-trivial = finite value compared.",
     assumptions=["NSB agrees to quadrature accuracy"])


def relab_all(r, q, joint_labels):
    """Injective relabelling; measures that compare samples need a common map."""
    kinds = ["neg", "neg", "neg", "sparse", "int8", "int8", "uint8", "uint16", "int32", "uint64", "str", "ustr", "float", "big", "alias", "ulp", "strmix", "bool"]
    if joint_labels:
        kind = pick(r, kinds)
        sizes = [len(v) for v in q.data]
        lab = relabel(r, np.concatenate(q.data), kind)[0]
        return q.with_data(np.split(lab, np.cumsum(sizes)[:-1])), kind
    one = pick(r, kinds) if r.random() < 0.6 else None
    f = lambda v: relabel(r, v, one or pick(r, kinds))[0]
    data = [tuple(f(x) for x in v) if isinstance(v, tuple) else f(v) for v in q.data]
    return q.with_data(data, None if q.cond is None else f(q.cond)), one


@scenario("B02", 4)
def relabelling(c):
    r = c.rng
    m = pick(r, ["h", "hx", "kld", "jsd", "mi", "mi", "cmi", "te", "cte"])
    ap = pickap(r, m, lambda a: a in DISC)
    q = draw(r, m, ap)
    b = base(r)
    q2, kind = relab_all(r, q, m in ("hx", "kld", "jsd"))
    c.note(**q.note(), base=b, new=q2.data, newcond=q2.cond)
    agree(c, q2.run(c, base=b), q.run(c, base=b), f"{m} {ap} under relabelling", ap, kind=kind, kw=q.kw)
    c.tag("%s:%s" % (m, ap))


@scenario("B02", 2)
def reorder(c):
    r = c.rng
    m = pick(r, ["h", "hx", "kld", "jsd", "mi", "cmi"])
    ap = pickap(r, m, lambda a: a in DISC)
    q = draw(r, m, ap, labels=pick(r, [None, "int"]))
    q.kw.pop("offset", None)
    b = base(r)
    c.note(**q.note(), base=b)
    if m in ("hx", "kld", "jsd"):
        q2 = q.with_data([r.permutation(v) for v in q.data])
    else:
        d0 = q.data[0][0] if isinstance(q.data[0], tuple) else q.data[0]
        p = r.permutation(len(d0))
        f = lambda v: tuple(x[p] for x in v) if isinstance(v, tuple) else v[p]
        q2 = q.with_data([f(v) for v in q.data], None if q.cond is None else f(q.cond))
    agree(c, q2.run(c, base=b), q.run(c, base=b), f"{m} {ap} under reordering", ap, kw=q.kw)
    c.tag("%s:%s" % (m, ap))


@scenario("B02", 2)
def exchange(c):
    r = c.rng
    m = pick(r, ["h", "mi", "mi", "cmi", "cmi"])
    ap = pickap(r, m, lambda a: a in DISC)
    if m == "h":
        vs = dvars(r, size(r, 5, 120, 0), int(r.integers(2, 5)), 4)
        q = Call("h", ap, [tuple(vs)], None, akw(r, ap, m, 0))
        p = r.permutation(len(vs))
        q2 = q.with_data([tuple(vs[i] for i in p)])
    else:
        q = draw(r, m, ap, nvars=int(pick(r, [2, 3, 4])), labels=pick(r, [None, "int"]))
        q.kw.pop("offset", None)
        q2 = q.with_data([q.data[i] for i in r.permutation(len(q.data))])
        if r.random() < 0.3 and len(q.data) == 2 and m == "mi":
            o = int(r.integers(1, 4))
            q.kw["offset"] = o
            q2 = q.with_data(q.data[::-1])
            q2.kw["offset"] = -o
    b = base(r)
    c.note(**q.note(), base=b)
    agree(c, q2.run(c, base=b), q.run(c, base=b), f"{m} {ap} under exchange of variables", ap, kw=q.kw)
    c.tag("%s:%s" % (m, ap))


# ------------------------------------------------------------------- B03
prop("B03", quick=4000, thorough=25000,
     rule="Each case draws a continuous or ordinal approach, measure, data and one transformation (translation, reordering, exchange, scaling, per-variable affine map with normalize, increasing map); non-trivial = finite value compared.",
     assumptions=["transformations are powers of two or moderate so that rounding stays below the tolerance"])


def tr(q, f):
    g = lambda v: tuple(f(x) for x in v) if isinstance(v, tuple) else f(v)
    return q.with_data([g(v) for v in q.data], None if q.cond is None else g(q.cond))


def close3(c, got, want, what, **ctx):
    c.close(got, want, what, rtol=1e-6, atol=1e-7 * scale_of(got, want), **ctx)


def cdraw(r, ms, aps=None):
    m = pick(r, ms)
    ap = pick(r, [a for a in approaches(m) if kindof(a) == "cont" and (aps is None or a in aps)])
    return draw(r, m, ap)


@scenario("B03", 2)
def translate(c):
    r = c.rng
    q = cdraw(r, ["h", "hx", "kld", "mi", "cmi", "te", "cte"])
    b = base(r)
    c.note(**q.note(), base=b)
    if q.m in ("hx", "kld"):
        t = float(r.integers(-64, 64))
        q2 = tr(q, lambda v: v + t)
    else:
        q2 = tr(q, lambda v: v + float(r.integers(-64, 64)))
    if q.kw.get("kernel") == "box":
        # rounding may move a pair over the box boundary: keep exact
        q = tr(q, lambda v: np.round(v * 2**30) / 2**30)
        t = float(r.integers(-64, 64))
        q2 = tr(q, lambda v: v + t)
        if q.kw.get("normalize"):
            raise Skip("normalization rounds")
    close3(c, q2.run(c, base=b), q.run(c, base=b), f"{q.m} {q.ap} under translation", kw=q.kw)
    c.tag("translate:%s:%s" % (q.m, q.ap))


@scenario("B03", 2)
def far(c):
    """Samples far away from the origin, or of an extreme scale: on a dyadic
    grid, the translated differences are exact."""
    r = c.rng
    q = cdraw(r, ["h", "hx", "kld", "mi", "cmi", "te", "cte"])
    b = base(r)
    q = tr(q, lambda v: np.round(v * 2**20) / 2**20)
    gauss = q.kw.get("kernel") == "gaussian"
    top = 14 if gauss else 30
    shift = lambda: float(pick(r, [-1, 1]) * (int(r.integers(2**8, 2**top)) + 2.0 ** int(r.integers(8, top))) / 2)
    if q.m in ("hx", "kld") or r.random() < 0.5:
        t = shift()
        q2 = tr(q, lambda v: v + t)
    else:
        q2 = tr(q, lambda v: v + shift())
    c.note(**q.note(), base=b, new=q2.data)
    v = q.run(c, base=b)
    close3(c, q2.run(c, base=b), v, f"{q.m} {q.ap} under a large translation", kw=q.kw)
    if q.m in ("mi", "cmi", "te", "cte") and q.ap in ("ksg", "kl") or q.m == "kld" and q.ap == "kl":
        a = 2.0 ** int(pick(r, [-60, -40, -25, 25, 40, 60]))
        close3(c, tr(q, lambda v: v * a).run(c, base=b), v, f"{q.m} {q.ap} under a large scaling", kw=q.kw, a=a)
    elif q.ap == "kl" and q.m in ("h", "hx"):
        j = int(pick(r, [-60, -40, -25, 25, 40, 60]))
        d = len(q.data[0]) if isinstance(q.data[0], tuple) else 1
        close3(c, tr(q, lambda v: v * 2.0**j).run(c, base=b), v + d * j * math.log(2) / R.lnb(b), f"{q.m} {q.ap} under a large scaling", kw=q.kw)
    c.tag("far:%s:%s" % (q.m, q.ap))


@scenario("B03", 2)
def reorder(c):
    r = c.rng
    q = cdraw(r, ["h", "hx", "kld", "jsd", "mi", "cmi"])
    q.kw.pop("offset", None)
    b = base(r)
    c.note(**q.note(), base=b)
    if q.m in ("hx", "kld", "jsd"):
        q2 = q.with_data([r.permutation(v) for v in q.data])
    else:
        d0 = q.data[0][0] if isinstance(q.data[0], tuple) else q.data[0]
        p = r.permutation(len(d0))
        q2 = tr(q, lambda v: v[p])
    close3(c, q2.run(c, base=b), q.run(c, base=b), f"{q.m} {q.ap} under reordering", kw=q.kw)
    c.tag("reorder:%s:%s" % (q.m, q.ap))


@scenario("B03", 2)
def exchange(c):
    r = c.rng
    q = cdraw(r, ["mi", "cmi"])
    if q.kw.get("offset"):
        q2 = q.with_data(q.data[::-1])
        q2.kw["offset"] = -q.kw["offset"]
    else:
        q2 = q.with_data([q.data[i] for i in r.permutation(len(q.data))])
    b = base(r)
    c.note(**q.note(), base=b)
    close3(c, q2.run(c, base=b), q.run(c, base=b), f"{q.m} {q.ap} under exchange", kw=q.kw)
    if q.m == "mi":
        vs = cdata(r, 50, 3)
        ap = pick(r, ["kernel", "kl", "renyi", "tsallis"])
        kw = akw(r, ap, "h", 50)
        a = c.call(im.entropy, tuple(vs), approach=ap, **kw)
        close3(c, c.call(im.entropy, tuple(vs[i] for i in r.permutation(3)), approach=ap, **kw), a, "joint entropy under exchange", kw=kw)
    c.tag("exchange:%s:%s" % (q.m, q.ap))


@scenario("B03", 3)
def scaling(c):
    r = c.rng
    q = cdraw(r, ["h", "hx", "kld", "mi", "cmi", "te", "cte"])
    b = base(r)
    a = float(2.0 ** r.integers(-7, 8)) * pick(r, [1, 1, -1])
    if q.ap == "kernel" and q.kw["kernel"] == "gaussian":
        # the bandwidth is relative to the covariance
        a = float(np.sign(a) * min(max(abs(a), 0.25), 64))
    q2 = tr(q, lambda v: v * a)
    if q.m in ("hx", "kld") and q.kw.get("kernel") == "box" and np.any(R.kde_box(q.data[1], q.data[0], q.kw["bandwidth"]) == 0):
        raise Skip("points without density are left out of the cross-entropy")
    if q.kw.get("kernel") == "box" and not q.kw.get("normalize"):
        q2.kw["bandwidth"] = q.kw["bandwidth"] * abs(a)
    if q.kw.get("kernel") == "box" and q.kw.get("normalize") and a < 0:
        q2 = tr(q, lambda v: v * -a)
    c.note(**q.note(), base=b, a=a)
    v, w = q.run(c, base=b), q2.run(c, base=b)
    d = len(q.data[0]) if isinstance(q.data[0], tuple) else 1
    la = math.log(abs(a)) / R.lnb(b)
    if q.m in ("h", "hx"):
        if q.ap == "tsallis" and q.kw["q"] != 1:
            s = abs(a) ** (d * (1 - q.kw["q"]))
            i0 = 1 - v * (q.kw["q"] - 1)
            close3(c, 1 - w * (q.kw["q"] - 1), i0 * s, "Tsallis entropy under scaling", kw=q.kw)
        else:
            close3(c, w, v + d * la, f"{q.m} {q.ap} under scaling", kw=q.kw, a=a)
    elif q.ap == "tsallis" and q.kw["q"] != 1 and not q.kw.get("normalize"):
        raise Skip("no simple law")
    elif q.m == "cmi" and len(q.data) > 2 and q.ap in ("renyi", "tsallis") and not q.kw.get("normalize"):
        # sum over variables of H(Xi,Z) minus H(X..,Z) - H(Z): dimensions do not cancel
        close3(c, w, v + (len(q.data) - 2) * la, "n-variable Renyi CMI under scaling", kw=q.kw)
    elif q.m == "cmi" and len(q.data) > 2 and q.ap == "kernel":
        close3(c, w, v + (len(q.data) - 2) * la, "n-variable kernel CMI under scaling", kw=q.kw)
    else:
        close3(c, w, v, f"{q.m} {q.ap} under scaling", kw=q.kw, a=a)
    c.tag("scale:%s:%s" % (q.m, q.ap))


@scenario("B03", 2)
def normalized(c):
    r = c.rng
    ap = pick(r, ["ksg", "renyi", "tsallis", "kernel"])
    n = int(r.integers(20, 90))
    m = int(pick(r, [2, 2, 3]))
    vs = cdata(r, n, m)
    kw = akw(r, ap, "mi", n)
    if ap == "kernel":
        kw["bandwidth"] = 0.3
    maps = [(float(2.0 ** r.integers(-6, 7)), float(r.integers(-8, 9))) for _ in vs]
    if kw.get("kernel") == "box":
        maps = [(a, 0.0) for a, _ in maps]
    b = base(r)
    c.note(vs=vs, ap=ap, kw=kw, maps=maps)
    u = [(v - v.min()) / (v.max() - v.min()) for v in vs]
    want = c.call(im.mi, *u, approach=ap, base=b, **kw)
    close3(c, c.call(im.mi, *vs, approach=ap, base=b, normalize=True, **kw), want, "normalize=True equals normalised data", kw=kw)
    got = c.call(im.mi, *[a * v + t for (a, t), v in zip(maps, vs)], approach=ap, base=b, normalize=True, **kw)
    close3(c, got, want, "normalised MI under affine maps", kw=kw)
    # integer data of any width are normalised in floating point
    lo = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767), "float32": (-500, 500)}
    dt = pick(r, list(lo))
    iv = [np.concatenate([lo[dt], r.permutation(np.arange(*lo[dt], max(1, (lo[dt][1] - lo[dt][0]) // n)))[: n - 2]]).astype(dt) for _ in vs]
    if len({len(v) for v in iv}) == 1 and len(iv[0]) > 8:
        j = c.call(im.mi, *iv, approach=ap, base=b, normalize=True, **kw)
        if ap != "ksg" and kw.get("kernel") != "box":
            close3(c, j, c.call(im.mi, *[v.astype(float) for v in iv], approach=ap, base=b, normalize=True, **kw), "normalised integer data", dt=dt, kw=kw)
    c.tag("normalize:" + ap)


@scenario("B03", 3)
def monotone(c):
    r = c.rng
    m = pick(r, ["h", "hx", "kld", "jsd", "mi", "cmi", "te", "cte"])
    q = draw(r, m, "ordinal")
    b = base(r)
    fs = [np.exp, lambda v: v**3, np.arctan, lambda v: np.argsort(np.argsort(v)) * 3 - 50, lambda v: 1e6 * v + 5, lambda v: np.sinh(v)]
    f = lambda v: pick(r, fs)(v)
    q2 = tr(q, f)
    c.note(**q.note(), base=b)
    agree(c, q2.run(c, base=b), q.run(c, base=b), f"ordinal {m} under increasing maps", "ordinal", kw=q.kw)
    q3 = tr(q, lambda v: -v)
    agree(c, q3.run(c, base=b), q.run(c, base=b), f"ordinal {m} under reversal of values", "ordinal", kw=q.kw)
    c.tag("monotone:" + m)


# ------------------------------------------------------------------- B04
prop("B04", quick=1200, thorough=25000,
     rule="Each case draws a measure, approach, data and a base and compares explicit base, configured base and nats, for global and local values and across configuration changes; non-trivial = finite value compared.",
     assumptions=["Tsallis orders other than 1 do not depend on the base by definition"])


def nobase(q):
    return q.ap == "tsallis" and q.kw["q"] != 1


@scenario("B04", 4)
def rescale(c):
    r = c.rng
    q = draw(r)
    b = pick(r, [2, 10, 3, 2.5, 1.1, 7.3, 256, 2.0, 10.0, np.float64(2), np.e, 1000])
    c.note(**q.note(), base=b)
    if b is np.e or type(b) is np.float64:
        b = float(b)
    nat = q.run(c, base="e")
    agree(c, q.run(c, base=b), nat if nobase(q) else nat / math.log(b), f"{q.m} {q.ap} in base {b}", q.ap, kw=q.kw)
    if q.m in SHORT.values() and q.m not in ("hx", "kld", "jsd") and q.ap in (LOCAL_H if q.m == "h" else LOCAL_DERIVED):
        agree(c, c.call(q.est(c, base=b).local_vals), np.asarray(c.call(q.est(c, base="e").local_vals)) / math.log(b), "local values in another base", q.ap)
        c.tag("local")
    c.tag("%s:%s" % (q.m, q.ap))


@scenario("B04", 4)
def configured(c):
    r = c.rng
    Config = im.Config
    q = draw(r)
    c.note(**q.note())
    vals = {}
    seq = []
    for _ in range(int(r.integers(2, 5))):
        b = pick(r, [2, 10, "e", 3.5, 2.0])
        how = pick(r, ["set", "unit", "reset", "explicit"])
        if how == "unit":
            unit, b = pick(r, [("bits", 2), ("nats", "e"), ("hartleys", 10), ("BITS", 2), ("shannons", 2), ("bans", 10), ("dits", 10)])
            c.call(Config.set_logarithmic_unit, unit)
        elif how == "reset":
            c.call(Config.reset)
            b = "e"
        elif how == "set":
            c.call(Config.set, "base", b)
        seq.append((how, b))
        cfg = Config.get("base")
        if how == "explicit":
            got = q.run(c, base=b)
        else:
            got = q.run(c)
            if q.m not in ("kld", "jsd"):
                e = q.est(c)
                agree(c, c.call(e.global_val), got, "estimator without base", q.ap)
        c.check(Config.get("base") == cfg, "a call changed the configured base", cfg=cfg, now=Config.get("base"))
        nat = vals.setdefault("nat", q.run(c, base="e"))
        agree(c, got, nat if nobase(q) else nat / R.lnb(b), f"{q.m} {q.ap} after {how} {b}", q.ap, seq=seq, kw=q.kw)
        c.tag("how:" + how)
    c.tag("%s:%s" % (q.m, q.ap))


@scenario("B04", 1)
def constructed(c):
    """The base of an estimator object is fixed at its construction."""
    r = c.rng
    q = draw(r, pick(r, ["h", "mi", "cmi", "te", "cte"]))
    c.note(**q.note())
    im.Config.set("base", 2)
    e = q.est(c)
    im.Config.set("base", 10)
    e10 = q.est(c, base=10)
    v, v10 = c.call(e.global_val), c.call(e10.global_val)
    agree(c, v, v10 if nobase(q) else v10 * math.log(10) / math.log(2), "base of an object created before a configuration change", q.ap)
    if q.ap in (LOCAL_H if q.m == "h" else LOCAL_DERIVED):
        c.close(np.mean(c.call(e.local_vals)), v, "local values of that object", rtol=1e-7)


# ------------------------------------------------------------------- B05
prop("B05", quick=3600, thorough=25000,
     rule="Each case draws discrete (13 label kinds) or ordinal data and asserts a bundle of inequalities/identities on the real values; non-trivial = at least one strictly positive information value.",
     assumptions=["tolerance 1e-9 (nats)"])
EPS = 1e-9


def leq(c, a, b, what, **ctx):
    c.check(a <= b + EPS, what, nontrivial=bool(b > 1e-6), a=float(a), b=float(b), **ctx)


@scenario("B05", 4)
def discrete(c):
    r = c.rng
    n = size(r, 2, 300, 0.02, 2000)
    bundle(c, n, *dvars(r, n, 3, int(pick(r, [2, 4, 9]))), base(r))


@scenario("B05", 0.04)
def huge(c):
    """Counts whose products leave 32 bits."""
    r = c.rng
    n = int(pick(r, [66000, 100001, 140000]))
    v = [hugevar(r, n, int(pick(r, [2, 2, 3, 7, 60]))) for _ in range(3)]
    if r.random() < 0.6:
        v[0] = (np.arange(n) < int(n * r.choice([0.03, 0.3, 0.5]))).astype(int)
    if r.random() < 0.4:
        v[1] = np.where(r.random(n) < 0.05, v[1], v[0])
    bundle(c, n, *v, base(r))
    c.tag("huge")


def bundle(c, n, x, y, z, b):
    c.note(x=x, y=y, z=z, base=b)
    L = R.lnb(b)
    H = lambda *v: c.call(im.entropy, v if len(v) > 1 else v[0], approach="discrete", base=b) * L
    I = lambda *v, **k: c.call(im.mi, *v, approach="discrete", base=b, **k) * L
    C = lambda *v: c.call(im.cmi, *v[:-1], cond=v[-1], approach="discrete", base=b) * L
    hx, hy, hz, hxy, hxz, hyz, hxyz = H(x), H(y), H(z), H(x, y), H(x, z), H(y, z), H(x, y, z)
    leq(c, 0, hx, "entropy non-negative")
    leq(c, hx, math.log(len(np.unique(x))), "entropy at most log of observed states")
    leq(c, hx, hxy, "joint at least marginal")
    leq(c, hy, hxy, "joint at least marginal")
    leq(c, hxy, hx + hy, "subadditive")
    leq(c, hxyz + hz, hxz + hyz, "strongly subadditive")
    ixy, ixyz, ixz_y = I(x, y), C(x, y, z), C(x, z, y)
    leq(c, 0, ixy, "MI non-negative")
    leq(c, 0, ixyz, "CMI non-negative")
    leq(c, ixy, min(hx, hy), "MI at most marginal entropy")
    leq(c, ixyz, min(hxz, hyz) - hz, "CMI at most conditional entropy")
    c.close(I(x, x), hx, "MI(X,X)=H(X)")
    f = R.zipn(R.sym(x))
    fx = np.unique(x, return_inverse=True)[1].reshape(n) % 2
    leq(c, I(fx, y), ixy, "data processing")
    c.close(I(x, fx), H(fx), "a function's information")
    c.close(I(x, np.zeros(n, dtype=int)), 0, "constants carry no information")
    c.close(C(x, y, np.zeros(n, dtype=int)), ixy, "conditioning on a constant")
    c.close(C(x, y, x), 0, "conditioning on the variable itself")
    # chain rule I(X;(Y,Z)) = I(X;Y) + I(X;Z|Y)
    yz = np.unique(np.array([f"{a}|{d}" for a, d in zip(R.sym(y), R.sym(z))]), return_inverse=True)[1].reshape(n)
    c.close(I(x, yz), ixy + ixz_y, "chain rule")
    c.close(I(x, y, z), ixy + (hxy + hz - hxyz), "total correlation chain rule")
    leq(c, ixy, I(x, y, z), "total correlation grows")


@scenario("B05", 3)
def transfer(c):
    r = c.rng
    n = size(r, 12, 300, 0.02, 2000)
    x, y = dcoupled(r, n, int(r.integers(2, 5)))
    z = codes(r, n, 2, pick(r, ["iid", "markov"]))
    lab = pick(r, ["int", "str", "neg", "uint8"])
    x, y, z = (relabel(r, v, lab)[0] for v in (x, y, z))
    s, d, e = (int(v) for v in r.integers(1, 3, 3))
    st = int(pick(r, [1, 1, 2]))
    c.note(x=x, y=y, z=z, h=[s, d, e, st])
    kw = dict(approach="discrete", step_size=st)
    te = c.call(im.te, x, y, src_hist_len=s, dest_hist_len=d, **kw)
    cte = c.call(im.cte, x, y, cond=z, src_hist_len=s, dest_hist_len=d, cond_hist_len=e, **kw)
    leq(c, 0, te, "TE non-negative")
    leq(c, 0, cte, "CTE non-negative")
    S, F, D = R.embed(R.sym(x), R.sym(y), s, d, st)
    leq(c, te, R.H(R.zipn(F, D)) - R.H(D), "TE at most conditional entropy of the target")
    S, F, D, Z = R.embed(R.sym(x), R.sym(y), s, d, st, 0, R.sym(z), e)
    leq(c, cte, R.H(R.zipn(F, D, Z)) - R.H(R.zipn(D, Z)), "CTE at most conditional entropy of the target")
    c.close(c.call(im.te, np.zeros(n, dtype=int), y, **kw), 0, "a constant source transfers nothing")
    c.close(c.call(im.te, x, np.zeros(n, dtype=int), **kw), 0, "a constant target receives nothing")
    c.close(c.call(im.te, y, y, src_hist_len=d, dest_hist_len=d, **kw), 0, "a series transfers nothing to itself")
    c.close(c.call(im.cte, x, y, cond=x, src_hist_len=s, dest_hist_len=d, cond_hist_len=s, **kw), 0, "conditioning on the source")
    if s == 1 and max(s, d) == max(2, d):
        leq(c, te, c.call(im.te, x, y, src_hist_len=2, dest_hist_len=d, **kw), "longer source history")


@scenario("B05", 2)
def ordinal(c):
    r = c.rng
    n = size(r, 20, 300, 0)
    x, y = coupled(r, n)
    z = cont(r, n, 0, "ar")
    dim = int(r.integers(2, 5))
    kw = dict(approach="ordinal", embedding_dim=dim)
    c.note(x=x, y=y, z=z, dim=dim)
    hx, hy = c.call(im.entropy, x, **kw), c.call(im.entropy, y, **kw)
    hxy = c.call(im.entropy, (x, y), **kw)
    leq(c, 0, hx, "non-negative")
    leq(c, hx, math.log(math.factorial(dim)), "at most log dim!")
    leq(c, max(hx, hy), hxy, "joint at least marginal")
    leq(c, hxy, hx + hy, "subadditive")
    i = c.call(im.mi, x, y, **kw)
    leq(c, 0, i, "MI non-negative")
    leq(c, i, min(hx, hy), "MI at most entropy")
    c.close(c.call(im.mi, x, x, **kw), hx, "MI(X,X)")
    c.close(c.call(im.mi, x, np.arange(n), **kw), 0, "a monotone series carries nothing")
    leq(c, 0, c.call(im.cmi, x, y, cond=z, **kw), "CMI non-negative")
    leq(c, 0, c.call(im.te, x, y, **kw), "TE non-negative")
    leq(c, 0, c.call(im.cte, x, y, cond=z, **kw), "CTE non-negative")
    c.close(c.call(im.entropy, np.sort(x), **kw), 0, "entropy of a monotone series")
