"""A07-A10: continuous measures against exhaustive N x N references."""
import math

import numpy as np

from ..core import prop, scenario, Skip
from ..gen import *
from .. import refs as R

PS = [np.inf, np.inf, 2, 1, 3, 1.5]


def knn_k(r, n):
    k = int(pick(r, [1, 2, 3, 4, 4, 5, 7, 12]))
    if r.random() < 0.06:
        k = n - 1
    return max(1, min(k, n - 1))


def csize(r, lo=4, hi=160):
    return int(np.exp(r.uniform(np.log(lo), np.log(hi))))


def joint_arg(r, vs):
    """A joint variable as tuple or as one array."""
    if r.random() < 0.5:
        return tuple(vs)
    return np.column_stack(vs)


def distinct(*arrs):
    """No duplicated points (a zero neighbour distance is outside the formula)."""
    return all(len(np.unique(R.cols(a), axis=0)) == len(a if not isinstance(a, tuple) else a[0]) for a in arrs)


def widen(r, *vs):
    """Sometimes make series multi-column."""
    if r.random() < 0.75:
        return vs
    f = lambda v: v[:, None] if r.random() < 0.2 else np.column_stack([v, r.normal(size=len(v)) + 0.5 * v])
    return tuple(f(v) if r.random() < 0.6 else v for v in vs)


# ------------------------------------------------------------------- A07
prop("A07", quick=8000, thorough=40000,
     rule="Each case draws sample (7 kinds of distribution, 1..4 columns or tuple), k (1..N-1), Minkowski p, variant and base with noise_level=0; the reference computes all N x N distances; non-trivial = finite non-zero value.",
     assumptions=["noise_level=0 compares exactly; with the default noise agreement is only required to the noise scale"])


@scenario("A07", 4)
def h(c):
    r = c.rng
    n = csize(r, 2)
    d = int(pick(r, [0, 0, 1, 2, 3, 4]))
    x = cont(r, n, d)
    if not distinct(x):
        raise Skip("duplicates")
    k, p, v, b = knn_k(r, n), pick(r, PS), int(r.integers(1, 3)), base(r)
    kw = dict(k=k, minkowski_p=p, ksg_id=v, noise_level=0)
    c.note(x=x, kw=kw, base=b)
    want = R.KL(x, k, p, v, local=True) / R.lnb(b)
    e = c.call(im.estimator, x, measure="entropy", approach=pick(r, ["kl", "metric"]), base=b, **kw)
    c.close(c.call(e.global_val), np.mean(want), "KL entropy", kw=kw)
    c.close(c.call(e.local_vals), want, "KL local", kw=kw)
    if r.random() < 0.3:
        kw.pop("noise_level")
        sc = float(np.min(R.kth_own(x, k, np.inf)))
        if sc > 1e-4:
            c.close(c.call(im.entropy, x, approach="kl", base=b, **kw), np.mean(want), "KL entropy with default noise", rtol=1e-4, atol=1e-4)
    c.tag("d%d:k%s:p%s:v%d" % (d, "1" if k == 1 else "N-1" if k == n - 1 else "+", p, v))


@scenario("A07", 3)
def joint(c):
    r = c.rng
    n = csize(r, 3)
    vs = cvars(r, n, int(r.integers(2, 5)))
    k, p, v, b = knn_k(r, n), pick(r, PS), int(r.integers(1, 3)), base(r)
    kw = dict(k=k, minkowski_p=p, ksg_id=v, noise_level=0)
    c.note(vs=vs, kw=kw, base=b)
    c.close(c.call(im.entropy, joint_arg(r, vs), approach="kl", base=b, **kw), R.KL(tuple(vs), k, p, v) / R.lnb(b), "joint KL", kw=kw)
    c.tag("joint:%d" % len(vs))


@scenario("A07", 3)
def cross(c):
    r = c.rng
    n, m = csize(r, 2), csize(r, 2)
    d = int(pick(r, [0, 0, 1, 2, 3]))
    kind = pick(r, ["normal", "exp", "mix", None])
    x, y = cont(r, n, d, kind), cont(r, m, d, kind) + r.normal()
    k = max(1, min(int(pick(r, [1, 1, 2, 4, 6])), m))
    if r.random() < 0.08:
        k = m
    p, v, b = pick(r, PS), int(r.integers(1, 3)), base(r)
    if r.random() < 0.08 and n > 2 and distinct(x):
        y, m, k = pick(r, [x, x[:], x[::-1]]), n, max(2, min(k, n))  # the same sample
    kw = dict(k=k, minkowski_p=p, ksg_id=v, noise_level=0)
    c.note(x=x, y=y, kw=kw, base=b)
    c.close(c.call(im.cross_entropy, x, y, approach="kl", base=b, **kw), R.KL_cross(x, y, k, p, v) / R.lnb(b), "KL cross", kw=kw, n=n, m=m)
    if k < n and distinct(x):
        c.close(c.call(im.kld, x, y, approach="metric", base=b, **kw), (R.KL_cross(x, y, k, p, v) - R.KL(x, k, p, v)) / R.lnb(b), "KL kld", kw=kw)
    c.tag("cross:d%d:k%s" % (d, "1" if k == 1 else "M" if k == m else "+"))


@scenario("A07", 1)
def large(c):
    """k-d tree leaves and several dimensions on larger samples."""
    r = c.rng
    n = int(r.integers(600, 1500))
    x = cont(r, n, int(pick(r, [1, 2, 5])))
    k, p = int(pick(r, [1, 4, 30])), pick(r, PS[1:4])
    c.note(x=x, k=k, p=p)
    c.close(c.call(im.entropy, x, approach="kl", k=k, minkowski_p=p, noise_level=0), R.KL(x, k, p), "KL large")


def spots(r, n, m=40):
    """Sample positions spread over a long sample, including block boundaries."""
    i = np.concatenate([[0, 1, n - 2, n - 1], r.integers(0, n, m), [v for b in (1000, 1024, 4096, 5000, 8192, 10000, 16384, 20000) for v in (b - 1, b) if v < n]])
    return np.unique(i)


@scenario("A07", 0.01)
def huge(c):
    """Local values of long samples at some positions."""
    r = c.rng
    n = int(pick(r, [9000, 17001, 33000]))
    x = cont(r, n, int(pick(r, [0, 2, 3])), pick(r, ["normal", "uniform", "exp"]))
    k, p, v = int(pick(r, [1, 4, 20])), pick(r, PS[1:4]), int(r.integers(1, 3))
    c.note(x=x, k=k, p=p, v=v)
    X = R.cols(x)
    i = spots(r, n)
    rho = np.sort(R.dmat(X[i], X, p=p), axis=1)[:, k]
    want = -R.psi(k) + R.psi(n) + R.log_unit_ball(X.shape[1], p, 0.5) + X.shape[1] * np.log(2 * rho) + (v == 2) / k
    e = c.call(im.estimator, x, measure="h", approach="kl", k=k, minkowski_p=p, ksg_id=v, noise_level=0)
    lv = c.call(e.local_vals)
    c.close(lv[i], want, "KL local values of a long sample", n=n)
    c.close(c.call(e.global_val), np.mean(lv), "KL of a long sample", n=n)


# ------------------------------------------------------------------- A08
prop("A08", quick=6000, thorough=30000,
     rule="Each case draws 2..4 dependent variables (1..3 columns), optional condition, embedding parameters for TE/CTE, k, Minkowski p, variant, base, noise_level=0; counts are taken exhaustively from N x N distance matrices and compared per observation; non-trivial = finite non-zero value.",
     assumptions=["metric of the joint and marginal spaces is the Minkowski metric over all their columns", "duplicated points are only drawn for p=inf and p=1 on integer grids, where distances are exact"])


def ksg_ref(vs, k, p, v, cond=None):
    """Local KSG values by exhaustive counting (duplicates allowed)."""
    vs = [R.cols(x) for x in vs]
    N, m = len(vs[0]), len(vs)
    z = None if cond is None else R.cols(cond)
    rho = R.kth_own(np.column_stack(vs + ([] if z is None else [z])), k, p)

    def dg(a):
        D = R.dmat(a, p=p)
        if p not in (1, np.inf):
            # a rounding of the root decides: no definite count
            off = D / np.where(rho > 0, rho, 1)[:, None] - 1
            if (np.abs(off) < 1e-12).any():
                raise Skip("rounding tie")
        if v == 1:
            n = (D < rho[:, None]).sum(axis=1) - (rho > 0)
            return R.psi(n + 1)
        return R.psi((D <= rho[:, None]).sum(axis=1))

    out = R.psi(k) - (1 / k if v == 2 else 0) - sum(dg(x if z is None else np.column_stack([x, z])) for x in vs)
    return out + ((m - 1) * R.psi(N) if z is None else dg(z))


def ksg_kw(r, n, extra=0):
    k, p, v = knn_k(r, n), pick(r, PS), int(r.integers(1, 3))
    return dict(k=k, minkowski_p=p, ksg_id=v, noise_level=pick(r, [0, 0, None, False]))


def gridded(r, vs, kw):
    """Sometimes put the data on a coarse grid (ties and duplicates)."""
    if r.random() < 0.2:
        kw["minkowski_p"] = pick(r, [np.inf, 1])
        g = pick(r, [1, 2, 4])
        # fmax: keep the range small so that all distances are exact
        vs = [np.round(np.clip(x / (np.std(x) + 1e-9), -1e3, 1e3) * g) for x in vs]
        if r.random() < 0.3:
            vs = [v.astype(int) for v in vs]
    return vs


def both(c, est, want, what, b, **ctx):
    want = want / R.lnb(b)
    if c.rng.random() < 0.5:
        c.close(c.call(est.local_vals), want, what + " local", **ctx)
        c.close(c.call(est.global_val), np.mean(want), what, **ctx)
    else:
        c.close(c.call(est.global_val), np.mean(want), what, **ctx)
        c.close(c.call(est.local_vals), want, what + " local", **ctx)


@scenario("A08", 4)
def mi(c):
    r = c.rng
    n = csize(r, 4, 140)
    m = int(pick(r, [2, 2, 3, 4]))
    dims = [int(pick(r, [0, 0, 1, 2, 3])) for _ in range(m)] if r.random() < 0.4 else [0] * m
    vs = cvars(r, n, m, dims)
    off = int(r.integers(-2, 3)) if m == 2 and n > 7 and r.random() < 0.35 else 0
    kw = ksg_kw(r, n - abs(off))
    vs = gridded(r, vs, kw)
    if r.random() < 0.06 and kw["minkowski_p"] in (1, np.inf):
        vs[1] = pick(r, [vs[0], vs[0][::-1]])
    use = list(R.shift(vs[0], vs[1], off)) if off else vs
    b = base(r)
    c.note(vs=vs, kw=kw, base=b, off=off)
    want = ksg_ref(use, kw["k"], kw["minkowski_p"], kw["ksg_id"])
    if off:
        kw["offset"] = off
    e = c.call(im.estimator, *vs, measure="mi", approach=pick(r, ["ksg", "metric"]), base=b, **kw)
    both(c, e, want, "KSG MI", b, kw=kw, dims=dims)
    c.tag("mi:m%d:v%d:p%s" % (m, kw["ksg_id"], kw["minkowski_p"]))


@scenario("A08", 3)
def cmi(c):
    r = c.rng
    n = csize(r, 4, 140)
    m = int(pick(r, [2, 2, 3]))
    dims = [int(pick(r, [0, 0, 1, 2])) for _ in range(m + 1)] if r.random() < 0.4 else [0] * (m + 1)
    vs = cvars(r, n, m + 1, dims)
    kw = ksg_kw(r, n)
    vs = gridded(r, vs, kw)
    b = base(r)
    c.note(vs=vs, kw=kw, base=b)
    want = ksg_ref(vs[:m], kw["k"], kw["minkowski_p"], kw["ksg_id"], vs[m])
    e = c.call(im.estimator, *vs[:m], cond=vs[m], measure="cmi", approach=pick(r, ["ksg", "metric"]), base=b, **kw)
    both(c, e, want, "KSG CMI", b, kw=kw, dims=dims)
    c.tag("cmi:m%d:v%d" % (m, kw["ksg_id"]))


def emb(r, n, lo, cond=False):
    for _ in range(50):
        s, d, e = (int(v) for v in pick(r, [r.integers(1, 3, 3), r.integers(1, 5, 3)]))
        st = int(pick(r, [1, 1, 2, 3]))
        pt = 0 if cond else int(pick(r, [0, 0, 1, 2, -1]))
        ln = n - abs(pt) * st
        rows = len(range(max(s, d, e if cond else 0) * st, ln, st))
        if rows >= lo:
            return s, d, e, st, pt, rows
    return 1, 1, 1, 1, 0, n - 1


@scenario("A08", 3)
def te(c):
    r = c.rng
    n = csize(r, 12, 150)
    x, y = coupled(r, n, int(r.integers(1, 3))) if r.random() < 0.7 else cvars(r, n, 2)
    s, d, _, st, pt, rows = emb(r, n, 6)
    kw = ksg_kw(r, rows)
    x, y = gridded(r, list(widen(r, x, y)), kw)
    b = base(r)
    c.note(x=x, y=y, kw=kw, emb=[s, d, st, pt], base=b)
    S, F, D = R.embed_arr(x, y, s, d, st, pt)
    want = ksg_ref([S, F], kw["k"], kw["minkowski_p"], kw["ksg_id"], D)
    ek = dict(src_hist_len=s, dest_hist_len=d, step_size=st, prop_time=pt)
    e = c.call(im.estimator, x, y, measure="te", approach=pick(r, ["ksg", "metric"]), base=b, **kw, **ek)
    both(c, e, want, "KSG TE", b, kw=kw, emb=ek)
    c.tag("te:v%d:s%dd%d:st%d" % (kw["ksg_id"], min(s, 3), min(d, 3), st))


@scenario("A08", 3)
def cte(c):
    r = c.rng
    n = csize(r, 12, 150)
    x, y = coupled(r, n)
    z = cont(r, n) if r.random() < 0.5 else np.roll(x, 1) + 0.5 * r.normal(size=n)
    s, d, e_, st, _, rows = emb(r, n, 6, True)
    kw = ksg_kw(r, rows)
    x, y, z = gridded(r, list(widen(r, x, y, z)), kw)
    b = base(r)
    c.note(x=x, y=y, z=z, kw=kw, emb=[s, d, e_, st], base=b)
    S, F, D, C = R.embed_arr(x, y, s, d, st, 0, z, e_)
    want = ksg_ref([S, F], kw["k"], kw["minkowski_p"], kw["ksg_id"], np.column_stack([D, C]))
    ek = dict(src_hist_len=s, dest_hist_len=d, cond_hist_len=e_, step_size=st)
    e = c.call(im.estimator, x, y, cond=z, measure="cte", approach=pick(r, ["ksg", "metric"]), base=b, **kw, **ek)
    both(c, e, want, "KSG CTE", b, kw=kw, emb=ek)
    c.tag("cte:v%d:s%dd%dc%d:st%d" % (kw["ksg_id"], min(s, 3), min(d, 3), min(e_, 3), st))


@scenario("A08", 1)
def noise(c):
    """The default noise only perturbs on its own scale."""
    r = c.rng
    n = csize(r, 30, 120)
    x, y, z = cvars(r, n, 3)
    k = int(pick(r, [1, 3, 4]))
    m = pick(r, ["mi", "cmi", "te", "cte"])
    args, kw = ((x, y), {}) if m in ("mi", "te") else ((x, y), {"cond": z})
    c.note(x=x, y=y, z=z, k=k, m=m)
    a = c.call(getattr(im, m), *args, approach="ksg", k=k, noise_level=0, **kw)
    nl = 1e-10 * float(min(np.std(x), np.std(y), np.std(z)))
    b_ = c.call(getattr(im, m), *args, approach="ksg", k=k, noise_level=nl, seed=int(r.integers(1e6)), **kw)
    c.close(b_, a, "KSG with tiny noise", rtol=1e-9, atol=0.02)


@scenario("A08", 1)
def large(c):
    r = c.rng
    n = int(r.integers(500, 1100))
    x, y, z = cvars(r, n, 3)
    kw = dict(k=int(pick(r, [1, 4, 25])), ksg_id=int(r.integers(1, 3)), minkowski_p=pick(r, [np.inf, 2]), noise_level=0)
    c.note(x=x, y=y, z=z, kw=kw)
    a = (kw["k"], kw["minkowski_p"], kw["ksg_id"])
    c.close(c.call(im.mi, x, y, z, approach="ksg", **kw), np.mean(ksg_ref([x, y, z], *a)), "KSG MI large")
    c.close(c.call(im.cmi, x, y, cond=z, approach="ksg", **kw), np.mean(ksg_ref([x, y], *a, z)), "KSG CMI large")


@scenario("A08", 0.01)
def huge(c):
    """Local values of long samples at some positions."""
    r = c.rng
    n = int(pick(r, [9000, 17001]))
    vs = cvars(r, n, 3)
    k, v = int(pick(r, [1, 4, 20])), int(r.integers(1, 3))
    cond = r.random() < 0.5
    c.note(vs=vs, k=k, v=v, cond=cond)
    i = spots(r, n)
    z = [R.cols(vs[2])] if cond else []
    xs = [R.cols(a) for a in (vs[:2] if cond else vs)]
    rho = np.sort(R.dmat(np.column_stack(xs + z)[i], np.column_stack(xs + z), p=np.inf), axis=1)[:, k]
    m = len(xs)

    def dg(a):
        D = R.dmat(a[i], a, p=np.inf)
        # the sample itself is the "plus one" of the strict count
        return R.psi((D < rho[:, None] if v == 1 else D <= rho[:, None]).sum(axis=1))

    kw = dict(approach="ksg", k=k, ksg_id=v, noise_level=0)
    if cond:
        e = c.call(im.estimator, *vs[:2], cond=vs[2], measure="cmi", **kw)
    else:
        e = c.call(im.estimator, *vs, measure="mi", **kw)
    lv = c.call(e.local_vals)
    want = R.psi(k) - (v == 2) / k - sum(dg(np.column_stack([a] + z)) for a in xs) + (dg(z[0]) if cond else (m - 1) * R.psi(n))
    c.close(lv[i], want, "KSG local values of a long sample", n=n)
    c.close(c.call(e.global_val), np.mean(lv), "KSG of a long sample", n=n)


# ------------------------------------------------------------------- A09
prop("A09", quick=6000, thorough=30000,
     rule="Each case draws sample(s) of 1..4 columns, box or Gaussian kernel, bandwidth over three decades and base; densities come from all N x N pairs; non-trivial = finite non-zero value.",
     assumptions=["Gaussian samples whose covariance is nearly, but not exactly, singular (condition above 1e8) are not compared; exactly dependent variables are evaluated in the subspace they span, by design"])


def bwid(r, *arrs):
    s = float(np.median([np.std(R.cols(a)) for a in arrs])) or 1.0
    b = s * 10 ** r.uniform(-1, 1)
    if r.random() < 0.15:
        b = int(math.ceil(b))
    elif r.random() < 0.3:
        b = float(pick(r, [0.1, 0.5, 1.0, 2.0]))
    return b


def good_cov(a):
    a = R.cols(a)
    if len(a) < a.shape[1] + 2:
        return False
    if np.any(np.var(a, axis=0) == 0):
        return False
    if a.shape[1] == 1:
        return True
    w = np.linalg.eigvalsh(np.cov(a.T))
    return w[0] > 1e-8 * w[-1] and w[0] > 1e-8 * min(1, w[-1])


def edge(arrs, bw):
    """A pair exactly at half a bandwidth would be decided by rounding."""
    for a, b in arrs:
        D = np.abs(R.cols(a)[:, None, :] - R.cols(b)[None, :, :])
        if np.any(np.abs(D - bw / 2) <= 1e-12 * max(1.0, bw, float(np.abs(R.cols(a)).max()))):
            return True
    return False


def kern(r):
    return pick(r, ["box", "gaussian"])


def usable(kernel, bw, *groups):
    for g in groups:
        if kernel == "gaussian" and not good_cov(g):
            raise Skip("near-singular covariance")
    if kernel == "box" and any(edge([(g, g)], bw) for g in groups):
        raise Skip("pair on the box boundary")


@scenario("A09", 3)
def h(c):
    r = c.rng
    n = csize(r, 3)
    x = cont(r, n, int(pick(r, [0, 0, 1, 2, 3, 4])))
    if r.random() < 0.1:
        x = np.round(x, 1)  # repeated points
    k, b = kern(r), base(r)
    bw = bwid(r, x)
    usable(k, bw, x)
    c.note(x=x, k=k, bw=bw, base=b)
    want = -np.log(R.kde(x, x, bw, k)) / R.lnb(b)
    e = c.call(im.estimator, x, measure="h", approach="kernel", kernel=k, bandwidth=bw, base=b)
    c.close(c.call(e.global_val), np.mean(want), "kernel H", k=k, bw=bw)
    c.close(c.call(e.local_vals), want, "kernel H local", k=k, bw=bw)
    c.tag("h:%s:d%d" % (k, x.ndim if x.ndim == 1 else x.shape[1]))


@scenario("A09", 2)
def joint(c):
    r = c.rng
    n = csize(r, 6)
    vs = cvars(r, n, int(r.integers(2, 4)))
    k, b = kern(r), base(r)
    bw = bwid(r, *vs)
    usable(k, bw, tuple(vs))
    c.note(vs=vs, k=k, bw=bw, base=b)
    J = np.column_stack(vs)
    c.close(c.call(im.entropy, joint_arg(r, vs), approach="kernel", kernel=k, bandwidth=bw, base=b), np.mean(-np.log(R.kde(J, J, bw, k))) / R.lnb(b), "kernel joint H", k=k, bw=bw)
    c.tag("joint:" + k)


@scenario("A09", 3)
def cross_jsd(c):
    r = c.rng
    d = int(pick(r, [0, 0, 1, 2, 3]))
    kind = pick(r, ["normal", "exp", "mix", "heavy"])
    m = int(pick(r, [2, 2, 3]))
    vs = [cont(r, csize(r, 5, 120), d, kind) + r.normal() * 0.5 for _ in range(m)]
    if r.random() < 0.1:
        vs[1] = pick(r, [vs[0], vs[0][::-1], vs[0].copy()])
    k, b = kern(r), base(r)
    bw = bwid(r, *vs)
    pooled = np.concatenate(vs)
    usable(k, bw, *vs)
    if k == "box" and edge([(pooled, pooled)], bw):
        raise Skip("boundary")
    c.note(vs=vs, k=k, bw=bw, base=b)
    x, y = vs[0], vs[1]
    f = R.kde(y, x, bw, k)
    if k == "gaussian":
        if np.any((f < 1e-290)):
            raise Skip("density underflow")
    hx = -np.sum(np.log(f[f > 0])) / len(f) / R.lnb(b) + 0.0
    kw = dict(approach="kernel", kernel=k, bandwidth=bw, base=b)
    H = lambda a: np.mean(-np.log(R.kde(a, a, bw, k))) / R.lnb(b)
    c.close(c.call(im.hx, x, y, **kw), hx, "kernel cross", k=k, bw=bw)
    c.close(c.call(im.kld, x, y, **kw), hx - H(x), "kernel kld", k=k, bw=bw)
    c.close(c.call(im.jsd, *vs, **kw), H(pooled) - np.mean([H(v) for v in vs]), "kernel jsd", k=k, bw=bw)
    c.tag("cross:%s:d%d:m%d" % (k, d, m))


@scenario("A09", 3)
def mi_cmi(c):
    r = c.rng
    n = csize(r, 8, 130)
    m = int(pick(r, [2, 2, 3, 4]))
    dims = [int(pick(r, [0, 0, 1, 2])) for _ in range(m + 1)] if r.random() < 0.4 else [0] * (m + 1)
    vs = cvars(r, n, m + 1, dims)
    k, b = kern(r), base(r)
    bw = bwid(r, *vs)
    z = vs[m]
    off = int(r.integers(-2, 3)) if m == 2 and r.random() < 0.3 else 0
    use = list(R.shift(vs[0], vs[1], off)) if off else vs[:m]
    usable(k, bw, *use, tuple(vs), tuple(use), z, *[(v, z) for v in vs[:m]])
    c.note(vs=vs, k=k, bw=bw, base=b, off=off)
    f = lambda a: R.kde(a, a, bw, k)
    want = np.log(f(tuple(use))) - sum(np.log(f(v)) for v in use)
    kw = dict(approach="kernel", kernel=k, bandwidth=bw, base=b)
    e = c.call(im.estimator, *vs[:m], measure="mi", **kw, **({"offset": off} if off else {}))
    both(c, e, want, "kernel MI", b, k=k, bw=bw, dims=dims, off=off)
    want = np.log(f(tuple(vs))) + np.log(f(z)) - sum(np.log(f((v, z))) for v in vs[:m])
    e = c.call(im.estimator, *vs[:m], cond=z, measure="cmi", **kw)
    both(c, e, want, "kernel CMI", b, k=k, bw=bw, dims=dims)
    c.tag("mi:%s:m%d" % (k, m))


@scenario("A09", 3)
def te_cte(c):
    r = c.rng
    n = csize(r, 16, 150)
    x, y = coupled(r, n, int(r.integers(1, 3)))
    z = cont(r, n, 0, pick(r, ["normal", "ar", "uniform"]))
    x, y, z = widen(r, x, y, z)
    k, b = kern(r), base(r)
    bw = bwid(r, x, y)
    s, d, e_, st, pt, rows = emb(r, n, 12)
    rows2 = len(range(max(s, d, e_) * st, n, st))
    if min(rows, rows2) < s + d + e_ + 4:
        raise Skip("short")
    S, F, D = R.embed_arr(x, y, s, d, st, pt)
    S2, F2, D2, C = R.embed_arr(x, y, s, d, st, 0, z, e_)
    usable(k, bw, (S, F, D), (S2, F2, D2, C))
    f = lambda *a: R.kde(a, a, bw, k)
    c.note(x=x, y=y, z=z, k=k, bw=bw, base=b, emb=[s, d, e_, st, pt])
    kw = dict(approach="kernel", kernel=k, bandwidth=bw, base=b, src_hist_len=s, dest_hist_len=d, step_size=st)
    want = np.log(f(S, F, D) * f(D) / f(S, D) / f(F, D))
    e = c.call(im.estimator, x, y, measure="te", prop_time=pt, **kw)
    both(c, e, want, "kernel TE", b, kw=kw, pt=pt)
    want = np.log(f(S2, F2, D2, C) * f(D2, C) / f(S2, D2, C) / f(F2, D2, C))
    e = c.call(im.estimator, x, y, cond=z, measure="cte", cond_hist_len=e_, **kw)
    both(c, e, want, "kernel CTE", b, kw=kw)
    c.tag("te:%s:st%d" % (k, st))


@scenario("A09", 1.5)
def dependent(c):
    """Gaussian densities of linearly dependent variables, on any scale."""
    r = c.rng
    n = csize(r, 12, 120)
    m = int(r.integers(1, 4))
    Z = r.normal(size=(n, m)) * 10.0 ** pick(r, [0, 0, 0, -6, -3, 3, 5, 8])
    # every combination uses coefficients of one magnitude: dimensions are clearly spanned or not
    def comb(k):
        return Z @ r.integers(-2, 3, (m, k)).astype(float)
    def var():
        a = comb(int(pick(r, [1, 1, 2, 3])))
        j = r.integers(0, a.shape[1])
        return np.ascontiguousarray(a[:, j]) if r.random() < 0.5 else a
    vs = [var() for _ in range(3)]
    if r.random() < 0.3:
        vs[1] = vs[0].copy()
    b, bw = base(r), float(r.uniform(0.2, 1.5))
    x, y, z = vs
    groups = dict(x=(x,), y=(y,), z=(z,), xy=(x, y), xz=(x, z), yz=(y, z), xyz=(x, y, z))
    f, deg = {}, 0
    for g, a in groups.items():
        J = np.column_stack(a)
        w = np.linalg.eigvalsh(np.atleast_2d(np.cov(J.T)))
        keep = w > 1e-12 * w[-1]
        if w[-1] <= 0 or w[keep][0] < 1e-3 * w[-1] or np.any(np.abs(w[~keep]) > 1e-14 * w[-1]):
            raise Skip("dimensions not clearly spanned")
        deg += not keep.all()
        f[g] = R.kde_span(J, J, bw)
    if not deg:
        raise Skip("independent")
    c.note(vs=vs, bw=bw, base=b)
    kw = dict(approach="kernel", kernel="gaussian", bandwidth=bw, base=b)
    J = np.column_stack(vs)
    for a in (J, tuple(vs)):
        e = c.call(im.estimator, a, measure="h", **kw)
        both(c, e, -np.log(f["xyz"]), "kernel H of dependent variables", b, bw=bw)
    e = c.call(im.estimator, x, y, measure="mi", **kw)
    both(c, e, np.log(f["xy"] / f["x"] / f["y"]), "kernel MI of dependent variables", b, bw=bw)
    e = c.call(im.estimator, x, y, cond=z, measure="cmi", **kw)
    both(c, e, np.log(f["xyz"] * f["z"] / f["xz"] / f["yz"]), "kernel CMI of dependent variables", b, bw=bw)
    c.tag("dependent:%d" % deg)


@scenario("A09", 0.3)
def large(c):
    r = c.rng
    n = int(r.integers(400, 1500))
    vs = cvars(r, n, 3)
    k, bw = kern(r), float(r.uniform(0.3, 1.5))
    usable(k, bw, *vs, tuple(vs), (vs[0], vs[2]), (vs[1], vs[2]))
    c.note(vs=vs, k=k, bw=bw)
    f = lambda *a: np.log(R.kde(a, a, bw, k))
    kw = dict(approach="kernel", kernel=k, bandwidth=bw)
    x, y, z = vs
    c.close(c.call(im.entropy, (x, y), **kw), -np.mean(f(x, y)), "kernel joint H large")
    c.close(c.call(im.mi, *vs, **kw), np.mean(f(x, y, z) - f(x) - f(y) - f(z)), "kernel MI large")
    c.close(c.call(im.cmi, x, y, cond=z, **kw), np.mean(f(x, y, z) + f(z) - f(x, z) - f(y, z)), "kernel CMI large")


@scenario("A09", 0.01)
def huge(c):
    """Local values of long samples at some positions."""
    r = c.rng
    n = int(pick(r, [9000, 17001, 24000]))
    x = cont(r, n, int(pick(r, [0, 1, 2])), pick(r, ["normal", "uniform"]))
    k, bw = kern(r), float(r.uniform(0.1, 1.0))
    if n > 17000:
        k = "box"
    i = spots(r, n)
    c.note(x=x, k=k, bw=bw)
    want = -np.log(R.kde(x, R.cols(x)[i], bw, k))
    e = c.call(im.estimator, x, measure="h", approach="kernel", kernel=k, bandwidth=bw)
    lv = c.call(e.local_vals)
    c.close(lv[i], want, "kernel local values of a long sample", n=n, k=k, bw=bw)
    c.close(c.call(e.global_val), np.mean(lv), "kernel H of a long sample", n=n)


# ------------------------------------------------------------------- A10
prop("A10", quick=8000, thorough=40000,
     rule="Each case draws sample(s), approach, order q in (0, k+1) including exactly 1 and values near 1, k, base (noise_level=0 for MI/TE), and compares with brute-force neighbour distances; non-trivial = finite non-zero value.",
     assumptions=["orders q >= k+1, where the estimator's constant is undefined, are excluded"])


def order(r, k):
    q = float(pick(r, [0.1, 0.3, 0.5, 0.8, 0.95, 0.999, 1.0, 1.001, 1.05, 1.2, 1.5, 1.8, 2.0, 2.5, 3.0, 4.5]))
    while q >= k + 0.9:
        q = float(pick(r, [0.5, 0.8, 1.0, 1.2, 1.5]))
    return int(q) if q == int(q) and r.random() < 0.5 else q


def ref_h(ap, k, q, b, x, y=None):
    v = R.renyi(x, k, q, y) if ap == "renyi" else R.tsallis(x, k, q, y)
    return v / R.lnb(b) if ap == "renyi" or q == 1 else v


def rt(r, n):
    ap = pick(r, ["renyi", "tsallis"])
    k = knn_k(r, n)
    q = order(r, k)
    return ap, k, q, {"k": k, ("alpha" if ap == "renyi" else "q"): q}


def zs(ap, *xs):
    """Rounding scale of Tsallis sums (unbounded for q > 1)."""
    return 1e-9 * max([1.0] + [abs(v) for v in xs])


@scenario("A10", 4)
def h(c):
    r = c.rng
    n = csize(r, 2)
    x = cont(r, n, int(pick(r, [0, 0, 1, 2, 3, 5])))
    if r.random() < 0.3 and n > 3:
        vs = cvars(r, n, int(r.integers(2, 4)))
        x = joint_arg(r, vs)
    if not distinct(x):
        raise Skip("duplicates")
    ap, k, q, kw = rt(r, n)
    b = base(r)
    c.note(x=x, ap=ap, kw=kw, base=b)
    want = ref_h(ap, k, q, b, x)
    c.close(c.call(im.entropy, x, approach=ap, base=b, **kw), want, ap, kw=kw, atol=zs(ap, want))
    c.tag("%s:q%s:k%s" % (ap, q, "1" if k == 1 else "+"))


@scenario("A10", 3)
def cross(c):
    r = c.rng
    n, m = csize(r, 2), csize(r, 2)
    d = int(pick(r, [0, 0, 1, 2, 3]))
    kind = pick(r, ["normal", "exp", "mix"])
    x, y = cont(r, n, d, kind), cont(r, m, d, kind) + r.normal()
    ap, k, q, kw = rt(r, m + 1)
    b = base(r)
    if r.random() < 0.08 and 2 <= k <= n:
        y, m = pick(r, [x, x[:], x[::-1]]), n  # the same sample
    c.note(x=x, y=y, ap=ap, kw=kw, base=b)
    want = ref_h(ap, k, q, b, x, y)
    c.close(c.call(im.cross_entropy, x, y, approach=ap, base=b, **kw), want, ap + " cross", kw=kw, atol=zs(ap, want))
    if k < n:
        h0 = ref_h(ap, k, q, b, x)
        c.close(c.call(im.kld, x, y, approach=ap, base=b, **kw), want - h0, ap + " kld", kw=kw, atol=zs(ap, want, h0))
    c.tag("%s cross:q%s:k%s" % (ap, q, "1" if k == 1 else "+"))


@scenario("A10", 2)
def limit(c):
    """Orders approaching 1 approach the Shannon limit."""
    r = c.rng
    n = csize(r, 10)
    x = cont(r, n, int(pick(r, [0, 2])), pick(r, ["normal", "uniform", "ar"]))
    ap = pick(r, ["renyi", "tsallis"])
    k = knn_k(r, n)
    nm = "alpha" if ap == "renyi" else "q"
    c.note(x=x, ap=ap, k=k)
    h1 = c.call(im.entropy, x, approach=ap, k=k, **{nm: 1})
    c.close(h1, R.knn_Iq(x, k, 1), "order 1")
    lz = R.log_unit_ball(R.cols(x).shape[1], 2) + math.log(n - 1) - R.psi(k) + R.cols(x).shape[1] * np.log(R.kth_own(x, k, 2))
    slope = 2 * (np.var(lz) + np.mean(lz) ** 2 + 2)
    for e in (1e-2, 1e-3, 1e-4, 1e-5, 10 ** r.uniform(-15.6, -8.5)):
        for sgn in (1, -1):
            v = c.call(im.entropy, x, approach=ap, k=k, **{nm: float(1 + sgn * e)})
            c.check(abs(v - h1) <= slope * e + 1e-8, f"{ap} order {1 + sgn * e} not near the Shannon limit", v=v, h1=h1, slope=slope)
    c.tag("limit:" + ap)


@scenario("A10", 1)
def scaled(c):
    """Data on any scale, also around the Shannon limit."""
    r = c.rng
    n, m = csize(r, 3), csize(r, 3)
    d = int(pick(r, [0, 1, 2, 3]))
    u = 10.0 ** float(r.uniform(-12, 9))
    x, y = (cont(r, w, d, pick(r, ["normal", "uniform", "exp"])) * u for w in (n, m))
    ap, k, q, kw = rt(r, min(n, m + 1))
    if r.random() < 0.4:
        q = 1
        kw["alpha" if ap == "renyi" else "q"] = pick(r, [1, 1.0])
    b = base(r)
    c.note(x=x, y=y, ap=ap, kw=kw, base=b)
    want = ref_h(ap, k, q, b, x)
    c.close(c.call(im.entropy, x, approach=ap, base=b, **kw), want, ap + " scaled", kw=kw, atol=zs(ap, want))
    want = ref_h(ap, k, q, b, x, y)
    c.close(c.call(im.cross_entropy, x, y, approach=ap, base=b, **kw), want, ap + " scaled cross", kw=kw, atol=zs(ap, want))
    if q == 1 and distinct(x):
        a = c.call(im.entropy, x / u, approach=ap, **kw)
        c.close(c.call(im.entropy, x, approach=ap, **kw), a + max(d, 1) * math.log(u), ap + " order 1 shifts with the scale", kw=kw)
    c.tag("scaled:1e%d" % (3 * round(math.log10(u) / 3)))


@scenario("A10", 3)
def mi_cmi(c):
    r = c.rng
    n = csize(r, 6, 130)
    m = int(pick(r, [2, 2, 3]))
    vs = cvars(r, n, m + 1)
    off = int(r.integers(-2, 3)) if m == 2 and r.random() < 0.3 else 0
    ap, k, q, kw = rt(r, n - abs(off))
    b = base(r)
    use = list(R.shift(vs[0], vs[1], off)) if off else vs[:m]
    c.note(vs=vs, ap=ap, kw=kw, base=b, off=off)
    h = lambda *a: ref_h(ap, k, q, b, a)
    parts = [h(v) for v in use] + [-h(*use)]
    kw["noise_level"] = 0
    c.close(c.call(im.mi, *vs[:m], approach=ap, base=b, **kw, **({"offset": off} if off else {})), math.fsum(parts), ap + " MI", kw=kw, off=off, atol=zs(ap, *parts))
    z = vs[m]
    parts = [h(v, z) for v in vs[:m]] + [-h(*vs), -h(z)]
    c.close(c.call(im.cmi, *vs[:m], cond=z, approach=ap, base=b, **kw), math.fsum(parts), ap + " CMI", kw=kw, atol=zs(ap, *parts))
    c.tag("%s mi:m%d" % (ap, m))


@scenario("A10", 3)
def te_cte(c):
    r = c.rng
    n = csize(r, 14, 140)
    x, y = coupled(r, n, int(r.integers(1, 3)))
    z = cont(r, n, 0, pick(r, ["normal", "ar", "uniform"]))
    x, y, z = widen(r, x, y, z)
    s, d, e_, st, pt, rows = emb(r, n, 6)
    rows2 = len(range(max(s, d, e_) * st, n, st))
    if rows2 < 3:
        raise Skip("short")
    ap, k, q, kw = rt(r, min(rows, rows2))
    b = base(r)
    S, F, D = R.embed_arr(x, y, s, d, st, pt)
    c.note(x=x, y=y, z=z, ap=ap, kw=kw, base=b, emb=[s, d, e_, st, pt])
    h = lambda *a: ref_h(ap, k, q, b, a)
    kw.update(noise_level=0, src_hist_len=s, dest_hist_len=d, step_size=st)
    parts = [h(F, D), h(S, D), -h(S, F, D), -h(D)]
    c.close(c.call(im.te, x, y, approach=ap, base=b, prop_time=pt, **kw), math.fsum(parts), ap + " TE", kw=kw, pt=pt, atol=zs(ap, *parts))
    S, F, D, C = R.embed_arr(x, y, s, d, st, 0, z, e_)
    parts = [h(F, D, C), h(S, D, C), -h(S, F, D, C), -h(D, C)]
    c.close(c.call(im.cte, x, y, cond=z, approach=ap, base=b, cond_hist_len=e_, **kw), math.fsum(parts), ap + " CTE", kw=kw, atol=zs(ap, *parts))
    c.tag("%s te:st%d" % (ap, st))


@scenario("A10", 0.2)
def large(c):
    r = c.rng
    n, m = int(r.integers(400, 2500)), int(r.integers(400, 2500))
    d = int(pick(r, [1, 2, 3]))
    x, y = (cont(r, u, d, "normal") for u in (n, m))
    k = int(pick(r, [1, 4, 20, 120, 170, 171, 172, 250, 399]))
    ap, q = pick(r, ["renyi", "tsallis"]), order(r, k)
    if k > 100 and r.random() < 0.3:
        q = float(r.uniform(5, 30))
    kw = {"k": k, "alpha" if ap == "renyi" else "q": q}
    c.note(x=x, y=y, ap=ap, kw=kw)
    c.close(c.call(im.entropy, x, approach=ap, **kw), ref_h(ap, k, q, "e", x), "large " + ap, kw=kw, rtol=1e-7)
    c.close(c.call(im.hx, x, y, approach=ap, **kw), ref_h(ap, k, q, "e", x, y), "large cross " + ap, kw=kw, rtol=1e-7)
