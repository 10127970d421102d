"""Independent reference definitions (nothing imported from the package).

Discrete measures work on Python tuples and Counter; continuous ones on
exhaustive N x N distance matrices.  All results are in nats unless ``base``.
"""

import math
from collections import Counter
from itertools import permutations as _perms

import numpy as np
from scipy.special import digamma as psi, gammaln, polygamma
from scipy.integrate import quad

EULER = 0.5772156649015329


def lnb(base):
    return 1.0 if base == "e" else math.log(base)


# ---------------------------------------------------------------- discrete
def sym(x):
    """Sequence of hashable symbols, one per observation, of any input form."""
    if isinstance(x, tuple):
        return list(zip(*[sym(v) for v in x]))
    a = np.asarray(x)
    if a.ndim == 1:
        return a.tolist()
    return [tuple(r) for r in a.tolist()]


def zipn(*seqs):
    return list(zip(*seqs))


def counts(seq):
    return Counter(seq)


def fsum(it):
    return math.fsum(it)


def H(seq):
    n = len(seq)
    return fsum(-(c / n) * math.log(c / n) for c in Counter(seq).values()) + 0.0


def cross_H(p, q):
    cp, cq = Counter(p), Counter(q)
    n, m = len(p), len(q)
    return fsum(-(c / n) * math.log(cq[k] / m) for k, c in cp.items() if k in cq)


def jsd_from_dists(dists, Hs):
    keys = set().union(*dists)
    n = len(dists)
    mix = [fsum(d.get(k, 0.0) for d in dists) / n for k in keys]
    return fsum(-m * math.log(m) for m in mix if m > 0) - fsum(Hs) / n


def dist(seq):
    n = len(seq)
    return {k: c / n for k, c in Counter(seq).items()}


def MI(*seqs):
    return fsum([H(s) for s in seqs] + [-H(zipn(*seqs))])


def CMI(seqs, z):
    """Documented definition (for any number of variables)."""
    return fsum([H(zipn(s, z)) for s in seqs] + [-H(zipn(*seqs, z)), -H(z)])


def mi_local(*seqs):
    N = len(seqs[0])
    cs = [Counter(s) for s in seqs]
    j = zipn(*seqs)
    cj = Counter(j)
    return np.array([math.log(cj[o] / N) - fsum(math.log(c[v] / N) for c, v in zip(cs, o)) for o in j])


def cmi_local(seqs, z):
    N = len(z)
    cz = Counter(z)
    ci = [Counter(zipn(s, z)) for s in seqs]
    j = zipn(*seqs, z)
    cj = Counter(j)
    return np.array([
        math.log(cj[o] / N) + math.log(cz[o[-1]] / N) - fsum(math.log(c[(v, o[-1])] / N) for c, v in zip(ci, o[:-1]))
        for o in j])


def mm_mi_corr(seqs, z=None):
    """(sum K_i - n - K_joint + 1 [- (K_z - 1)]) / 2N."""
    N = len(seqs[0])
    if z is None:
        ks = [len(set(s)) for s in seqs]
        kj = len(set(zipn(*seqs)))
        return (sum(ks) - len(ks) - kj + 1) / (2 * N)
    ks = [len(set(zipn(s, z))) for s in seqs]
    kj = len(set(zipn(*seqs, z)))
    return (sum(ks) - len(ks) - kj + 1 - (len(set(z)) - 1)) / (2 * N)


# ---------------------------------------------- bias corrected entropies
def H_mm(c):
    n = sum(c)
    return H_c(c) + (len(c) - 1) / (2 * n)


def H_c(c):
    n = sum(c)
    return fsum(-(k / n) * math.log(k / n) for k in c) + 0.0


def H_grassberger(c):
    n = sum(c)
    return fsum(k / n * (math.log(n) - float(psi(k)) - (-1) ** k / (k + 1)) for k in c)


def H_chao_shen(c):
    n = sum(c)
    f1 = sum(1 for k in c if k == 1)
    if f1 == n:
        f1 -= 1
    C = 1 - f1 / n
    out = []
    for k in c:
        pa = C * k / n
        la = -math.expm1(n * math.log1p(-pa)) if pa < 1 else 1.0
        out.append(-pa * math.log(pa) / la)
    return fsum(out) + 0.0


def H_cwj(c):
    n = sum(c)
    f1 = sum(1 for k in c if k == 1)
    f2 = sum(1 for k in c if k == 2)
    if f2 > 0:
        A = 2 * f2 / ((n - 1) * f1 + 2 * f2)
    elif f1 > 0:
        A = 2 / ((n - 1) * (f1 - 1) + 2)
    else:
        A = 1.0
    h = fsum(k / n * float(psi(n) - psi(k)) for k in c if k <= n - 1)
    if A != 1 and f1 > 0:
        # (1-A)^(1-n) (-log A - sum_{r<n} (1-A)^r/r) is the remainder of a series
        q = 1 - A
        if n * A < 0.5:
            t = math.exp((1 - n) * math.log1p(-A)) * (-math.log(A) - fsum(q**r / r for r in range(1, n)))
        else:
            m = n + int(60 / A) + 10
            t = q / (m * A)
            for j in range(m - 1, n - 1, -1):
                t = q / j + q * t
        h += f1 / n * t
    return h


def H_bonachela(c):
    n = sum(c)
    return fsum((k + 1) * fsum(1 / j for j in range(k + 2, n + 3)) for k in c) / (n + 2)


def H_zhang(c):
    n = sum(c)
    tot = []
    for k in c:
        t, pr = [], 1.0
        for v in range(1, n - k + 1):
            pr *= 1 + (1 - k) / (n - v)  # (n-v-k+1)/(n-v)
            t.append(pr / v)
        tot.append(k / n * fsum(t))
    return fsum(tot)


def shrink_probs(c):
    n, K = sum(c), len(c)
    u = [k / n for k in c]
    msp = fsum((x - 1 / K) ** 2 for x in u)
    vu = fsum(x * (1 - x) for x in u) / (n - 1) if n > 1 else 0.0
    lam = 1.0 if (n <= 1 or msp == 0) else min(1.0, max(0.0, vu / msp))
    return [lam / K + (1 - lam) * x for x in u]


def H_p(p):
    return fsum(-x * math.log(x) for x in p) + 0.0


def bayes_alpha(alpha, K, N):
    if isinstance(alpha, str):
        return {"jeffrey": 0.5, "laplace": 1.0, "sch-grass": 1 / K, "min-max": math.sqrt(N) / K}[alpha.lower()]
    return alpha


def bayes_probs(c, alpha, K=None):
    n = sum(c)
    K = len(c) if K is None else K
    a = bayes_alpha(alpha, K, n)
    return [(k + a) / (n + K * a) for k in c]


def H_ansb(c, K=None):
    n = sum(c)
    K = len(c) if K is None else K
    if n == K:
        return math.nan
    return EULER - math.log(2) + 2 * math.log(n) - float(psi(n - K))


def H_nsb(c, K=None, documented=False):
    """NSB: ratio of two integrals over the concentration, peak-normalised.

    ``documented=False``: likelihood terms weighted by the counts, integration
    over beta in (0, ln K), entropy of the observed states (what the package
    computes and its tests pin).  ``documented=True``: the documented posterior
    over xi in (0, ln K), i.e. beta in (0, inf).
    """
    c = np.asarray(list(c), dtype=float)
    n = c.sum()
    K = len(c) if K is None else K
    if n == K:
        return math.nan
    if K == 1:
        return math.nan
    u, m = np.unique(c, return_counts=True)
    w = m if documented else m * u

    def lr(b):
        b = np.asarray(b)[:, None]
        return (gammaln(K * b) - gammaln(n + K * b))[:, 0] + (w * (gammaln(u + b) - gammaln(b))).sum(axis=1)

    def dxi(b):
        return K * polygamma(1, 1 + K * b) - polygamma(1, 1 + b)

    def bay(b):
        bb = b[:, None]
        A = n + len(c) * b
        return psi(A + 1) - (m * (u + bb) * psi(u + bb + 1)).sum(axis=1) / A

    top = 1e7 if documented else math.log(K)
    grid = np.concatenate([np.geomspace(top * 1e-14, top, 400), top - np.geomspace(top * 1e-10, top * 0.5, 200)])
    grid = np.unique(grid)
    pk = grid[np.argmax(lr(grid))]
    grid = np.unique(np.concatenate([[0.0], grid, pk + (top - pk) * np.geomspace(1e-6, 0.5, 80), pk - pk * np.geomspace(1e-6, 0.5, 80)]))
    xs, ws = np.polynomial.legendre.leggauss(10)
    a, b = grid[:-1, None], grid[1:, None]
    pts = ((b - a) / 2 * xs + (a + b) / 2).ravel()
    wts = ((b - a) / 2 * ws).ravel()
    L = lr(pts)
    W = np.exp(L - L.max()) * dxi(pts) * wts
    return float((W * bay(pts)).sum() / W.sum())


def nsb_overflow(c, K=None):
    """ln of (largest posterior weight / weight at the reference point)."""
    c = np.asarray(list(c), dtype=float)
    n = c.sum()
    K = len(c) if K is None else K
    if K <= 1:
        return 0.0
    u, m = np.unique(c, return_counts=True)

    def lr(b):
        b = np.asarray(b)[:, None]
        return (gammaln(K * b) - gammaln(n + K * b))[:, 0] + (m * u * (gammaln(u + b) - gammaln(b))).sum(axis=1)

    k0 = np.linspace(0.1, K, 20001)
    f = K / k0 - psi(k0 + n) + psi(k0)
    k = k0[np.argmin(np.abs(f))]
    top = math.log(K)
    return float(lr(np.geomspace(1e-6 * top, top, 200)).max() - lr(np.array([k / K]))[0])


def H_by(approach, c, **kw):
    c = [int(k) for k in c]
    if approach == "discrete":
        return H_c(c)
    if approach == "miller_madow":
        return H_mm(c)
    if approach == "grassberger":
        return H_grassberger(c)
    if approach == "chao_shen":
        return H_chao_shen(c)
    if approach == "chao_wang_jost":
        return H_cwj(c)
    if approach == "bonachela":
        return H_bonachela(c)
    if approach == "zhang":
        return H_zhang(c)
    if approach == "shrink":
        return H_p(shrink_probs(c))
    if approach == "bayes":
        return H_p(bayes_probs(c, kw["alpha"], kw.get("K")))
    if approach == "ansb":
        return H_ansb(c, kw.get("K"))
    if approach == "nsb":
        return H_nsb(c, kw.get("K"), kw.get("documented", False))
    raise KeyError(approach)


# --------------------------------------------------------------- embedding
def shift(x, y, off):
    """Pair x[t] with y[t+off] (off may be negative)."""
    if off > 0:
        return x[: len(x) - off], y[off:]
    if off < 0:
        return x[-off:], y[: len(y) + off]
    return x, y


def te_rows(N, s, d, step=1, c=0):
    """Indices (source hist, future, destination hist, cond hist) per row."""
    t = range(max(s, d, c) * step, N, step)

    def hist(i, n):
        return [i - l * step for l in range(n, 0, -1)]

    return [(hist(i, s), i, hist(i, d), hist(i, c)) for i in t]


def embed(x, y, s=1, d=1, step=1, prop=0, z=None, c=0):
    """Delay embedding as lists of tuples (works for any symbols)."""
    x, y = shift(x, y, prop * step)
    rows = te_rows(len(x), s, d, step, c if z is not None else 0)
    S = [tuple(x[i] for i in r[0]) for r in rows]
    F = [y[r[1]] for r in rows]
    D = [tuple(y[i] for i in r[2]) for r in rows]
    if z is None:
        return S, F, D
    return S, F, D, [tuple(z[i] for i in r[3]) for r in rows]


def embed_arr(x, y, s=1, d=1, step=1, prop=0, z=None, c=0):
    """Delay embedding as float matrices (source, future, dest, [cond])."""
    x, y = shift(cols(x), cols(y), prop * step)
    rows = te_rows(len(x), s, d, step, c if z is not None else 0)
    S = np.array([x[r[0]].ravel() for r in rows])
    F = np.array([y[[r[1]]].ravel() for r in rows])
    D = np.array([y[r[2]].ravel() for r in rows])
    if z is None:
        return S, F, D
    zz = cols(z)
    return S, F, D, np.array([zz[r[3]].ravel() for r in rows])


def TE(x, y, s=1, d=1, step=1, prop=0):
    S, F, D = embed(x, y, s, d, step, prop)
    return CMI([S, F], D)


def CTE(x, y, z, s=1, d=1, c=1, step=1):
    S, F, D, C = embed(x, y, s, d, step, 0, z, c)
    return CMI([S, F], zipn(D, C))


# ----------------------------------------------------------------- ordinal
def patterns(x, dim, step=1, stable=True):
    x = np.asarray(x)
    n = len(x) - (dim - 1) * step
    out = []
    for i in range(n):
        w = [x[i + j * step] for j in range(dim)]
        out.append(tuple(sorted(range(dim), key=lambda j: (w[j], j))))
    return out


# -------------------------------------------------------------- continuous
def cols(x):
    if isinstance(x, tuple):
        return np.column_stack([cols(v) for v in x])
    a = np.asarray(x, dtype=float)
    return a[:, None] if a.ndim == 1 else a


def dmat(a, b=None, p=2):
    a = cols(a)
    b = a if b is None else cols(b)
    d = np.abs(a[:, None, :] - b[None, :, :])
    if p == np.inf or p == math.inf:
        return d.max(axis=2)
    if p == 1:
        return d.sum(axis=2)
    return (d ** p).sum(axis=2) ** (1.0 / p)


def log_unit_ball(d, p, r=1.0):
    if p == np.inf or p == math.inf:
        return d * math.log(2 * r)
    return d * math.log(2 * r) + d * math.lgamma(1 + 1 / p) - math.lgamma(1 + d / p)


def kth_own(x, k, p):
    D = dmat(x, p=p)
    np.fill_diagonal(D, np.inf)
    return np.sort(D, axis=1)[:, k - 1]


def kth_other(x, y, k, p):
    return np.sort(dmat(x, y, p=p), axis=1)[:, k - 1]


def KL(x, k=4, p=np.inf, ksg_id=1, local=False):
    X = cols(x)
    N, d = X.shape
    rho = kth_own(X, k, p)
    loc = -psi(k) + psi(N) + log_unit_ball(d, p, 0.5) + d * np.log(2 * rho)
    if ksg_id == 2:
        loc = loc + 1 / k
    return loc if local else float(np.mean(loc))


def KL_cross(x, y, k=4, p=np.inf, ksg_id=1):
    X, Y = cols(x), cols(y)
    d = X.shape[1]
    rho = kth_other(X, Y, k, p)
    loc = -psi(k) + psi(len(Y)) + log_unit_ball(d, p, 0.5) + d * np.log(2 * rho)
    if ksg_id == 2:
        loc = loc + 1 / k
    return float(np.mean(loc))


def KSG(vars_, k=4, p=np.inf, ksg_id=1, cond=None):
    """Local KSG (C)MI by exhaustive counting. Returns local values."""
    vs = [cols(v) for v in vars_]
    N = len(vs[0])
    joint = np.column_stack(vs + ([cols(cond)] if cond is not None else []))
    # joint metric: maximum over variables? see caller: Minkowski over all columns
    rho = kth_own(joint, k, p)

    def cnt(a):
        D = dmat(a, p=p)
        if ksg_id == 1:
            return (D < rho[:, None]).sum(axis=1)  # incl. self -> n+1
        return (D <= rho[:, None]).sum(axis=1)

    m = len(vs)
    base = psi(k) - (1 / k if ksg_id == 2 else 0)
    if cond is None:
        tot = sum(psi(cnt(v)) for v in vs)
        return base - tot + (m - 1) * psi(N)
    z = cols(cond)
    tot = sum(psi(cnt(np.column_stack([v, z]))) for v in vs)
    return base - tot + (m - 1) * psi(cnt(z))


def kde_box(x, at, h):
    X, A = cols(x), cols(at)
    return (dmat(A, X, p=np.inf) <= h / 2).sum(axis=1) / (len(X) * h ** X.shape[1])


def kde_gauss(x, at, bw):
    X, A = cols(x), cols(at)
    N, d = X.shape
    C = np.atleast_2d(np.cov(X.T, bias=False)) * bw ** 2
    iC = np.linalg.inv(C)
    diff = A[:, None, :] - X[None, :, :]
    e = np.einsum("ijk,kl,ijl->ij", diff, iC, diff)
    nrm = math.sqrt((2 * math.pi) ** d * np.linalg.det(C))
    return np.exp(-0.5 * e).sum(axis=1) / (N * nrm)


def kde_span(x, at, bw):
    """Gaussian density within the subspace the samples span."""
    X, A = cols(x), cols(at)
    if X.shape[1] == 1:
        return kde_gauss(X, A, bw)
    w, v = np.linalg.eigh(np.cov(X.T))
    keep = w > 1e-12 * w[-1]
    return kde_gauss(X @ v[:, keep], A @ v[:, keep], bw)


def kde(x, at, bw, kernel):
    return kde_box(x, at, bw) if kernel == "box" else kde_gauss(x, at, bw)


def knn_Iq(x, k, q, y=None):
    """Leonenko-Pronzato-Savani estimate of int f^q (Euclidean)."""
    X = cols(x)
    d = X.shape[1]
    if y is None:
        rho, M = kth_own(X, k, 2), len(X) - 1
    else:
        rho, M = kth_other(X, y, k, 2), len(cols(y))
    lV = log_unit_ball(d, 2)
    if q != 1:
        lC = (math.lgamma(k) - math.lgamma(k + 1 - q)) / (1 - q)
        lz = math.log(M) + lC + lV + d * np.log(rho)
        return float(np.mean(np.exp((1 - q) * lz)))
    lz = math.log(M) - psi(k) + lV + d * np.log(rho)
    return float(np.mean(lz))


def renyi(x, k, q, y=None):
    if q == 1:
        return knn_Iq(x, k, 1, y)
    return math.log(knn_Iq(x, k, q, y)) / (1 - q)


def tsallis(x, k, q, y=None):
    if q == 1:
        return knn_Iq(x, k, 1, y)
    return (1 - knn_Iq(x, k, q, y)) / (q - 1)


def all_perms(n):
    return list(_perms(range(n)))
