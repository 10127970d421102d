"""Workload generators."""
import numpy as np


class _Lazy:
    def __getattr__(self, k):
        import infomeasure

        return getattr(infomeasure, k)


im = _Lazy()

BASES = ["e", 2, 10, 3, 2.5, 1.5, 4, 256]
DISC = ["discrete", "miller_madow", "grassberger", "chao_shen", "chao_wang_jost", "bonachela", "zhang", "shrink", "bayes", "nsb", "ansb"]
LONG = {"miller_madow": "mm", "chao_shen": "cs", "chao_wang_jost": "cwj", "shrink": "js"}
ALPHAS = [0.5, 1.0, 0.001, 2, "jeffrey", "laplace", "sch-grass", "min-max", "Jeffrey", "LAPLACE", "Sch-Grass", "MIN-MAX"]


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def base(rng):
    return pick(rng, BASES, [0.3, 0.25, 0.15, 0.06, 0.06, 0.06, 0.06, 0.06])


def size(rng, lo=1, hi=400, big=0.03, bigmax=5000):
    if rng.random() < big:
        return int(rng.integers(hi, bigmax + 1))
    return int(np.exp(rng.uniform(np.log(lo), np.log(hi + 1))))


def codes(rng, n, k=None, structure=None):
    """Integer codes 0..k-1 with varied marginal and temporal structure."""
    if k is None:
        k = int(pick(rng, [1, 2, 2, 3, 4, 5, 8, 12, 20, 60, max(1, n)]))
    structure = structure or pick(rng, ["iid", "skew", "markov", "single", "cycle", "zipf", "permuted"])
    if structure == "iid":
        return rng.integers(0, k, n)
    if structure == "skew":
        return rng.choice(k, n, p=rng.dirichlet(np.full(k, 0.4)))
    if structure == "zipf":
        p = 1 / np.arange(1, k + 1)
        return rng.choice(k, n, p=p / p.sum())
    if structure == "markov":
        T = rng.dirichlet(np.full(k, 0.3), size=k)
        out = np.zeros(n, dtype=int)
        for i in range(1, n):
            out[i] = rng.choice(k, p=T[out[i - 1]])
        return out
    if structure == "single":  # mostly singletons plus one heavy state
        x = np.where(rng.random(n) < 0.5, 0, np.arange(n) + 1)
        return x
    if structure == "cycle":
        return (np.arange(n) + rng.integers(0, k)) % k
    return rng.permutation(n) % k


LABELS = ["int", "neg", "sparse", "int8", "uint8", "uint16", "int32", "uint64", "bool", "str", "ustr", "float", "big", "alias", "ulp", "strmix"]


def relabel(rng, x, kind=None):
    """Injective relabelling of integer codes into some label type."""
    u, inv = np.unique(x, return_inverse=True)
    k = len(u)
    kind = kind or pick(rng, LABELS)
    if kind == "bool" and k > 2:
        kind = "int"
    if kind in ("int8", "uint8") and k > 120:
        kind = "uint16"
    if kind == "int":
        lab = np.arange(k)
    elif kind == "neg":
        lab = rng.permutation(k) - k // 2
    elif kind == "sparse":
        lab = rng.choice(10**6, k, replace=False) * 37 - 5 * 10**6
    elif kind == "big":
        lab = (2**62 - rng.choice(max(4 * k, 8), k, replace=False)).astype(np.int64) * pick(rng, [1, -1])
    elif kind == "int8":
        lab = (rng.choice(256, k, replace=False) - 128).astype(np.int8)
    elif kind == "uint8":
        lab = rng.choice(256, k, replace=False).astype(np.uint8)
    elif kind == "uint16":
        lab = rng.choice(65536, k, replace=False).astype(np.uint16)
    elif kind == "int32":
        lab = (rng.choice(10**6, k, replace=False) - 5 * 10**5).astype(np.int32)
    elif kind == "uint64":
        lab = np.array([2**64 - 1 - int(v) for v in rng.choice(max(4 * k, 8), k, replace=False)], dtype=np.uint64)
    elif kind == "alias":
        # integers that collide in narrower types or in double precision
        pool = sorted({int(sg) * (1 << int(j)) + int(d) for j in (0, 7, 8, 15, 16, 31, 32, 33, 48, 52, 53, 62) for d in (0, 1, -1) for sg in (1, 1, -1)} | {3 << j for j in (32, 48, 53)})
        if k > len(pool):
            pool += list(range(10**9, 10**9 + k))
        lab = np.array([pool[i] for i in rng.choice(len(pool), k, replace=False)], dtype=np.int64)
    elif kind == "ulp":
        lab = 1.0 + rng.permutation(k) * np.finfo(float).eps
    elif kind == "strmix":
        pool = ["1", "01", "1.0", " 1", "a", "A", "aa", "a b", "ab", "a_b", "a,b", "x" * 40, "x" * 41, "x" * 40 + "y", "True", "nan", "None", "\u00e9", "e\u0301"]
        pool += [f"k{i}" for i in range(max(0, k - len(pool)))]
        lab = np.array([pool[i] for i in rng.permutation(len(pool))[:k]])
    elif kind == "bool":
        lab = rng.permutation(2).astype(bool)[:k]
    elif kind == "str":
        lab = np.array([f"s{v}" for v in rng.choice(10 * k + 10, k, replace=False)])
    elif kind == "ustr":
        lab = np.array([chr(0x3B1 + int(v) % 500) * (1 + int(v) // 500) + " " + str(v) for v in rng.choice(2000 + k, k, replace=False)])
    else:
        lab = rng.choice(10**5, k, replace=False) / 8.0 - 1000
    return lab[inv], kind


def disc(rng, n, k=None, kind=None, structure=None):
    return relabel(rng, codes(rng, n, k, structure), kind)[0]


def related(rng, x, k=None):
    """A code sequence statistically related to x."""
    n = len(x)
    m = pick(rng, ["copy", "noisy", "shift", "indep", "func", "xor"])
    if m == "copy":
        return x.copy()
    if m == "noisy":
        return np.where(rng.random(n) < 0.3, codes(rng, n, max(1, int(x.max()) + 1), "iid"), x)
    if m == "shift":
        return np.roll(x, int(rng.integers(1, 4)))
    if m == "func":
        return x % max(1, int(rng.integers(1, 5)))
    if m == "xor":
        return (x + rng.integers(0, 2, n)) % (int(x.max()) + 1)
    return codes(rng, n, k)


def dvars(rng, n, m, kmax=None, labels=None):
    """m related label sequences."""
    first = codes(rng, n, kmax and int(rng.integers(1, kmax + 1)))
    cs = [first]
    for _ in range(m - 1):
        cs.append(related(rng, cs[int(rng.integers(len(cs)))], kmax and int(rng.integers(1, kmax + 1))))
    order = rng.permutation(m)
    cs = [cs[i] for i in order]
    kind = labels if labels is not None else (None if rng.random() < 0.5 else "int")
    return [relabel(rng, v, kind)[0] for v in cs]


# --------------------------------------------------------------- continuous
def cont(rng, n, d=0, kind=None):
    kind = kind or pick(rng, ["normal", "uniform", "exp", "ar", "heavy", "mix", "scaled"])
    shape = (n,) if d == 0 else (n, d)
    if kind == "normal":
        x = rng.normal(size=shape)
    elif kind == "uniform":
        x = rng.uniform(-3, 5, size=shape)
    elif kind == "exp":
        x = rng.exponential(size=shape)
    elif kind == "heavy":
        x = rng.standard_t(3, size=shape)
    elif kind == "mix":
        x = rng.normal(size=shape) + 6 * rng.integers(0, 3, size=shape)
    elif kind == "scaled":
        x = rng.normal(size=shape) * 10.0 ** rng.integers(-2, 4) + rng.normal() * 10
    else:
        e = rng.normal(size=shape)
        x = np.zeros(shape)
        for i in range(n):
            x[i] = 0.7 * x[i - 1] + e[i] if i else e[i]
    if d >= 2 and rng.random() < 0.5:
        x = x @ (np.eye(d) + 0.5 * rng.normal(size=(d, d)))
    return x


def cvars(rng, n, m, dims=None):
    """m dependent continuous variables; dims[i]=0 is 1-D."""
    dims = dims or [0] * m
    out = []
    for i in range(m):
        x = cont(rng, n, dims[i])
        if out and rng.random() < 0.7:
            o = out[int(rng.integers(len(out)))]
            o1 = o if o.ndim == 1 else o[:, 0]
            s = (np.std(x) + 1e-12) / (np.std(o1) + 1e-12) * rng.uniform(0.3, 3)
            x = x + s * (o1 if x.ndim == 1 else o1[:, None])
        out.append(x)
    return out


def coupled(rng, n, lag=1, strength=0.8):
    x = rng.normal(size=n)
    y = np.zeros(n)
    e = rng.normal(size=n)
    for i in range(n):
        y[i] = e[i] * 0.5 + (0.3 * y[i - 1] if i else 0) + (strength * x[i - lag] if i >= lag else 0)
    return x, y


def dcoupled(rng, n, k=3):
    x = codes(rng, n, k, pick(rng, ["iid", "skew", "markov"]))
    noise = rng.integers(0, k, n)
    y = np.zeros(n, dtype=int)
    for i in range(1, n):
        y[i] = (x[i - 1] + (y[i - 1] if rng.random() < 0.3 else 0)) % k if rng.random() < 0.8 else noise[i]
    return x, y


def hugevar(r, n, k):
    """n observations of k labels, values around and beyond 16 and 32 bits."""
    x = codes(r, n, k, pick(r, ["iid", "zipf", "cycle"]))
    return pick(r, [lambda v: v, lambda v: v + 65530, lambda v: v * 65536, lambda v: v - k // 2, lambda v: v * (2**32 + 1), lambda v: v.astype(float) / 8, lambda v: v.astype(np.uint32)])(x)
