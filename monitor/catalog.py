"""Random valid calls over all measures and approaches."""
import numpy as np

from .gen import *

DISC_A = DISC
CONT_H = ["kernel", "kl", "renyi", "tsallis"]
CONT_D = ["kernel", "ksg", "renyi", "tsallis"]
HX = ["discrete", "miller_madow", "bayes", "ordinal", "kernel", "kl", "renyi", "tsallis"]
JSD = ["discrete", "ordinal", "bayes", "shrink", "kernel"]
MEASURES = ["entropy", "cross_entropy", "kld", "jsd", "mutual_information", "conditional_mutual_information", "transfer_entropy", "conditional_transfer_entropy"]
SHORT = dict(entropy="h", cross_entropy="hx", mutual_information="mi", conditional_mutual_information="cmi", transfer_entropy="te", conditional_transfer_entropy="cte", kld="kld", jsd="jsd")
LONGM = {v: k for k, v in SHORT.items()}
LOCAL_DERIVED = ["discrete", "miller_madow", "ordinal", "kernel", "ksg", "grassberger", "zhang"]
LOCAL_H = ["discrete", "miller_madow", "grassberger", "zhang", "kernel", "kl", "ordinal"]


def approaches(m):
    if m in ("h", "entropy"):
        return DISC_A + ["ordinal"] + CONT_H
    if m in ("hx", "kld", "cross_entropy"):
        return HX
    if m == "jsd":
        return JSD
    return DISC_A + ["ordinal"] + CONT_D


def pickap(r, m, ok=lambda a: True):
    """An approach for a measure; those with code of their own come up more often."""
    aps = [a for a in approaches(m) if ok(a)]
    w = np.array([3.0 if m in ("mi", "cmi", "te", "cte") and a in ("discrete", "miller_madow") else 1.0 for a in aps])
    return pick(r, aps, w / w.sum())


def kindof(ap):
    return "disc" if ap in DISC_A else "ord" if ap == "ordinal" else "cont"


class Call:
    """One measure call; cond is kept apart from the positional data."""

    def __init__(self, m, ap, data, cond, kw):
        self.m, self.ap, self.data, self.cond, self.kw = m, ap, list(data), cond, dict(kw)

    @property
    def kind(self):
        return kindof(self.ap)

    def note(self):
        return dict(m=self.m, ap=self.ap, data=self.data, cond=self.cond, kw=self.kw)

    def kwargs(self, **extra):
        k = dict(approach=self.ap, **self.kw, **extra)
        if self.cond is not None:
            k["cond"] = self.cond
        return k

    def run(self, c, **extra):
        return c.call(getattr(im, self.m), *self.data, **self.kwargs(**extra))

    def est(self, c, **extra):
        return c.call(im.estimator, *self.data, measure=self.m, **self.kwargs(**extra))

    def with_data(self, data, cond="keep"):
        return Call(self.m, self.ap, data, self.cond if isinstance(cond, str) else cond, self.kw)

    def copy(self):
        cp = lambda v: tuple(map(cp, v)) if isinstance(v, tuple) else v.copy()
        return Call(self.m, self.ap, [cp(v) for v in self.data], None if self.cond is None else cp(self.cond), self.kw)


def akw(r, ap, m, n, det=True, small_dim=False):
    """Valid keyword arguments of an approach."""
    kw = {}
    if ap == "bayes":
        kw["alpha"] = pick(r, ALPHAS)
    elif ap == "ordinal":
        kw["embedding_dim"] = int(r.integers(1, 3 if small_dim else 5))
        if m in ("te", "cte", "h", "mi", "cmi") and r.random() < 0.3:
            kw["step_size"] = int(pick(r, [1, 2]))
    elif ap == "kernel":
        kw["kernel"] = pick(r, ["box", "gaussian"])
        kw["bandwidth"] = float(pick(r, [0.3, 0.5, 1.0, 2.0]))
    elif ap in ("kl", "ksg"):
        kw["k"] = int(r.integers(1, 5))
        kw["minkowski_p"] = pick(r, [np.inf, 2, 1])
        kw["ksg_id"] = int(r.integers(1, 3))
        if det:
            kw["noise_level"] = 0
    elif ap in ("renyi", "tsallis"):
        kw["k"] = int(r.integers(1, 5))
        q = float(pick(r, [0.5, 0.8, 1.0, 1.2, 1.5]))
        kw["alpha" if ap == "renyi" else "q"] = q
        if det and m in ("mi", "cmi", "te", "cte"):
            kw["noise_level"] = 0
    return kw


def cdata(r, n, m, strong=None):
    vs = [r.normal(size=n) for _ in range(m)]
    for i in range(1, m):
        vs[i] = vs[i] + r.uniform(0, 1.5) * vs[int(r.integers(i))]
    return vs


def ddata(r, n, m, labels="int"):
    return dvars(r, n, m, int(pick(r, [2, 3, 5])), labels)


def draw(r, m=None, ap=None, n=None, labels="int", det=True, nvars=None, extra=True):
    """A random valid call, short measure names."""
    m = m or pick(r, ["h", "hx", "kld", "jsd", "mi", "cmi", "te", "cte"], [0.2, 0.1, 0.08, 0.08, 0.16, 0.14, 0.14, 0.1])
    ap = ap or pickap(r, m)
    kind = kindof(ap)
    n = n or (int(r.integers(24, 90)) if kind != "disc" else size(r, 8, 150, 0))
    if m in ("te", "cte"):
        n = max(n, 10)  # the longest delays and histories drawn below fit
    if kind == "cont" and m in ("te", "cte"):
        n = max(n, 22)  # delays leave more rows than neighbours
    kw = akw(r, ap, m, n, det, small_dim=m in ("te", "cte"))
    mk = (lambda k, n=n: ddata(r, n, k, labels)) if kind == "disc" else (lambda k, n=n: cdata(r, n, k))
    cond = None
    if m == "h":
        data = mk(1)
        if extra and r.random() < 0.35:
            data = [tuple(mk(int(r.integers(2, 4))))]
    elif m in ("hx", "kld", "jsd"):
        k = 2 if m != "jsd" else int(r.integers(2, 4))
        if kind == "disc":
            ns = [int(r.integers(8, 80)) for _ in range(k)]
            cs = codes(r, sum(ns), int(r.integers(2, 6)), pick(r, ["iid", "skew"]))
            lab = relabel(r, cs, labels)[0]
            data = np.split(lab, np.cumsum(ns)[:-1])
        else:
            data = [r.normal(size=int(r.integers(24, 80))) + 0.3 * r.normal() for _ in range(k)]
    elif m in ("mi", "cmi"):
        k = nvars or int(pick(r, [2, 2, 2, 3]))
        data = mk(k + (m == "cmi"))
        if m == "cmi":
            cond, data = data[-1], data[:-1]
        elif k == 2 and extra and r.random() < 0.3:
            kw["offset"] = int(r.integers(-2, 3))
        if extra and m == "mi" and "offset" not in kw and ap in ("kernel", "ksg", "renyi", "tsallis") and r.random() < 0.25:
            kw["normalize"] = True
            if ap == "kernel":
                kw["bandwidth"] = 0.3
    else:
        if kind == "disc":
            x, y = dcoupled(r, n, int(r.integers(2, 4)))
            z = codes(r, n, 2, "iid")
            x, y, z = (relabel(r, v, labels)[0] for v in (x, y, z))
        else:
            x, y = coupled(r, n)
            z = r.normal(size=n)
        data = [x, y]
        if extra and n >= 40 and r.random() < 0.2:  # long histories
            for key in ("src_hist_len", "dest_hist_len"):
                kw[key] = int(r.integers(1, 5))
        elif extra:
            for key in ("src_hist_len", "dest_hist_len"):
                if r.random() < 0.4:
                    kw[key] = int(r.integers(1, 3))
            if ap != "ordinal" and r.random() < 0.3:
                kw["step_size"] = int(r.integers(1, 3))
        if m == "cte":
            cond = z
            if extra and r.random() < 0.4:
                kw["cond_hist_len"] = int(r.integers(1, 5 if n >= 40 else 3))
        elif extra and r.random() < 0.3:
            kw["prop_time"] = int(pick(r, [1, 2, -1] if n < 40 else [1, 2, -1, 3, 5, 8, -2, -4]))
    return Call(m, ap, data, cond, kw)


def tolof(ap):
    return dict(rtol=1e-4, atol=1e-6) if ap == "nsb" else dict(rtol=1e-8, atol=1e-9)
