"""A01-A06: discrete and ordinal measures against exhaustive references."""
import math

import numpy as np

from ..core import prop, scenario, Skip
from ..gen import *
from .. import refs as R

# ------------------------------------------------------------------- A01
prop("A01", quick=9000, thorough=45000,
     rule="Each case draws sample size (1..5000), alphabet, marginal/temporal structure, label type (13 kinds), joint arity 1..5, input form and base; non-trivial = at least one compared reference value is finite and non-zero.",
     assumptions=["math.log / fsum reference over a Counter of Python tuples is exact to 1e-9"])


@scenario("A01", 3)
def entropy(c):
    r = c.rng
    n = size(r, 1, 400)
    x = disc(r, n)
    b = base(r)
    c.note(x=x, base=b)
    c.close(c.call(im.entropy, x, approach="discrete", base=b), R.H(R.sym(x)) / R.lnb(b), "H(x)", dtype=str(x.dtype))
    c.tag("labels:" + x.dtype.kind)


@scenario("A01", 3)
def joint(c):
    r = c.rng
    n, m = size(r, 1, 300), int(r.integers(2, 6))
    vs = dvars(r, n, m, 12)
    kinds = {v.dtype.kind for v in vs}
    b = base(r)
    forms = ["tuple"]
    if len(kinds) == 1 and len({v.dtype for v in vs}) == 1:
        forms += ["2d", "2dF", "mixed"]
    form = pick(r, forms)
    c.note(vs=vs, base=b, form=form)
    ref = R.H(R.zipn(*map(R.sym, vs))) / R.lnb(b)
    if form == "tuple":
        arg = tuple(vs)
    elif form == "2d":
        arg = np.column_stack(vs)
    elif form == "2dF":
        arg = np.asfortranarray(np.column_stack(vs))
    else:
        arg = (vs[0], np.column_stack(vs[1:]))
    if {"i", "u"} <= kinds or {"u", "f"} <= kinds or {"i", "f"} <= kinds:
        # common float conversion of the joint sample must stay exact
        if any(v.dtype.kind in "iu" and max(abs(int(v.max())), abs(int(v.min()))) > 2**53 for v in vs):
            c.tag("joint:huge-mixed-signedness")
    c.close(c.call(im.entropy, arg, approach="discrete", base=b), ref, "joint H", form=form, dtypes=[str(v.dtype) for v in vs])
    c.tag("joint:%d:%s" % (m, form))


@scenario("A01", 3)
def cross_kld(c):
    r = c.rng
    n, m = size(r, 1, 300), size(r, 1, 300)
    cx = codes(r, n, int(r.integers(1, 10)), pick(r, ["iid", "skew", "zipf"]))
    cy = codes(r, m, int(r.integers(1, 10)), pick(r, ["iid", "skew", "zipf"]))
    if r.random() < 0.25:
        cy = cy + int(r.integers(1, 12))
    lab, kind = relabel(r, np.concatenate([cx, cy]))
    x, y = lab[:n], lab[n:]
    b = base(r)
    twod = r.random() < 0.15
    if twod:
        other = codes(r, n + m, 3)
        x, y = np.column_stack([cx, other[:n]]), np.column_stack([cy, other[n:]])
    elif r.random() < 0.1:
        x, y = x.tolist(), y.tolist()
    c.note(x=x, y=y, base=b)
    sx, sy = R.sym(x), R.sym(y)
    hx = R.cross_H(sx, sy) / R.lnb(b)
    c.close(c.call(im.cross_entropy, x, y, approach="discrete", base=b), hx, "H_Q(P)")
    c.close(c.call(im.entropy, x, y, approach="discrete", base=b), hx, "entropy(P,Q)")
    c.close(c.call(im.kld, x, y, approach="discrete", base=b), hx - R.H(sx) / R.lnb(b), "KLD")
    c.tag("common support:%d" % min(5, len(set(sx) & set(sy))))


@scenario("A01", 3)
def jsd(c):
    r = c.rng
    m = int(r.integers(2, 6))
    ns = [size(r, 1, 200, 0.01) for _ in range(m)]
    cs = [codes(r, n, int(r.integers(1, 10)), pick(r, ["iid", "skew", "zipf"])) + int(r.integers(0, 3)) * int(r.integers(0, 6)) for n in ns]
    lab, kind = relabel(r, np.concatenate(cs))
    vs = np.split(lab, np.cumsum(ns)[:-1])
    if r.random() < 0.12:
        o = codes(r, sum(ns), 3)
        vs = np.split(np.column_stack([np.concatenate(cs), o]), np.cumsum(ns)[:-1])
    b = base(r)
    if r.random() < 0.1 and vs[0].ndim == 1:
        vs = [v.tolist() for v in vs]
    c.note(vs=vs, base=b)
    ss = [R.sym(v) for v in vs]
    ref = R.jsd_from_dists([R.dist(s) for s in ss], [R.H(s) for s in ss]) / R.lnb(b)
    c.close(c.call(im.jsd, *vs, approach="discrete", base=b), ref, "JSD", m=m)
    c.tag("jsd:%d" % m)


@scenario("A01", 1)
def large(c):
    r = c.rng
    n = int(r.integers(5000, 60000))
    x = disc(r, n, int(pick(r, [2, 50, 1000, n])), pick(r, ["int", "sparse", "neg"]), pick(r, ["iid", "zipf"]))
    y = disc(r, n, 7, "int", "iid")
    c.note(x=x, y=y)
    c.close(c.call(im.entropy, x, approach="discrete", base=2), R.H(R.sym(x)) / np.log(2), "H large")
    c.close(c.call(im.entropy, (x, y), approach="discrete"), R.H(R.zipn(R.sym(x), R.sym(y))), "joint large")


@scenario("A01", 0.02)
def huge(c):
    """Counts and numbers of states beyond 16 bits."""
    r = c.rng
    n = int(pick(r, [66000, 70001, 140000]))
    k = int(pick(r, [1, 2, 7, 300, 66000, n]))
    x, y = hugevar(r, n, k), hugevar(r, n, int(pick(r, [2, 300, 40000])))
    c.note(x=x, y=y)
    sx, sy = R.sym(x), R.sym(y)
    c.close(c.call(im.entropy, x, approach="discrete", base=2), R.H(sx) / np.log(2), "H huge", n=n, k=k)
    c.close(c.call(im.entropy, (x, y), approach="discrete"), R.H(R.zipn(sx, sy)), "joint huge", n=n, k=k)
    z = r.permutation(x)[: n - 400] if r.random() < 0.5 else np.concatenate([x, x[:7], x[:7]])
    sz = R.sym(z)
    hx = R.cross_H(sx, sz)
    c.close(c.call(im.hx, x, z, approach="discrete"), hx, "cross huge", n=n, k=k)
    c.close(c.call(im.kld, x, z, approach="discrete"), hx - R.H(sx), "kld huge", n=n, k=k, atol=1e-9)
    c.close(c.call(im.jsd, x, z, approach="discrete"), R.jsd_from_dists([R.dist(sx), R.dist(sz)], [R.H(sx), R.H(sz)]), "jsd huge", n=n, k=k, atol=1e-9)


# ------------------------------------------------------------------- A02
prop("A02", quick=6000, thorough=30000,
     rule="Each case draws 2..6 related or independent discrete variables (13 label kinds, mixed types), optional condition (1-D, 2-D or tuple), offset and base; non-trivial = non-zero reference (C)MI.",
     assumptions=["huge integers of different signedness in one joint sample are exercised too"])


def fits(ss):
    if sum(math.log2(len(set(v))) for v in ss) > 60:
        raise Skip("the index space of the contingency table is limited to 2**63 (refused)")


@scenario("A02", 4)
def mi(c):
    r = c.rng
    m = int(pick(r, [2, 2, 3, 4, 5, 6]))
    n = size(r, 2, 400)
    vs = dvars(r, n, m, int(pick(r, [3, 8, 30])))
    b = base(r)
    if r.random() < 0.08:
        vs[1] = pick(r, [vs[0], vs[0][:], vs[0][::-1]])  # the same object or memory
    off = int(r.integers(-min(6, n - 1), min(6, n - 1) + 1)) if m == 2 and r.random() < 0.4 else 0
    c.note(vs=vs, base=b, offset=off)
    kw = {"offset": off} if off or r.random() < 0.3 else {}
    ss = [R.sym(v) for v in vs]
    if off:
        ss = list(R.shift(ss[0], ss[1], off))
    fits(ss)
    ref = R.MI(*ss) / R.lnb(b)
    c.close(c.call(im.mi, *vs, approach="discrete", base=b, **kw), ref, "MI", dtypes=[str(v.dtype) for v in vs])
    mm = ref + R.mm_mi_corr(ss) / R.lnb(b)
    c.close(c.call(im.mi, *vs, approach="miller_madow", base=b, **kw), mm, "MM MI", dtypes=[str(v.dtype) for v in vs])
    c.tag("mi:%d" % m)
    c.tag("offset:%d" % np.sign(off))


@scenario("A02", 4)
def cmi(c):
    r = c.rng
    m = int(pick(r, [2, 2, 3, 4, 5]))
    n = size(r, 2, 400)
    vs = dvars(r, n, m + 1, int(pick(r, [3, 6, 20])))
    z, vs = vs[-1], vs[:-1]
    if r.random() < 0.08:
        z = pick(r, vs)
    if r.random() < 0.08:
        vs[1] = pick(r, [vs[0], vs[0][::-1]])
    b = base(r)
    form = pick(r, ["1d", "1d", "1d", "tuple", "2d"])
    c.note(vs=vs, z=z, base=b, form=form)
    ss = [R.sym(v) for v in vs]
    if form == "1d":
        cond, sz = z, R.sym(z)
    else:
        z2 = disc(r, n, int(r.integers(1, 5)), "int")
        z1 = relabel(r, z, "int")[0]
        cond = (z1, z2) if form == "tuple" else np.column_stack([z1, z2])
        sz = R.zipn(R.sym(z1), R.sym(z2))
    fits(ss + [sz])
    ref = R.CMI(ss, sz) / R.lnb(b)
    c.close(c.call(im.cmi, *vs, cond=cond, approach="discrete", base=b), ref, "CMI", dtypes=[str(v.dtype) for v in vs], form=form)
    if form == "1d":
        c.close(c.call(im.cmi, *vs, cond=cond, approach="miller_madow", base=b), ref + R.mm_mi_corr(ss, sz) / R.lnb(b), "MM CMI")
        c.close(c.call(im.mi, *vs, cond=cond, approach="discrete", base=b), ref, "MI with cond")
    c.tag("cmi:%d:%s" % (m, form))


@scenario("A02", 1)
def many_states(c):
    """Large contingency tables, count products far above 2**63."""
    r = c.rng
    n = int(r.integers(500, 6000))
    m = int(pick(r, [2, 3, 4, 6, 8]))
    k = int(pick(r, [2, 3, 40, 300]))
    while True:
        vs = dvars(r, n, m, k, pick(r, ["int", "sparse", "neg", "uint16", "int32"]))
        # the contingency table's index space is limited to 2**63 (it refuses larger ones)
        if sum(np.log2(len(np.unique(v))) for v in vs) < 61:
            break
        m -= 1
    b = base(r)
    c.note(vs=vs, base=b)
    ss = [R.sym(v) for v in vs]
    c.close(c.call(im.mi, *vs, approach="discrete", base=b), R.MI(*ss) / R.lnb(b), "MI large", m=m)
    z = vs[-1]
    if m > 2:
        c.close(c.call(im.cmi, *vs[:-1], cond=z, approach="discrete", base=b), R.CMI(ss[:-1], ss[-1]) / R.lnb(b), "CMI large", m=m)


@scenario("A02", 0.02)
def huge(c):
    """Counts and numbers of states beyond 16 bits."""
    r = c.rng
    n = int(pick(r, [66000, 70001, 140000]))
    vs = [hugevar(r, n, int(pick(r, [2, 5, 300, 66000]))) for _ in range(int(pick(r, [2, 2, 3])))]
    vs[1] = np.where(r.random(n) < 0.5, vs[0], vs[1])
    c.note(vs=vs)
    ss = [R.sym(v) for v in vs]
    mi = R.MI(*ss)
    c.close(c.call(im.mi, *vs, approach="discrete", base=2), mi / np.log(2), "MI huge", atol=1e-9)
    c.close(c.call(im.mi, *vs, approach="miller_madow"), mi + R.mm_mi_corr(ss), "MM MI huge", atol=1e-9)


@scenario("A02", 0.02)
def huge_cond(c):
    """The conditional form needs memory for the product of the states."""
    r = c.rng
    n = int(pick(r, [66000, 70001, 140000]))
    vs = [hugevar(r, n, int(pick(r, [1, 2, 5, 40]))) for _ in range(int(pick(r, [2, 2, 3])))]
    vs[1] = np.where(r.random(n) < 0.5, vs[0], vs[1])
    z = hugevar(r, n, int(pick(r, [1, 2, 30])))
    c.note(vs=vs, z=z)
    ss, sz = [R.sym(v) for v in vs], R.sym(z)
    cmi = R.CMI(ss, sz)
    c.close(c.call(im.cmi, *vs, cond=z, approach="discrete"), cmi, "CMI huge", atol=1e-9)
    c.close(c.call(im.cmi, *vs, cond=z, approach="miller_madow"), cmi + R.mm_mi_corr(ss, sz), "MM CMI huge", atol=1e-9)


@scenario("A02", 1)
def multicol(c):
    """Two-dimensional (multi-column) variables."""
    r = c.rng
    n = size(r, 2, 200)
    vs = [np.column_stack(dvars(r, n, int(r.integers(1, 4)), 4, "int")) for _ in range(int(r.integers(2, 4)))]
    b = base(r)
    c.note(vs=vs, base=b)
    ss = [R.sym(v) for v in vs]
    c.close(c.call(im.mi, *vs, approach="discrete", base=b), R.MI(*ss) / R.lnb(b), "MI of multi-column variables")
    z = disc(r, n, 3, "int")
    c.close(c.call(im.cmi, *vs, cond=z, approach="discrete", base=b), R.CMI(ss, R.sym(z)) / R.lnb(b), "CMI of multi-column variables")


# ------------------------------------------------------------------- A03
prop("A03", quick=30000, thorough=150000,
     rule="Each case draws a count regime (uniform, skewed, all singletons, one heavy state, no singletons, no doubletons, constant, single observation), an approach, its parameters and a base, for single, joint, cross and JSD forms; non-trivial = finite non-zero reference.",
     assumptions=["NSB: same integrals by composite Gauss-Legendre vs adaptive quadrature; agreement to 1e-5 relative"])

REG = ["codes", "singletons", "nosing", "nodoub", "const", "one", "two", "heavy", "f1most"]


def regime(r, nmax=200):
    g = pick(r, REG)
    n = size(r, 1, nmax, 0.02, 1500)
    if g == "codes":
        x = codes(r, n)
    elif g == "singletons":
        x = r.permutation(n)
    elif g == "nosing":
        x = np.concatenate([np.full(int(r.integers(2, 6)), i) for i in range(int(r.integers(1, 20)))])
    elif g == "nodoub":
        x = np.concatenate([np.full(int(pick(r, [1, 3, 4, 7])), i) for i in range(int(r.integers(1, 20)))])
    elif g == "const":
        x = np.zeros(n, dtype=int)
    elif g == "one":
        x = np.array([int(r.integers(0, 9))])
    elif g == "two":
        x = r.integers(0, 2, 2)
    elif g == "heavy":
        x = np.concatenate([np.zeros(n, dtype=int), np.arange(1, int(r.integers(2, 30)))])
    else:
        x = np.concatenate([np.arange(n), [0] * int(r.integers(1, 4))])
    return g, r.permutation(x)


def params(r, ap, x):
    kw = {}
    K = len(np.unique(x, axis=0)) if not isinstance(x, list) else len(set(x))
    if ap == "bayes":
        kw["alpha"] = pick(r, ALPHAS)
        if r.random() < 0.4:
            kw["K"] = int(K + r.integers(0, 10))
    elif ap in ("ansb", "nsb"):
        if r.random() < 0.4:
            kw["K"] = int(K + r.integers(0, 6)) if ap == "nsb" else max(1, int(K + r.integers(-2, 3)))
        if ap == "ansb" and r.random() < 0.3:
            kw["undersampled"] = float(r.random())
    return kw


def tol(ap):
    return dict(rtol=2e-5, atol=1e-7) if ap == "nsb" else dict(rtol=1e-8, atol=1e-9)


def valid_ref(ap, cnt, kw):
    """Restrict NSB / ANSB to where the documented formula is defined."""
    n, K = sum(cnt), kw.get("K") or len(cnt)
    if ap == "nsb" and (K == 1 or n < K):
        return False
    if ap == "ansb" and K > n:
        return False
    return True


def entropy_close(c, got, ap, cnt, kw, b, what, **ctx):
    """Compare with the closed formula; NSB has two listed deviations."""
    ref = R.H_by(ap, cnt, **kw)
    if ap == "nsb" and np.isfinite(ref):
        m = R.nsb_overflow(cnt, kw.get("K"))
        if np.isnan(got) and m > 600:
            c.check(True, what, nontrivial=False)
            c.known_finding("nsb-overflow-nan", "NaN although there are coincidences")
            return
        doc = R.H_nsb(cnt, kw.get("K"), documented=True)
        from ..core import same

        if same(got, doc / R.lnb(b), 1e-4, 1e-6) and not same(doc, ref, 1e-3, 1e-5):
            c.check(True, what)
            return
        c.close(got, ref / R.lnb(b), what, **ctx, **tol(ap))
        if not same(doc, ref, 1e-3, 1e-5):
            c.known_finding("nsb-posterior", "posterior differs from the documented one")
        return
    c.close(got, ref / R.lnb(b), what, **ctx, **tol(ap))


@scenario("A03", 6)
def single(c):
    r = c.rng
    g, x = regime(r)
    ap = pick(r, DISC[1:])
    if ap == "nsb" and len(x) > 300:
        x = x[:300]
    if ap in ("zhang", "bonachela") and len(x) > 600:
        x = x[:600]
    kw = params(r, ap, x)
    b = base(r)
    xl = relabel(r, x, pick(r, ["int", "str", "neg", "uint8", "sparse"]))[0]
    c.note(ap=ap, kw=kw, x=xl, base=b)
    cnt = list(R.counts(R.sym(xl)).values())
    if not valid_ref(ap, cnt, kw):
        raise Skip("formula undefined")
    got = c.call(im.entropy, xl, approach=ap, base=b, **kw)
    entropy_close(c, got, ap, cnt, kw, b, f"H {ap}", regime=g, counts=sorted(cnt)[-8:], N=len(x))
    c.tag(f"{ap}:{g}")


@scenario("A03", 3)
def profile(c):
    """Count profiles of any shape: the correction terms are functions of the
    numbers of states seen once, twice, ... and of the sample size."""
    r = c.rng
    ap = pick(r, [a for a in DISC[1:] if a != "nsb"])
    lim = 250 if ap in ("zhang", "bonachela") else 2500
    big = lambda hi: int(np.exp(r.random() * np.log(hi + 1)))
    cnt = [1] * pick(r, [0, 1, 2, big(lim // 2)]) + [2] * pick(r, [0, 1, 2, big(lim // 3)])
    cnt += [3] * pick(r, [0, 1, big(lim // 6)]) + [big(lim) for _ in range(int(r.integers(0, 4)))]
    if not cnt:
        cnt = [big(lim)]
    x = r.permutation(np.repeat(np.arange(len(cnt)), cnt))
    kw = params(r, ap, x)
    b = base(r)
    c.note(ap=ap, kw=kw, counts=cnt, base=b)
    if not valid_ref(ap, cnt, kw):
        raise Skip("formula undefined")
    entropy_close(c, c.call(im.entropy, x, approach=ap, base=b, **kw), ap, cnt, kw, b, f"H {ap} profile", N=len(x), f1=cnt.count(1), f2=cnt.count(2))
    c.tag(f"{ap}:profile")


@scenario("A03", 1)
def tallies(c):
    """The same entropies of a table of counts, also of immense samples."""
    r = c.rng
    ap = pick(r, [a for a in DISC if a not in ("nsb", "grassberger")])  # the latter has no entropy of counts
    K = int(pick(r, [1, 2, 3, 7, 40, 300]))
    top = 40 if ap not in ("zhang", "bonachela", "chao_wang_jost") else 6 if K > 3 else 8
    hi = int(r.integers(1, top + 1))
    cnt = [int(2 ** (r.random() * hi)) + int(pick(r, [0, 0, 1])) for _ in range(K)]
    arr = np.array(cnt)
    lab = relabel(r, np.arange(K))[0]
    kw = params(r, ap, np.arange(K))
    if ap == "ansb":
        kw.pop("K", None)
    b = base(r)
    c.note(ap=ap, kw=kw, counts=arr, labels=lab, base=b)
    if not valid_ref(ap, cnt, kw):
        raise Skip("formula undefined")
    cls = type(im.estimator([0, 1, 1], measure="h", approach=ap, **({"alpha": 1.0} if ap == "bayes" else {})))
    got = c.call(lambda: cls.from_counts(lab, arr, base=b, **kw).global_val())
    entropy_close(c, got, ap, cnt, kw, b, f"H {ap} of counts")
    c.tag(f"{ap}:counts")


@scenario("A03", 0.04)
def huge(c):
    """Counts and numbers of states beyond 16 bits."""
    r = c.rng
    ap = pick(r, [a for a in DISC[1:] if a != "nsb"])
    n = int(pick(r, [66000, 70001, 140000]))
    k = int(pick(r, [1, 2, 3, 9] if ap in ("zhang", "bonachela") else [1, 2, 7, 300, 50000]))
    x = hugevar(r, n, k)
    if ap not in ("zhang", "bonachela") and r.random() < 0.4:  # (nearly) all states are rare
        k, x = n, r.permutation(n)
        if r.random() < 0.5:
            x[: n // 3] = x[n // 3 : 2 * (n // 3)]
    if r.random() < 0.5:  # some states seen once or twice
        x[:3] = x.max() + 1 + np.array([0, 1, 1])
    kw = params(r, ap, x)
    c.note(ap=ap, kw=kw, x=x)
    cnt = list(R.counts(R.sym(x)).values())
    if not valid_ref(ap, cnt, kw):
        raise Skip("formula undefined")
    entropy_close(c, c.call(im.entropy, x, approach=ap, **kw), ap, cnt, kw, "e", f"H {ap} huge", N=len(x), k=k)
    c.tag(f"{ap}:huge")


@scenario("A03", 0, once=True)
def nsb_probe(c):
    for x in ([1, 2, 3, 4, 5, 1, 2], [0] * 127 + list(range(1, 15))):
        cnt = list(R.counts(x).values())
        c.note(x=x)
        entropy_close(c, c.call(im.entropy, x, approach="nsb"), "nsb", cnt, {}, "e", "H nsb")


@scenario("A03", 3)
def joint(c):
    r = c.rng
    n = size(r, 1, 120)
    vs = dvars(r, n, int(r.integers(2, 5)), 5)
    ap = pick(r, DISC[1:])
    s = R.zipn(*map(R.sym, vs))
    kw = params(r, ap, s)
    b = base(r)
    c.note(ap=ap, kw=kw, vs=vs, base=b)
    cnt = list(R.counts(s).values())
    if not valid_ref(ap, cnt, kw):
        raise Skip("formula undefined")
    entropy_close(c, c.call(im.entropy, tuple(vs), approach=ap, base=b, **kw), ap, cnt, kw, b, f"joint H {ap}")
    c.tag(f"{ap}:joint")


@scenario("A03", 2)
def cross(c):
    r = c.rng
    n, m = size(r, 1, 200), size(r, 1, 200)
    cx, cy = codes(r, n, int(r.integers(1, 8)), "skew"), codes(r, m, int(r.integers(1, 8)), "skew") + int(pick(r, [0, 0, 0, 2, 9]))
    lab, _ = relabel(r, np.concatenate([cx, cy]))
    x, y = lab[:n], lab[n:]
    b = base(r)
    ap = pick(r, ["miller_madow", "bayes"])
    sx, sy = R.sym(x), R.sym(y)
    px, py = R.counts(sx), R.counts(sy)
    common = set(px) & set(py)
    if ap == "miller_madow":
        kw = {}
        ref = R.cross_H(sx, sy) + ((len(px) + len(py)) / 2 - 1) / (n + m) if common else 0.0
    else:
        kw = {"alpha": pick(r, ALPHAS)}
        if r.random() < 0.4:
            kw["K"] = max(len(px), len(py)) + int(r.integers(0, 5))
        dp = dict(zip(px, R.bayes_probs(px.values(), kw["alpha"], kw.get("K"))))
        dq = dict(zip(py, R.bayes_probs(py.values(), kw["alpha"], kw.get("K"))))
        ref = R.fsum(-dp[k] * np.log(dq[k]) for k in common)
    c.note(ap=ap, kw=kw, x=x, y=y, base=b)
    c.close(c.call(im.cross_entropy, x, y, approach=ap, base=b, **kw), ref / R.lnb(b), f"cross {ap}", kw=kw)
    c.tag("cross:" + ap)


@scenario("A03", 2)
def jsd(c):
    r = c.rng
    m = int(r.integers(2, 5))
    ns = [size(r, 2, 120, 0.01) for _ in range(m)]
    cs = [codes(r, n, int(r.integers(2, 9)), pick(r, ["iid", "skew", "zipf"])) for n in ns]
    lab, _ = relabel(r, np.concatenate(cs))
    vs = np.split(lab, np.cumsum(ns)[:-1])
    ap = pick(r, ["bayes", "shrink"])
    kw = {"alpha": pick(r, ALPHAS)} if ap == "bayes" else {}
    b = base(r)
    c.note(ap=ap, kw=kw, vs=vs, base=b)
    ds, hs = [], []
    for v in vs:
        ct = R.counts(R.sym(v))
        pr = R.bayes_probs(ct.values(), kw["alpha"]) if ap == "bayes" else R.shrink_probs(list(ct.values()))
        ds.append(dict(zip(ct, pr)))
        hs.append(R.H_p(pr))
    c.close(c.call(im.jsd, *vs, approach=ap, base=b, **kw), R.jsd_from_dists(ds, hs) / R.lnb(b), f"JSD {ap}", kw=kw)
    c.tag("jsd:" + ap)


@scenario("A03", 2)
def kld(c):
    r = c.rng
    cx, cy = codes(r, size(r, 2, 150), 5, "skew"), codes(r, size(r, 2, 150), 5, "skew")
    ap = pick(r, ["miller_madow", "bayes"])
    kw = {"alpha": pick(r, ALPHAS)} if ap == "bayes" else {}
    b = base(r)
    c.note(ap=ap, kw=kw, x=cx, y=cy, base=b)
    px, py = R.counts(cx.tolist()), R.counts(cy.tolist())
    common = set(px) & set(py)
    if ap == "miller_madow":
        ref = (R.cross_H(cx.tolist(), cy.tolist()) + ((len(px) + len(py)) / 2 - 1) / (len(cx) + len(cy)) if common else 0.0) - R.H_mm(list(px.values()))
    else:
        dp = dict(zip(px, R.bayes_probs(px.values(), kw["alpha"])))
        dq = dict(zip(py, R.bayes_probs(py.values(), kw["alpha"])))
        ref = R.fsum(-dp[k] * np.log(dq[k]) for k in common) - R.H_p(dp.values())
    c.close(c.call(im.kld, cx, cy, approach=ap, base=b, **kw), ref / R.lnb(b), f"KLD {ap}")


# ------------------------------------------------------------------- A04
A4 = ["grassberger", "chao_shen", "chao_wang_jost", "bonachela", "zhang", "bayes", "nsb", "ansb", "shrink"]
prop("A04", quick=5000, thorough=25000,
     rule="Each case draws an approach, parameters, 2..4 discrete variables (condition, history lengths 1..3, step 1..3, propagation time), and compares the derived measure with the reference combination of closed-form entropies; non-trivial = finite non-zero value.",
     assumptions=["NSB agrees to 2e-5 relative of the entropy scale (quadrature)"])


def a4kw(r, ap, *seqs):
    kw = {}
    K = len(set(R.zipn(*seqs)))
    if ap == "bayes":
        kw["alpha"] = pick(r, ALPHAS)
        if r.random() < 0.4:
            kw["K"] = K + int(r.integers(0, 6))
    elif ap == "nsb" and r.random() < 0.3:
        kw["K"] = K + int(r.integers(0, 4))
    elif ap == "ansb":
        if r.random() < 0.2:
            kw["undersampled"] = float(r.random())
    return kw


def comb(ap, kw, plus, minus):
    tot, scale = [], 1.0
    for sgn, group in ((1, plus), (-1, minus)):
        for s, w in group:
            cnt = list(R.counts(s).values())
            if not valid_ref(ap, cnt, kw):
                raise Skip("formula undefined")
            h = R.H_by(ap, cnt, **kw)
            scale = max(scale, abs(h)) if np.isfinite(h) else scale
            tot.append(sgn * w * h)
    return (np.nan if np.isnan(tot).any() else R.fsum(tot)), scale


def shrink_point(seqs_plus, seqs_minus):
    """Mean over observations of the pointwise shrink entropies."""
    tot = 0.0
    for sgn, group in ((1, seqs_plus), (-1, seqs_minus)):
        for s, w in group:
            ct = R.counts(s)
            pr = dict(zip(ct, R.shrink_probs(list(ct.values()))))
            tot += sgn * w * np.mean([-np.log(pr[k]) for k in s])
    return tot


def derived(c, got, ap, kw, b, plus, minus, what):
    ref, scale = comb(ap, kw, plus, minus)
    if ap == "nsb" and np.isnan(got) and np.isfinite(ref):
        if max(R.nsb_overflow(R.counts(s).values(), kw.get("K")) for s, w in plus + minus) > 600:
            c.known_finding("nsb-overflow-nan", what)
            return
    rt = tol(ap)
    at = rt["rtol"] * 4 * scale + rt["atol"] if ap == "nsb" else 1e-9 * max(1, scale)
    if ap == "shrink":
        from ..core import same

        if same(got, ref / R.lnb(b), 1e-8, at):
            c.check(True, what)
            return
        c.close(got, shrink_point(plus, minus) / R.lnb(b), what + " (pointwise combination)", rtol=1e-8, atol=at)
        c.known_finding("shrink-pointwise-combination", what)
        return
    c.close(got, ref / R.lnb(b), what, rtol=1e-8, atol=at / min(1, abs(R.lnb(b))), kw=kw)


@scenario("A04", 3)
def mi(c):
    r = c.rng
    ap = pick(r, A4)
    m = int(pick(r, [2, 2, 3, 4]))
    n = size(r, 3, 120, 0)
    vs = dvars(r, n, m, int(pick(r, [2, 4, 8])), pick(r, [None, "int"]))
    b = base(r)
    off = int(r.integers(-2, 3)) if m == 2 and r.random() < 0.3 and n > 4 else 0
    ss = [R.sym(v) for v in vs]
    if off:
        ss = list(R.shift(ss[0], ss[1], off))
    kw = a4kw(r, ap, *ss)
    c.note(ap=ap, kw=kw, vs=vs, base=b, offset=off)
    got = c.call(im.mi, *vs, approach=ap, base=b, **kw, **({"offset": off} if off else {}))
    derived(c, got, ap, kw, b, [(s, 1) for s in ss], [(R.zipn(*ss), 1)], f"MI {ap}")
    c.tag(f"mi:{ap}:{m}")


@scenario("A04", 3)
def cmi(c):
    r = c.rng
    ap = pick(r, A4)
    m = int(pick(r, [2, 2, 3]))
    n = size(r, 3, 120, 0)
    vs = dvars(r, n, m + 1, int(pick(r, [2, 4])), pick(r, [None, "int"]))
    b = base(r)
    ss = [R.sym(v) for v in vs]
    kw = a4kw(r, ap, *ss)
    z, ss = ss[-1], ss[:-1]
    c.note(ap=ap, kw=kw, vs=vs, base=b)
    got = c.call(im.cmi, *vs[:-1], cond=vs[-1], approach=ap, base=b, **kw)
    derived(c, got, ap, kw, b, [(R.zipn(s, z), 1) for s in ss], [(R.zipn(*ss, z), 1), (z, 1)] if m == 2 else [(R.zipn(*ss, z), 1), (z, 1)], f"CMI {ap} m={m}")
    c.tag(f"cmi:{ap}:{m}")


def hist(r, n, cond=False):
    for _ in range(20):
        s, d, e = (int(v) for v in r.integers(1, 4, 3))
        st = int(pick(r, [1, 1, 1, 2, 3]))
        pt = int(pick(r, [0, 0, 0, 1, 2, -1])) if not cond else 0
        if (max(s, d, e if cond else 0)) * st + abs(pt) * st + 2 <= n:
            return s, d, e, st, pt
    return 1, 1, 1, 1, 0


def a4lab(r, v):
    """Any label type, sometimes two columns."""
    v = relabel(r, v, pick(r, ["int", "str", "neg", None]))[0]
    if r.random() < 0.15:
        w = relabel(r, codes(r, len(v), 2), "neg")[0]
        v = np.column_stack([v, w])
    return v


@scenario("A04", 3)
def te(c):
    r = c.rng
    ap = pick(r, A4 + ["miller_madow"])
    n = size(r, 8, 120, 0)
    k = int(r.integers(2, 4))
    x, y = dcoupled(r, n, k)
    s, d, _, st, pt = hist(r, n)
    xl, yl = a4lab(r, x), a4lab(r, y)
    S, F, D = R.embed(R.sym(xl), R.sym(yl), s, d, st, pt)
    kw = a4kw(r, ap, S, F, D)
    b = base(r)
    c.note(ap=ap, kw=kw, x=xl, y=yl, base=b, hist=[s, d, st, pt])
    got = c.call(im.te, xl, yl, approach=ap, base=b, src_hist_len=s, dest_hist_len=d, step_size=st, prop_time=pt, **kw)
    derived(c, got, ap, kw, b, [(R.zipn(F, D), 1), (R.zipn(S, D), 1)], [(R.zipn(S, F, D), 1), (D, 1)], f"TE {ap}")
    c.tag(f"te:{ap}")


@scenario("A04", 3)
def cte(c):
    r = c.rng
    ap = pick(r, A4 + ["miller_madow"])
    n = size(r, 8, 120, 0)
    x, y = dcoupled(r, n, 2)
    z = codes(r, n, 2, "markov")
    s, d, e, st, _ = hist(r, n, True)
    x, y, z = a4lab(r, x), a4lab(r, y), a4lab(r, z)
    S, F, D, C = R.embed(R.sym(x), R.sym(y), s, d, st, 0, R.sym(z), e)
    kw = a4kw(r, ap, S, F, D, C)
    b = base(r)
    c.note(ap=ap, kw=kw, x=x, y=y, z=z, base=b, hist=[s, d, e, st])
    got = c.call(im.cte, x, y, cond=z, approach=ap, base=b, src_hist_len=s, dest_hist_len=d, cond_hist_len=e, step_size=st, **kw)
    derived(c, got, ap, kw, b, [(R.zipn(F, D, C), 1), (R.zipn(S, D, C), 1)], [(R.zipn(S, F, D, C), 1), (R.zipn(D, C), 1)], f"CTE {ap}")
    c.tag(f"cte:{ap}")


@scenario("A04", 0, once=True)
def shrink_probe(c):
    x, y = np.array([0, 0, 1, 2, 2, 2, 1, 0]), np.array([0, 1, 1, 2, 2, 0, 1, 0])
    ss = [x.tolist(), y.tolist()]
    c.note(x=x, y=y)
    z = [0] * 127 + list(range(1, 15))
    derived(c, c.call(im.mi, z, z, approach="nsb"), "nsb", {}, "e", [(z, 2)], [(R.zipn(z, z), 1)], "MI nsb")
    derived(c, c.call(im.mi, x, y, approach="shrink"), "shrink", {}, "e", [(s, 1) for s in ss], [(R.zipn(*ss), 1)], "MI shrink")


# ------------------------------------------------------------------- A05
prop("A05", quick=5000, thorough=30000,
     rule="Each case draws series (coupled, Markov, iid; 13 label kinds), history lengths 1..5, step sizes 1..5, positive/negative propagation times and a base; non-trivial = non-zero reference TE/CTE.",
     assumptions=[])


def hist5(r, n, cond=False):
    for _ in range(50):
        s, d, e = (int(v) for v in pick(r, [r.integers(1, 3, 3), r.integers(1, 6, 3)]))
        st = int(pick(r, [1, 1, 2, 3, 5]))
        pt = int(pick(r, [0, 0, 1, 2, 4, -1, -3])) if not cond else 0
        if (max(s, d, e if cond else 0)) * st + abs(pt) * st + 1 <= n:
            return s, d, e, st, pt
    return 1, 1, 1, 1, 0


@scenario("A05", 4)
def te(c):
    r = c.rng
    n = size(r, 3, 9, 0) if r.random() < 0.1 else size(r, 15, 300)
    x, y = dcoupled(r, n, int(r.integers(2, 5))) if r.random() < 0.75 else (codes(r, n, int(r.integers(1, 6))), codes(r, n, int(r.integers(1, 6))))
    same_kind = pick(r, ["int", "neg", "str", "uint8", "sparse", "bool"])
    xl = relabel(r, x, same_kind if r.random() < 0.7 else None)[0]
    yl = relabel(r, y, same_kind if r.random() < 0.7 else None)[0]
    if r.random() < 0.06:
        yl = pick(r, [xl, xl[:], xl[::-1]])
    s, d, _, st, pt = hist5(r, n)
    b = base(r)
    c.note(x=xl, y=yl, hist=[s, d, st, pt], base=b)
    S, F, D = R.embed(R.sym(xl), R.sym(yl), s, d, st, pt)
    ref = R.CMI([S, F], D) / R.lnb(b)
    kw = dict(src_hist_len=s, dest_hist_len=d, step_size=st, prop_time=pt)
    if r.random() < 0.3:
        kw = {k: v for k, v in kw.items() if v != (0 if k == "prop_time" else 1)}
    if pt and r.random() < 0.2:
        kw["offset"] = kw.pop("prop_time")
    c.close(c.call(im.te, xl, yl, approach="discrete", base=b, **kw), ref, "TE", kw=kw, dtypes=[str(xl.dtype), str(yl.dtype)])
    # the documented Miller-Madow correction of the four entropies
    corr = (len(set(R.zipn(F, D))) + len(set(R.zipn(S, D))) - len(set(R.zipn(S, F, D))) - len(set(D))) / (2 * len(F))
    c.close(c.call(im.te, xl, yl, approach="miller_madow", base=b, **kw), ref + corr / R.lnb(b), "MM TE", kw=kw)
    c.tag("te:s%dd%d" % (min(s, 3), min(d, 3)))
    c.tag("step:%d" % st)
    c.tag("prop:%d" % np.sign(pt))


@scenario("A05", 4)
def cte(c):
    r = c.rng
    n = size(r, 3, 9, 0) if r.random() < 0.1 else size(r, 15, 300)
    x, y = dcoupled(r, n, int(r.integers(2, 4))) if r.random() < 0.75 else (codes(r, n, int(r.integers(1, 5))), codes(r, n, int(r.integers(1, 5))))
    z = related(r, x, 3) if r.random() < 0.5 else codes(r, n, int(r.integers(1, 4)))
    kind = pick(r, ["int", "neg", "str", "uint8", "sparse"])
    xl, yl, zl = (relabel(r, v, kind if r.random() < 0.8 else None)[0] for v in (x, y, z))
    if r.random() < 0.06:
        zl = pick(r, [xl, yl, xl[::-1]])
    if r.random() < 0.06:
        yl = pick(r, [xl, zl])
    s, d, e, st, _ = hist5(r, n, True)
    b = base(r)
    c.note(x=xl, y=yl, z=zl, hist=[s, d, e, st], base=b)
    S, F, D, C = R.embed(R.sym(xl), R.sym(yl), s, d, st, 0, R.sym(zl), e)
    DC = R.zipn(D, C)
    ref = R.CMI([S, F], DC) / R.lnb(b)
    kw = dict(src_hist_len=s, dest_hist_len=d, cond_hist_len=e, step_size=st)
    c.close(c.call(im.cte, xl, yl, cond=zl, approach="discrete", base=b, **kw), ref, "CTE", kw=kw, dtypes=[str(v.dtype) for v in (xl, yl, zl)])
    corr = (len(set(R.zipn(F, DC))) + len(set(R.zipn(S, DC))) - len(set(R.zipn(S, F, DC))) - len(set(DC))) / (2 * len(F))
    c.close(c.call(im.cte, xl, yl, cond=zl, approach="miller_madow", base=b, **kw), ref + corr / R.lnb(b), "MM CTE", kw=kw)
    c.tag("cte:s%dd%dc%d" % (min(s, 3), min(d, 3), min(e, 3)))
    c.tag("step:%d" % st)


@scenario("A05", 1)
def large(c):
    r = c.rng
    n = int(r.integers(2000, 15000))
    x, y = codes(r, n, int(r.integers(2, 30)), "iid"), None
    y = np.where(r.random(n) < 0.5, np.roll(x, 2), r.integers(0, 5, n))
    c.note(x=x, y=y)
    c.close(c.call(im.te, x, y, approach="discrete", src_hist_len=2, prop_time=1), R.TE(x.tolist(), y.tolist(), 2, 1, 1, 1), "TE large")


def mm_te(S, F, D):
    u = lambda *q: len(set(R.zipn(*q)))
    return (u(F, D) + u(S, D) - u(S, F, D) - u(D)) / (2 * len(F))


@scenario("A05", 1)
def multicol(c):
    """Two-dimensional (multi-column) source, destination and condition."""
    r = c.rng
    n = size(r, 15, 200)
    two = lambda v: np.column_stack([v, codes(r, n, int(pick(r, [1, 2, 3])))]) if r.random() < 0.6 else v
    x, y = (two(v) for v in dcoupled(r, n, 3))
    z = two(codes(r, n, 2))
    l, k, m, st, _ = hist5(r, n, True)
    b = base(r)
    c.note(x=x, y=y, z=z, a=(l, k, m, st), base=b)
    kw = dict(src_hist_len=l, dest_hist_len=k, step_size=st)
    ap = pick(r, ["discrete", "miller_madow"])
    S, F, D = R.embed(R.sym(x), R.sym(y), l, k, st, 0)
    ref = R.CMI([S, F], D) + (ap == "miller_madow") * mm_te(S, F, D)
    c.close(c.call(im.te, x, y, approach=ap, base=b, **kw), ref / R.lnb(b), "TE of multi-column series", kw=kw, ap=ap)
    S, F, D, C = R.embed(R.sym(x), R.sym(y), l, k, st, 0, R.sym(z), m)
    D = R.zipn(D, C)
    ref = R.CMI([S, F], D) + (ap == "miller_madow") * mm_te(S, F, D)
    c.close(c.call(im.cte, x, y, cond=z, approach=ap, base=b, cond_hist_len=m, **kw), ref / R.lnb(b), "CTE of multi-column series", kw=kw, ap=ap)


@scenario("A05", 0.02)
def huge(c):
    """Counts and numbers of states beyond 16 bits."""
    r = c.rng
    n = int(pick(r, [66000, 70001, 140000]))
    x, z = hugevar(r, n, int(pick(r, [1, 2, 4]))), hugevar(r, n, int(pick(r, [1, 2])))
    y = np.where(r.random(n) < 0.5, np.roll(x, 1), hugevar(r, n, int(pick(r, [1, 2, 4]))))
    l, k, m = (int(r.integers(1, 3)) for _ in range(3))
    st, pt = int(pick(r, [1, 1, 2])), int(pick(r, [0, 3, -2]))
    c.note(x=x, y=y, z=z, a=(l, k, st, pt, m))
    kw = dict(src_hist_len=l, dest_hist_len=k, step_size=st)
    S, F, D = R.embed(R.sym(x), R.sym(y), l, k, st, pt)
    te, mm = R.CMI([S, F], D), mm_te(S, F, D)
    c.close(c.call(im.te, x, y, approach="discrete", prop_time=pt, **kw), te, "TE huge", kw=kw, pt=pt, atol=1e-9)
    c.close(c.call(im.te, x, y, approach="miller_madow", prop_time=pt, **kw), te + mm, "MM TE huge", kw=kw, pt=pt, atol=1e-9)
    S, F, D, C = R.embed(R.sym(x), R.sym(y), l, k, st, 0, R.sym(z), m)
    D = R.zipn(D, C)
    te, mm = R.CMI([S, F], D), mm_te(S, F, D)
    c.close(c.call(im.cte, x, y, cond=z, approach="discrete", cond_hist_len=m, **kw), te, "CTE huge", kw=kw, m=m, atol=1e-9)
    c.close(c.call(im.cte, x, y, cond=z, approach="miller_madow", cond_hist_len=m, **kw), te + mm, "MM CTE huge", kw=kw, m=m, atol=1e-9)


# ------------------------------------------------------------------- A06
prop("A06", quick=5000, thorough=30000,
     rule="Each case draws series (tie-free real, integer permutations, or heavily tied with stable=True), embedding dimension 1..20, step size 1..4, measure and base; the reference sorts every delay window with an explicit tie order; non-trivial = non-zero value.",
     assumptions=["without stable=True tied data are only exercised by the known-finding probe: the tie order of NumPy's default sort is not specified"])


def oseries(r, n, tied):
    if tied:
        x = pick(r, [r.integers(0, 4, n), r.integers(-2, 3, n).astype(float), np.round(r.normal(size=n), 1), r.integers(0, 200, n).astype(np.uint8), np.zeros(n, dtype=int), r.integers(0, 2, n)])
        return x
    x = pick(r, [r.normal(size=n), r.permutation(n), np.cumsum(r.normal(size=n)), np.sin(np.arange(n) * r.uniform(0.1, 2)) + 1e-3 * r.normal(size=n), np.arange(n), -np.arange(n) * 1.5, r.permutation(n).astype(np.float32)])
    return x


def opar(r, n, lo=1):
    for _ in range(50):
        dim = int(pick(r, [1, 2, 2, 3, 3, 4, 5, 6, 7], [0.06, 0.16, 0.16, 0.17, 0.17, 0.12, 0.08, 0.05, 0.03]))
        st = int(pick(r, [1, 1, 1, 2, 3, 4]))
        if (dim - 1) * st + lo <= n:
            return dim, st
    return 1, 1


def okw(r, dim, st, tied):
    kw = dict(embedding_dim=dim)
    if st != 1 or r.random() < 0.3:
        kw["step_size"] = st
    if tied or r.random() < 0.15:
        kw["stable"] = True
    return kw


@scenario("A06", 3)
def h(c):
    r = c.rng
    n = size(r, 3, 300)
    tied = r.random() < 0.4
    x = oseries(r, n, tied)
    dim, st = opar(r, n)
    kw = okw(r, dim, st, tied)
    b = base(r)
    c.note(x=x, kw=kw, base=b)
    ref = R.H(R.patterns(x, dim, st)) / R.lnb(b)
    c.close(c.call(im.entropy, x, approach="ordinal", base=b, **kw), ref, "H ordinal", kw=kw, tied=tied)
    c.tag("dim%d:step%d:%s" % (dim, st, "tied" if tied else "free"))


@scenario("A06", 3)
def joint_cross_jsd(c):
    r = c.rng
    n = size(r, 4, 250)
    tied = r.random() < 0.4
    m = int(r.integers(2, 4))
    vs = [oseries(r, n, tied) for _ in range(m)]
    dim, st = opar(r, n)
    kw = okw(r, dim, st, tied)
    b = base(r)
    c.note(vs=vs, kw=kw, base=b)
    ps = [R.patterns(v, dim, st) for v in vs]
    c.close(c.call(im.entropy, tuple(vs), approach="ordinal", base=b, **kw), R.H(R.zipn(*ps)) / R.lnb(b), "joint ordinal", kw=kw)
    n2 = size(r, (dim - 1) * st + 1, (dim - 1) * st + 200)
    y = oseries(r, n2, tied)
    py = R.patterns(y, dim, st)
    c.close(c.call(im.hx, vs[0], y, approach="ordinal", base=b, **kw), R.cross_H(ps[0], py) / R.lnb(b), "cross ordinal", kw=kw)
    c.close(c.call(im.kld, vs[0], y, approach="ordinal", base=b, **kw), (R.cross_H(ps[0], py) - R.H(ps[0])) / R.lnb(b), "kld ordinal", kw=kw)
    al = ps + [py]
    c.close(c.call(im.jsd, *vs, y, approach="ordinal", base=b, **kw), R.jsd_from_dists([R.dist(s) for s in al], [R.H(s) for s in al]) / R.lnb(b), "jsd ordinal", kw=kw)
    c.tag("dim%d:step%d" % (dim, st))


@scenario("A06", 3)
def mi_cmi(c):
    r = c.rng
    n = size(r, 6, 250)
    tied = r.random() < 0.4
    m = int(pick(r, [2, 2, 3]))
    vs = [oseries(r, n, tied) for _ in range(m + 1)]
    if r.random() < 0.5:
        vs[1] = (vs[0] if tied else np.asarray(vs[0]) + 0.7 * np.std(vs[0]) * r.normal(size=n))
    off = int(r.integers(-2, 3)) if m == 2 and r.random() < 0.3 else 0
    dim, st = opar(r, n - abs(off))
    kw = okw(r, dim, st, tied)
    b = base(r)
    c.note(vs=vs, kw=kw, base=b, off=off)
    use = vs[:m]
    if off:
        use = list(R.shift(vs[0], vs[1], off))
    ps = [R.patterns(v, dim, st) for v in use]
    c.close(c.call(im.mi, *vs[:m], approach="ordinal", base=b, **kw, **({"offset": off} if off else {})), R.MI(*ps) / R.lnb(b), "MI ordinal", kw=kw)
    ps = [R.patterns(v, dim, st) for v in vs]
    c.close(c.call(im.cmi, *vs[:m], cond=vs[m], approach="ordinal", base=b, **kw), R.CMI(ps[:m], ps[m]) / R.lnb(b), "CMI ordinal", kw=kw)
    c.tag("dim%d:step%d:m%d" % (dim, st, m))


@scenario("A06", 3)
def te_cte(c):
    r = c.rng
    n = size(r, 12, 250)
    tied = r.random() < 0.4
    if tied:
        x, y = oseries(r, n, True), oseries(r, n, True)
        if r.random() < 0.5:
            y = np.roll(x, 1)
    else:
        x, y = coupled(r, n)
    z = oseries(r, n, tied)
    for _ in range(50):
        dim = int(r.integers(1, 5))
        st = int(pick(r, [1, 1, 2, 3]))
        s, d, e = (int(v) for v in r.integers(1, 4, 3))
        pt = int(pick(r, [0, 0, 1, 2, -1]))
        if (dim - 1) * st + (max(s, d, e) + abs(pt)) * st + 1 <= n:
            break
    else:
        raise Skip("too short")
    kw = dict(embedding_dim=dim, step_size=st, src_hist_len=s, dest_hist_len=d)
    if tied or r.random() < 0.1:
        kw["stable"] = True
    b = base(r)
    c.note(x=x, y=y, z=z, kw=kw, pt=pt, e=e, base=b)
    xs, ys = R.shift(x, y, pt * st)
    px, py = R.patterns(xs, dim, st), R.patterns(ys, dim, st)
    c.close(c.call(im.te, x, y, approach="ordinal", base=b, prop_time=pt, **kw), R.TE(px, py, s, d, st, 0) / R.lnb(b), "TE ordinal", kw=kw, pt=pt)
    px, py, pz = (R.patterns(v, dim, st) for v in (x, y, z))
    c.close(c.call(im.cte, x, y, cond=z, approach="ordinal", base=b, cond_hist_len=e, **kw), R.CTE(px, py, pz, s, d, e, st) / R.lnb(b), "CTE ordinal", kw=kw, e=e)
    c.tag("te:dim%d:step%d" % (dim, st))


def wavy(r, n):
    """Ramps and saw teeth with few exchanged neighbours: long windows share
    their pattern or differ in one position only."""
    x = np.arange(n) * float(pick(r, [1, 1, -1])) * float(pick(r, [1, 0.5, 1e-9, 1e9]))
    if r.random() < 0.3:
        p = int(r.integers(3, 12))
        x = x * 1e-3 + x[1] * p * (np.arange(n) % p)
    for i in r.integers(0, n - 1, int(r.integers(1, 6))):
        x[i], x[i + 1] = x[i + 1], x[i]
    return x


@scenario("A06", 1)
def deep(c):
    """Embedding dimensions up to the largest supported one."""
    r = c.rng
    dim = int(r.integers(8, 21))
    st = int(pick(r, [1, 1, 1, 2]))
    n = (dim - 1) * st + int(r.integers(6, 90))
    x, y, z = (wavy(r, n) for _ in range(3))
    kw = dict(approach="ordinal", embedding_dim=dim, step_size=st)
    if r.random() < 0.2:
        kw["stable"] = True
    b = base(r)
    c.note(x=x, y=y, z=z, kw=kw, base=b)
    px, py, pz = (R.patterns(v, dim, st) for v in (x, y, z))
    lb = R.lnb(b)
    w = pick(r, ["h", "joint", "mi", "cmi", "te", "hx", "jsd"])
    if w == "h":
        c.close(c.call(im.entropy, x, base=b, **kw), R.H(px) / lb, "deep ordinal H", dim=dim)
    elif w == "joint":
        c.close(c.call(im.entropy, (x, y), base=b, **kw), R.H(R.zipn(px, py)) / lb, "deep ordinal joint H", dim=dim)
    elif w == "mi":
        c.close(c.call(im.mi, x, y, base=b, **kw), R.MI(px, py) / lb, "deep ordinal MI", dim=dim)
    elif w == "cmi":
        c.close(c.call(im.cmi, x, y, cond=z, base=b, **kw), R.CMI([px, py], pz) / lb, "deep ordinal CMI", dim=dim)
    elif w == "te":
        c.close(c.call(im.te, x, y, base=b, **kw), R.TE(px, py, 1, 1, st, 0) / lb, "deep ordinal TE", dim=dim)
    elif w == "hx":
        c.close(c.call(im.hx, x, y, base=b, **kw), R.cross_H(px, py) / lb, "deep ordinal cross-entropy", dim=dim)
    else:
        c.close(c.call(im.jsd, x, y, base=b, **kw), R.jsd_from_dists([R.dist(px), R.dist(py)], [R.H(px), R.H(py)]) / lb, "deep ordinal JSD", dim=dim)
    c.tag("deep%d:%s" % (dim, w))


@scenario("A06", 0.02)
def huge(c):
    """Counts beyond 16 bits and long embeddings."""
    r = c.rng
    n = int(pick(r, [66000, 70001]))
    x, y = r.normal(size=n), np.cumsum(r.normal(size=n))
    if r.random() < 0.5:
        y = np.where(np.arange(n) < n - int(r.integers(1, 200)), np.arange(n), y)
    y = 0.3 * np.roll(x, 1) + y
    dim, st = int(r.integers(2, 5)), int(r.integers(1, 4))
    c.note(x=x, y=y, dim=dim, st=st)
    kw = dict(approach="ordinal", embedding_dim=dim, step_size=st)
    px, py = R.patterns(x, dim, st), R.patterns(y, dim, st)
    c.close(c.call(im.entropy, y, **kw), R.H(py), "ordinal H huge", kw=kw)
    c.close(c.call(im.mi, x, y, **kw), R.MI(px, py), "ordinal MI huge", kw=kw, atol=1e-9)


@scenario("A06", 0, once=True)
def ties_probe(c):
    """Ties without stable=True: the embedding shortcuts break ties differently
    from the general path (documented finding)."""
    x = np.random.default_rng(5).integers(0, 3, 60)
    a = c.call(im.entropy, x, approach="ordinal", embedding_dim=2)
    b = c.call(im.entropy, (x,), approach="ordinal", embedding_dim=2)
    s = c.call(im.entropy, x, approach="ordinal", embedding_dim=2, stable=True)
    c.close(s, R.H(R.patterns(x, 2)), "stable ties")
    c.close(c.call(im.entropy, (x,), approach="ordinal", embedding_dim=2, stable=True), s, "stable joint of one")
    if abs(a - b) > 1e-9:
        c.known_finding("ordinal-ties-default-sort", "H(x) != H((x,)) for tied data")
