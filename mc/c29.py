"""C29: entropies, divergences, mutual informations and capacities have the values of their definitions, in every
logarithm base, for all distributions and channels on lattices of probabilities."""

import itertools
import math
from fractions import Fraction as F

import numpy as np

import komm

from .c13 import compositions
from .core import short
from .trellis import pattern

ASSUMPTIONS = [
    "capacity of general channels is compared within 1e-4 nats (Blahut-Arimoto stops after 1000 iterations; the observed worst gap is 1.1e-6), other values within 1e-10",
    "probabilities are multiples of 1/K, plus a list of extreme values",
]

BASES = [2.0, 2, "e", 3, 10.0, 1.5, 0.5, math.e]


def ln(base):
    return 1.0 if base == "e" else math.log(base)


def H(p):
    """Entropy in nats of exact probabilities."""
    return -math.fsum(float(x) * math.log(x) for x in p if x > 0)


def D(p, q):
    if any(a > 0 and b == 0 for a, b in zip(p, q)):
        return math.inf
    return math.fsum(float(a) * (lnf(a) - lnf(b)) for a, b in zip(p, q) if a > 0)


def lnf(x):
    """Logarithm of a float or of an exact fraction, however small."""
    return math.log(x.numerator) - math.log(x.denominator) if isinstance(x, F) else math.log(x)


def I(p, P):
    out = [sum(a * r[j] for a, r in zip(p, P)) for j in range(len(P[0]))]
    return H(out) - math.fsum(float(a) * H(r) for a, r in zip(p, P))


def t_entropy(ctx, tier):
    cases = [(1, 1), (2, 60), (3, 16), (4, 10), (5, 8), (6, 6)] + ([(2, 400), (3, 40), (4, 20), (5, 12), (8, 8)] if tier == "thorough" else [])
    ctx.bound("size, denominator", cases)
    for n, K in cases:
        for w in compositions(K, n, 0):
            p = [F(x, K) for x in w]
            key = f"entropy/{'-'.join(map(str, w))}"
            ctx.at(key)
            ctx.state()
            f = [float(x) for x in p]
            with ctx.guard(key):
                h = H(p)
                for b in BASES:
                    ctx.close(komm.entropy(f, b), h / ln(b), key, f"base {b}", tol=1e-12)
                ctx.close(komm.entropy(np.array(f)), h / math.log(2), key, "default base", tol=1e-12)
                ctx.close(komm.DiscreteMemorylessSource(f).entropy_rate(), h / math.log(2), key, "entropy rate", tol=1e-12)
                ctx.close(komm.DiscreteMemorylessSource(f).entropy_rate(base="e"), h, key, "entropy rate", tol=1e-12)
                ctx.ok(komm.entropy(f) >= 0, key, "negative entropy")
                ctx.trace(len(BASES) + 3)


def t_divergence(ctx, tier):
    cases = [(1, 1), (2, 12), (3, 6), (4, 4)] + ([(2, 40), (3, 10), (4, 6)] if tier == "thorough" else [])
    ctx.bound("size, denominator", cases)
    for n, K in cases:
        pm = list(compositions(K, n, 0))
        for w in pm:
            for v in pm:
                p, q = [F(x, K) for x in w], [F(x, K) for x in v]
                key = f"divergence/{'-'.join(map(str, w))}/{'-'.join(map(str, v))}"
                ctx.state()
                with ctx.guard(key):
                    d = D(p, q)
                    fp, fq = [float(x) for x in p], [float(x) for x in q]
                    for b in (2.0, "e", 3, 0.5) if n < 4 else (2.0,):
                        ctx.close(komm.relative_entropy(fp, fq, b), d / ln(b), key, f"base {b}", tol=1e-12)
                    ctx.close(komm.relative_entropy(fp, fq), d / math.log(2), key, "default base", tol=1e-12)
                    ctx.trace(2)
    # Probabilities as small as doubles get, on either side.
    tiny = [0.0] + [2.0**-k for k in range(1, 1075, 24 if tier == "thorough" else 67)] + [2.0**-1073, 2.0**-1074, 1e-310]
    for a in tiny:
        for b in tiny:
            for p, q in (([a, 1 - a], [b, 1 - b]), ([1 - a, a], [b, 1 - b])):
                key = f"divergence/tiny/{p}/{q}"
                ctx.state()
                with ctx.guard(key):
                    d = D([F(x) for x in p], [F(x) for x in q])
                    for base in (2.0, "e", 10):
                        ctx.close(komm.relative_entropy(p, q, base), d / ln(base), key, f"base {base}", tol=1e-12)
                    ctx.trace(3)
    ctx.raises(ValueError, lambda: komm.relative_entropy([0.5, 0.5], [0.5, 0.25, 0.25]), "divergence/reject", "sizes")


def t_binary(ctx, tier):
    K = 5000 if tier == "thorough" else 1000
    ctx.bound("denominator", K)
    ps = [F(k, K) for k in range(K + 1)] + [F(1, 2**k) for k in range(1, 1074, 37)] + [1 - F(1, 2**k) for k in range(1, 54)] + [F(1, 10**k) for k in range(1, 300, 20)]
    for p in ps:
        key = f"binary/{p}"
        ctx.state()
        ctx.trace(2)
        with ctx.guard(key):
            x = float(p)
            want = H([F(x), 1 - F(x)]) / math.log(2) if 0 < x < 1 else 0.0
            ctx.close(komm.binary_entropy(x), want, key, "binary entropy", tol=1e-12)
            ctx.close(komm.binary_entropy(x), komm.entropy([x, 1 - x]), key, "against entropy", tol=1e-9)
    last = -1.0
    for k in range(K + 1):
        h = k / K
        key = f"binary-inverse/{k}/{K}"
        ctx.state()
        ctx.trace(2)
        with ctx.guard(key):
            x = komm.binary_entropy_inv(h)
            ctx.ok(0 <= x <= 0.5, key, f"inverse {x}")
            ctx.close(komm.binary_entropy(x), h, key, "binary entropy of the inverse", tol=1e-9)
            ctx.ok(x > last, key, "inverse is not increasing")
            last = x
    for p in (0.0, 1e-6, 1e-3, 0.1, 0.25, 0.4, 0.5):
        ctx.close(komm.binary_entropy_inv(komm.binary_entropy(p)), p, f"binary-inverse/of/{p}", "inverse", tol=1e-7 if p == 0.5 else 1e-10)
    for bad in (-0.01, 1.01, float("nan"), -1e-9, 2):
        ctx.raises(ValueError, lambda: komm.binary_entropy(bad), f"binary/reject/{bad}", "probability")
        ctx.raises(ValueError, lambda: komm.binary_entropy_inv(bad), f"binary-inverse/reject/{bad}", "entropy")


def matrices(n, m, K):
    rows = list(compositions(K, m, 0))
    return itertools.product(rows, repeat=n)


BIN = {
    "BinarySymmetricChannel": lambda e: [[1 - e, e], [e, 1 - e]],
    "BinaryErasureChannel": lambda e: [[1 - e, F(0), e], [F(0), 1 - e, e]],
    "ZChannel": lambda e: [[F(1), F(0)], [e, 1 - e]],
}


def t_mutual(ctx, tier):
    K = 40 if tier == "thorough" else 20
    for name, rows in BIN.items():
        for w in range(K + 1):
            e = F(w, K)
            P = rows(e)
            c = getattr(komm, name)(float(e))
            g = komm.DiscreteMemorylessChannel([[float(x) for x in r] for r in P])
            for v in range(K + 1):
                p = [1 - F(v, K), F(v, K)]
                key = f"mutual/{name}/{w}/{v}"
                ctx.state()
                with ctx.guard(key):
                    want = I(p, P)
                    fp = [float(x) for x in p]
                    for b in BASES if v % 5 == 0 else (2.0, "e"):
                        ctx.close(c.mutual_information(fp, b), want / ln(b), key, f"base {b}", tol=1e-10)
                        ctx.close(g.mutual_information(fp, b), want / ln(b), key, f"general channel, base {b}", tol=1e-10)
                        ctx.trace(2)
                    ctx.close(c.mutual_information(fp), want / math.log(2), key, "default base", tol=1e-10)
                    ctx.close(g.mutual_information(fp), want / math.log(2), key, "default base", tol=1e-10)
        c = getattr(komm, name)(0.25)
        for bad in ([1.0], [0.5, 0.25, 0.25], [0.5, 0.6], [1.5, -0.5], [[0.5, 0.5]]):
            ctx.raises(ValueError, lambda: c.mutual_information(bad), f"mutual/reject/{name}/{bad}", "pmf")
        for b in (1, 0, -2, "2", "E", 1.0):
            ctx.raises(ValueError, lambda: c.mutual_information([0.5, 0.5], b), f"mutual/reject/{name}/base {b}", "base")
            ctx.raises(ValueError, lambda: c.capacity(b), f"capacity/reject/{name}/base {b}", "base")
    for n, m, K, L in [(1, 3, 3, 1), (2, 2, 5, 5), (2, 3, 3, 4), (3, 2, 3, 4), (3, 3, 2, 3)]:
        for Wt in matrices(n, m, K):
            P = [[F(x, K) for x in r] for r in Wt]
            c = komm.DiscreteMemorylessChannel([[float(x) for x in r] for r in P])
            for v in compositions(L, n, 0):
                p = [F(x, L) for x in v]
                key = f"mutual/{Wt}/{v}"
                ctx.state()
                with ctx.guard(key):
                    ctx.close(c.mutual_information([float(x) for x in p]), I(p, P) / math.log(2), key, "mutual information", tol=1e-10)
                    ctx.close(c.mutual_information([float(x) for x in p], base="e"), I(p, P), key, "mutual information", tol=1e-10)
                    ctx.trace(2)
    c = komm.DiscreteMemorylessChannel([[0.5, 0.5], [0.25, 0.75]])
    for bad in ([0.5, 0.6], [1.5, -0.5], [[0.5, 0.5]], [1.0], [0.25, 0.25, 0.5]):
        ctx.raises(ValueError, lambda: c.mutual_information(bad), f"mutual/reject/{bad}", "pmf")
    for b in (1, 0, -2, "2", "E"):
        for fn in (lambda: c.mutual_information([0.5, 0.5], b), lambda: c.capacity(b), lambda: komm.entropy([0.5, 0.5], b), lambda: komm.relative_entropy([0.5, 0.5], [0.5, 0.5], b), lambda: komm.DiscreteMemorylessSource([0.5, 0.5]).entropy_rate(b)):
            ctx.raises(ValueError, fn, f"base/reject/{b}", "base")
    for bad in ([0.5, 0.6], [1.5, -0.5], [[0.5, 0.5]], [0.5], []):
        ctx.raises(ValueError, lambda: komm.entropy(bad), f"entropy/reject/{bad}", "pmf")
        ctx.raises(ValueError, lambda: komm.relative_entropy(bad, [0.5, 0.5]), f"divergence/reject/{bad}", "pmf")
        ctx.raises(ValueError, lambda: komm.relative_entropy([0.5, 0.5], bad), f"divergence/reject/{bad}", "pmf")


def t_capacity_binary(ctx, tier):
    """Capacity is the maximum of the mutual information over a grid refined around its maximum."""
    K = 200 if tier == "thorough" else 50
    for name, rows in BIN.items():
        for w in list(range(K + 1)) + [F(1, 10**6) * K, F(K) - F(K, 10**6)]:
            e = F(w) / K
            key = f"capacity/{name}/{w}"
            ctx.at(key)
            ctx.state()
            P = [[float(x) for x in r] for r in rows(e)]
            with ctx.guard(key):
                c = getattr(komm, name)(float(e))
                lo, hi = 0.0, 1.0
                for _ in range(120):
                    a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                    if I([1 - a, a], P) < I([1 - b, b], P):
                        lo = a
                    else:
                        hi = b
                best = I([1 - (lo + hi) / 2, (lo + hi) / 2], P)
                for b in BASES:
                    ctx.close(c.capacity(b), best / ln(b), key, f"base {b}", tol=1e-9)
                ctx.close(c.capacity(), best / math.log(2), key, "default base", tol=1e-9)
                for v in range(21):
                    ctx.ok(c.mutual_information([1 - v / 20, v / 20]) <= c.capacity() + 1e-9, key, f"mutual information above the capacity at {v}/20")
                ctx.trace(len(BASES) + 1)


def bounds(P, iters=20000, gap=1e-9):
    """Own Blahut iteration with the duality gap: lower and upper bounds of the capacity in nats."""
    P = np.array(P, dtype=float)
    P = P[:, P.sum(axis=0) > 0]
    r = np.ones(len(P)) / len(P)
    with np.errstate(divide="ignore", invalid="ignore"):
        for _ in range(iters):
            q = r @ P
            d = np.sum(np.where(P > 0, P * np.log(P / q), 0.0), axis=1)
            lo, up = float(np.log(np.sum(r * np.exp(d)))), float(d.max())
            if up - lo < gap:
                break
            r = r * np.exp(d)
            r /= r.sum()
    return lo, up


def t_capacity(ctx, tier, n, m, K, part=0, parts=1):
    ctx.bound("inputs, outputs, denominator", [n, m, K])
    for i, Wt in enumerate(matrices(n, m, K)):
        if i % parts != part:
            continue
        key = f"capacity/{Wt}"
        ctx.at(key)
        ctx.state()
        P = [[x / K for x in r] for r in Wt]
        with ctx.guard(key):
            c = komm.DiscreteMemorylessChannel(P)
            lo, up = bounds(P)
            C = c.capacity(base="e")
            ctx.ok(lo - 1e-4 <= C <= up + 1e-9, key, f"capacity {C} nats outside of [{lo}, {up}]", C)
            ctx.close(c.capacity(), C / math.log(2), key, "default base", tol=1e-12)
            ctx.close(c.capacity(3), C / math.log(3), key, "base 3", tol=1e-12)
            ctx.ok(-1e-12 <= C <= math.log(min(n, m)) + 1e-9, key, f"capacity {C}")
            ctx.trace()


def t_large(ctx, tier):
    """Large alphabets: irregular weights (zeros included), and channels whose capacity is known in closed form."""
    sizes = (10, 16, 17, 64, 100, 255, 256, 257, 1000, 1025, 5000) if tier == "thorough" else (10, 17, 64, 257, 1000)
    ctx.bound("alphabet sizes", sizes)
    for n in sizes:
        fam = {
            "irregular": pattern(n, 1, 2, 50) + (np.arange(n) == 0),
            "uniform": np.ones(n, dtype=int),
            "sparse": (np.arange(n) % 7 == 3) * (1 + np.arange(n)) + (np.arange(n) == n - 1),
            "steep": 2 ** (np.arange(n) % 40),
            "peak": 1 + (np.arange(n) == n // 2) * 10**6,
        }
        P = {}
        for name, w in fam.items():
            w = [int(v) for v in w]
            p = [F(v, sum(w)) for v in w]
            P[name] = p
            key = f"large/entropy/{name}/{n}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                f = [float(v) for v in p]
                for b in (2.0, "e", 3, 256):
                    ctx.close(komm.entropy(f, b), H(p) / ln(b), key, f"base {b}", tol=1e-11)
                ctx.close(komm.DiscreteMemorylessSource(f).entropy_rate(), H(p) / math.log(2), key, "entropy rate", tol=1e-11)
                ctx.trace(5)
        for a, b in itertools.product(P, repeat=2):
            key = f"large/divergence/{a}/{b}/{n}"
            ctx.state()
            with ctx.guard(key):
                d = D(P[a], P[b])
                for base in (2.0, "e"):
                    ctx.close(komm.relative_entropy([float(v) for v in P[a]], [float(v) for v in P[b]], base), d / ln(base), key, f"base {base}", tol=1e-10)
                ctx.trace(2)
    for q in (2, 3, 5, 8, 17, 32) + ((64, 100) if tier == "thorough" else ()):
        I_ = np.eye(q)
        chans = {
            "symmetric": ((0.9 - 0.1 / (q - 1)) * I_ + 0.1 / (q - 1), math.log(q) + 0.9 * math.log(0.9) + 0.1 * math.log(0.1 / (q - 1))),
            "typewriter": ((I_ + np.roll(I_, 1, axis=1)) / 2 if q > 2 else None, math.log(q / 2)),
            "erasure": (np.hstack([0.75 * I_, np.full((q, 1), 0.25)]), 0.75 * math.log(q)),
            "useless": (np.full((q, 4), 0.25), 0.0),
            "merged": (np.repeat(I_, 2, axis=0), math.log(q)),
            "split": (np.repeat(I_, 3, axis=1) / 3, math.log(q)),
            "cyclic": (sum(w * np.roll(I_, s, axis=1) for s, w in ((0, 0.5), (1, 0.25), (2, 0.25))) if q > 2 else None, math.log(q) - 1.5 * math.log(2)),
        }
        for name, (M, want) in chans.items():
            if M is None:
                continue
            key = f"large/capacity/{name}/{q}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                c = komm.DiscreteMemorylessChannel(M)
                ctx.close(c.capacity("e"), want, key, "capacity in nats", tol=1e-6)
                ctx.close(c.capacity(), want / math.log(2), key, "capacity in bits", tol=1e-6)
                n = len(M)
                for w in (np.ones(n), 1.0 + pattern(n, 3, 1, 9), (np.arange(n) % 2 == 0) * 1.0):
                    p = w / w.sum()
                    out = p @ M
                    direct = math.fsum(p[i] * M[i, j] * math.log(M[i, j] / out[j]) for i in range(n) for j in range(M.shape[1]) if p[i] * M[i, j] > 0)
                    ctx.close(c.mutual_information(p, "e"), direct, key, "mutual information", tol=1e-10)
                ctx.trace(5)


def tasks(tier):
    k = dict(tier=tier)
    th = tier == "thorough"
    caps = [(1, 2, 4), (2, 2, 12), (2, 3, 4), (3, 2, 4), (3, 3, 2), (2, 4, 3), (4, 2, 2)] + ([(2, 2, 24), (3, 3, 3), (2, 3, 8), (3, 2, 8), (4, 3, 2)] if th else [])
    out = [("large", t_large, k), ("entropy", t_entropy, k), ("divergence", t_divergence, k), ("binary", t_binary, k), ("mutual", t_mutual, k), ("capacity/binary", t_capacity_binary, k)]
    for n, m, K in caps:
        parts = 4 if th else 1
        for p in range(parts):
            out.append((f"capacity/{n}x{m}/{K}/{p}", t_capacity, dict(tier=tier, n=n, m=m, K=K, part=p, parts=parts)))
    return out
