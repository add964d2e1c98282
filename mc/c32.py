"""C32: the Gaussian Q-function and its inverse, the Marcum Q-function and the box-plus operation have the values of
their definitions on lattices of arguments reaching far into the tails, element by element for any shape."""

import math
from fractions import Fraction as F

import numpy as np

import komm

from .core import short

ASSUMPTIONS = [
    "arguments are those of the lattices; values are compared to a relative error of 1e-9 (Gaussian), 1e-8 (Marcum, above "
    "1e-250), and to 1e-9 (box-plus)",
]

NODES, WEIGHTS = np.polynomial.legendre.leggauss(64)


def quad(fn, a, b, n):
    s = 0.0
    h = (b - a) / n
    for i in range(n):
        x = a + h * (i + 0.5) + h / 2 * NODES
        s += h / 2 * float(np.dot(WEIGHTS, fn(x)))
    return s


def tail(x):
    """Q(x) for x >= 0 = phi(x) * integral of exp(-u^2/2 - x u)."""
    return math.exp(-x * x / 2) / math.sqrt(2 * math.pi) * quad(lambda u: np.exp(-u * u / 2 - x * u), 0.0, 12.0 if x < 4 else 48.0 / x, 12)


def close(got, want, rel):
    return abs(got - want) <= rel * abs(want) + 1e-300


def t_gaussian(ctx, tier):
    D = 64 if tier == "thorough" else 16
    xs = [k / D for k in range(-8 * D, 37 * D + 1)] + [1e-3, 1e-8, -1e-8, 1e-16, -36.0, -20.0]
    xs = [x for x in xs if x <= 37]
    ctx.bound("lattice", f"multiples of 1/{D} in [-8, 37]")
    want = [tail(x) if x >= 0 else 1 - tail(-x) for x in xs]
    got = komm.gaussian_q(xs)
    last = None
    for x, w, g in zip(xs, want, got):
        key = f"gaussian/{x}"
        ctx.state()
        ctx.trace()
        with ctx.guard(key):
            ctx.ok(close(g, w, 1e-9), key, f"Q({x}) = {g} instead of {w}")
            s = komm.gaussian_q(x)
            ctx.ok(isinstance(s, float) and s == g, key, f"scalar: {s!r}")
            ctx.ok(abs(komm.gaussian_q(-x) + s - 1) <= 1e-12, key, "symmetry")
            y = komm.gaussian_q_inv(s)
            ctx.ok(isinstance(y, float) and (s > 1 - 1e-9 or abs(y - x) <= 1e-9 * (1 + abs(x))), key, f"inverse of Q({x}): {y!r}")
    s = sorted((x, float(g)) for x, g in zip(xs, got))
    ctx.ok(all(a[1] >= b[1] for a, b in zip(s, s[1:])), "gaussian/monotone", "not decreasing")
    key = "gaussian/special"
    with ctx.guard(key):
        ctx.eq(komm.gaussian_q([np.inf, -np.inf, 0.0]), [0.0, 1.0, 0.5], key, "special values")
        ctx.eq(komm.gaussian_q_inv([0.0, 1.0, 0.5]), [np.inf, -np.inf, 0.0], key, "special values")
        ctx.ok(str(komm.gaussian_q_inv(0.5)) == "0.0", key, "negative zero")
        ctx.eq(komm.gaussian_q([0, 1, 2]), komm.gaussian_q([0.0, 1.0, 2.0]), key, "integers")
        ctx.eq(komm.gaussian_q_inv([0, 1]), [np.inf, -np.inf], key, "integers")
        for shape in ((2, 3), (1, 6), (3, 1, 2)):
            X = np.array([0.0, 1.0, -1.0, 2.5, 3.0, -4.0])
            ctx.eq(komm.gaussian_q(X.reshape(shape)), komm.gaussian_q(X).reshape(shape), key, "shape")
            Y = np.array([0.0, 1.0, 0.5, 0.25, 1e-9, 0.75])
            ctx.eq(komm.gaussian_q_inv(Y.reshape(shape)), komm.gaussian_q_inv(Y).reshape(shape), key, "shape")
    D = 2000 if tier == "thorough" else 400
    ys = [k / D for k in range(1, D)] + [10.0**-k for k in range(1, 324, 7)] + [2.0**-k for k in (1000, 1021, 1022, 1023, 1040, 1060, 1070, 1074)]
    inv = komm.gaussian_q_inv(ys)
    for y, x in zip(ys, inv):
        key = f"gaussian/inverse/{y}"
        ctx.state()
        ctx.trace()
        w = tail(x) if x >= 0 else 1 - tail(-x)
        ctx.ok(close(w, y, 1e-8), key, f"Q({x}) = {w}")
        ctx.ok(komm.gaussian_q_inv(y) == x, key, "scalar")


def marcum(m, a, x):
    """P[J <= m-1+K] summed with exact weights in the log domain."""
    A, B = a * a / 2, x * x / 2
    N = int(max(A, B) + 14 * math.sqrt(max(A, B) + 1) + 60)

    def lp(k, l):
        return (-l + k * math.log(l) - math.lgamma(k + 1)) if l > 0 else (0.0 if k == 0 else -math.inf)

    cdf, s = [], 0.0
    for k in range(N + m):
        s += math.exp(lp(k, B))
        cdf.append(min(s, 1.0))
    return math.fsum(math.exp(lp(k, A)) * cdf[k + m - 1] for k in range(N))


def t_marcum(ctx, tier, m):
    vals = [0, 0.25, 0.5, 1, 1.5, 2, 3, 4, 5, 6.5, 8, 10, 12, 15, 18, 20, 25]
    if tier == "thorough":
        vals = [k / 4 for k in range(0, 41)] + [12, 14.5, 15, 18, 20, 25, 27.5, 30]
    ctx.bound("values", [vals[0], vals[-1], len(vals)])
    T = np.zeros((len(vals), len(vals)))
    for i, a in enumerate(vals):
        for j, x in enumerate(vals):
            key = f"marcum/{m}/{a}/{x}"
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                g = T[i, j] = komm.marcum_q(m, a, x)
                w = marcum(m, a, x)
                ctx.ok(isinstance(g, float) and (close(g, w, 1e-8) or w < 1e-250 and 0 <= g < 1e-249), key, f"Q_{m}({a}, {x}) = {g} instead of {w}")
                ctx.ok(g <= 1.0, key, f"above one: {g}")
    key = f"marcum/{m}/arrays"
    with ctx.guard(key):
        A, X = np.meshgrid(vals, vals, indexing="ij")
        ctx.close(komm.marcum_q(m, A, X), T, key, "array", tol=1e-12)
        ctx.close(komm.marcum_q(m, A[:4, 0].reshape(4, 1), X[0]), T[:4], key, "broadcast", tol=1e-12)
        ctx.close(komm.marcum_q(m, vals, 1.0), T[:, vals.index(1)], key, "array and scalar", tol=1e-12)
    for bad in ((0, 1, 1), (-1, 1, 1), (m, -1, 1), (m, 1, -1), (m, [1, -1], 1), (m, 1, [1, -1])):
        ctx.raises(ValueError, lambda: komm.marcum_q(*bad), f"marcum/reject/{bad}", "arguments")


def t_boxplus(ctx, tier):
    fine = [k / 4 for k in range(-24, 25)] if tier == "thorough" else [k / 2 for k in range(-12, 13)]
    vals = fine + [s * v for v in (1e-300, 1e-12, 1e-4, 7.5, 10, 20, 30, 36.5, 40, 100, 700, 750, 1e4, 1e300, np.inf) for s in (1, -1)]
    ctx.bound("values", len(vals))

    def ref(a, b):
        if a == 0 or b == 0:
            return 0.0
        s = math.copysign(1, a) * math.copysign(1, b)
        a, b = abs(a), abs(b)
        m, M = min(a, b), max(a, b)
        if math.isinf(M):
            return s * m
        if m < 0.1:  # 2 atanh(tanh tanh) is accurate here
            return s * 2 * math.atanh(math.tanh(a / 2) * math.tanh(b / 2))
        return s * (m + math.log1p(math.exp(-(M + m))) - math.log1p(math.exp(-(M - m))))

    T = np.zeros((len(vals), len(vals)))
    for i, a in enumerate(vals):
        for j, b in enumerate(vals):
            key = f"boxplus/{a}/{b}"
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                g = T[i, j] = komm.boxplus(a, b)
                w = ref(a, b)
                ctx.ok(isinstance(g, float) and (g == w or abs(g - w) <= 1e-9 * (1 + abs(w))), key, f"{a} + {b} = {g} instead of {w}")
                ctx.ok(abs(g) <= min(abs(a), abs(b)) * (1 + 1e-12) + 1e-12, key, f"{a} + {b} = {g} more certain than its operands")
    ctx.ok(np.array_equal(T, T.T), "boxplus/commutative", "not commutative")
    key = "boxplus/arrays"
    with ctx.guard(key):
        A, B = np.meshgrid(vals, vals, indexing="ij")
        ctx.eq(komm.boxplus(A, B), T, key, "array")
        ctx.eq(komm.boxplus(A.ravel().tolist(), B.ravel().tolist()), T.ravel(), key, "lists")
        for dt in (np.int8, np.uint8, np.int64, np.float32):
            u = np.array([0, 1, 2, 100, 100, 1], dtype=dt)
            v = np.array([1, 2, 2, 100, 1, 100], dtype=dt)
            ctx.close(komm.boxplus(u, v), [ref(float(p), float(q)) for p, q in zip(u, v)], key, f"dtype {np.dtype(dt)}", tol=1e-6)
    for bad in (([1, 2], [1]), (1, [1]), ([[1]], [1])):
        ctx.raises(ValueError, lambda: komm.boxplus(*bad), f"boxplus/reject/{bad}", "shapes")


def t_far(ctx, tier):
    """Large orders and arguments of the Marcum function around its transition; long arrays equal single values."""
    ms = (1, 2, 7, 33, 64, 100, 257) if tier == "thorough" else (1, 7, 64)
    ctx.bound("orders", ms)
    for m in ms:
        for a in (0.0, 0.5, 5.0, 20.0, 30.0, 40.0, 60.0):
            mid = math.sqrt(a * a + 2 * m)
            for x in (0.0, mid / 4, mid - 8, mid - 3, mid - 1, mid - 0.25, mid, mid + 0.5, mid + 2, mid + 6, mid + 15):
                if x < 0:
                    continue
                key = f"marcum/far/{m}/{a}/{x}"
                ctx.at(key)
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    g, w = komm.marcum_q(m, a, x), marcum(m, a, x)
                    ctx.ok(isinstance(g, float) and 0 <= g <= 1 and (close(g, w, 1e-7) or w < 1e-250), key, f"Q_{m}({a}, {x}) = {g} instead of {w}")
    D = 7
    n = 5003
    x = (np.arange(n) * 37 % 401 - 150) / D
    y = (np.arange(n) * 53 % 601 - 310) / D
    for shape in ((n,), (n // 6, 2, 3), (n // 4, 4), (1, n)):
        key = f"long/{shape}"
        N = math.prod(shape)
        with ctx.guard(key):
            a, b = x[:N].reshape(shape), y[:N].reshape(shape)
            small = {v: komm.gaussian_q(v) for v in set(x.tolist())}
            ctx.eq(np.asarray(komm.gaussian_q(a)), np.array([small[v] for v in x[:N].tolist()]).reshape(shape), key, "gaussian_q")
            p = (np.arange(N) * 29 % 997 + 1) / 998
            inv = {v: komm.gaussian_q_inv(v) for v in set(p.tolist())}
            ctx.eq(np.asarray(komm.gaussian_q_inv(p.reshape(shape))), np.array([inv[v] for v in p.tolist()]).reshape(shape), key, "gaussian_q_inv")
            bp = {}
            want = np.array([bp.setdefault((u, v), komm.boxplus(u, v)) for u, v in zip(x[:N].tolist(), y[:N].tolist())]).reshape(shape)
            ctx.close(np.asarray(komm.boxplus(a, b)), want, key, "boxplus", tol=1e-12)
            ctx.state()
            ctx.trace(3)


def tasks(tier):
    k = dict(tier=tier)
    return [("gaussian", t_gaussian, k), ("boxplus", t_boxplus, k)] + [(f"marcum/{m}", t_marcum, dict(tier=tier, m=m)) for m in ((1, 2, 3, 4, 5, 8, 10, 13, 20, 50) if tier == "thorough" else (1, 2, 3, 6, 20))] + [("far", t_far, k)]
