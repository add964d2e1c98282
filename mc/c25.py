"""C25: scalar quantizers are total, send every input to the level of the cell it lies in, and their distortion is the
integral it stands for; uniform quantizers pick a nearest level; Lloyd-Max quantizers satisfy both optimality conditions."""

import itertools
import math

import numpy as np

import komm

from .core import short
from .trellis import pattern

ASSUMPTIONS = [
    "distortions are compared to 1e-5 (trapezoidal rule of the code), Lloyd-Max conditions to 2e-3 of the range (stopping rule of the code)",
    "Lloyd-Max optimality is decided for a finite family of log-concave densities, for which the stationary point is unique",
]


def cells(thr, x):
    i = 0
    while i < len(thr) and x >= thr[i]:
        i += 1
    return i


def probes(levels, thr):
    pts = []
    for v in list(levels) + list(thr):
        pts += [v, np.nextafter(v, -np.inf), np.nextafter(v, np.inf)]
    v = sorted(list(levels) + list(thr))
    pts += [(a + b) / 2 for a, b in zip(v, v[1:])]
    pts += [-np.inf, np.inf, -1e300, 1e300, 0.0, -0.0, v[0] - 10, v[-1] + 10, 5e-324, -5e-324]
    return pts


def judge(ctx, key, q, levels, thr, tol=0.0):
    """digitize and quantize against the cell definition; the thresholds of the object are authoritative for rounding."""
    L = len(levels)
    ctx.state()
    ctx.close(q.levels, levels, key, "levels", tol=tol or 1e-15)
    ctx.close(q.thresholds, thr, key, "thresholds", tol=tol or 1e-15)
    lv, th = [float(x) for x in q.levels], [float(x) for x in q.thresholds]
    xs = probes(lv, th)
    want = [cells(th, x) for x in xs]
    ctx.trace(len(xs))
    ctx.eq(q.digitize(xs), want, key, f"digitize({short(xs)})")
    ctx.eq(q.quantize(xs), [lv[i] for i in want], key, "quantize")
    n = len(xs) // 4 * 4
    for shape in ((2, 2, -1), (-1, 1), (1, -1)):
        X = np.array(xs[:n]).reshape(shape)
        ctx.eq(q.digitize(X), np.array(want[:n]).reshape(shape), key, f"digitize, shape {X.shape}")
        ctx.eq(q.quantize(X), np.array([lv[i] for i in want[:n]]).reshape(shape), key, f"quantize, shape {X.shape}")
    for x, w in zip(xs[:6], want):
        ctx.ok(q.digitize([x]) == [w] and q.quantize([x]) == [lv[w]], key, f"one value {x}")
    ctx.eq(q.digitize(lv), list(range(L)), key, "digitize of the levels")
    ctx.eq(q.quantize(q.quantize(xs)), q.quantize(xs), key, "quantizing twice")
    ctx.step(len(xs))


def t_general(ctx, V, L):
    ctx.bound("quantizers", f"all lists of {L} levels and {L - 1} thresholds over {V} values, all lengths of the thresholds")
    vals = [-2.0, -0.5, 0.0, 0.75, 1.5, 3.0, 4.0][:V]
    for lv in itertools.product(vals, repeat=L):
        for th in itertools.product(vals, repeat=L - 1):
            key = f"general/{lv}/{th}"
            ctx.at(key)
            inter = [x for p in itertools.zip_longest(lv, th) for x in p if x is not None]
            if all(a < b for a, b in zip(inter, inter[1:])):
                with ctx.guard(key):
                    judge(ctx, key, komm.ScalarQuantizer(lv, th), lv, th)
                    judge(ctx, key, komm.ScalarQuantizer(np.array(lv), np.array(th)), lv, th)
            else:
                ctx.raises(ValueError, lambda: komm.ScalarQuantizer(lv, th), key, "levels and thresholds out of order")
                ctx.state()
            ctx.trace()
    for n in range(0, 5):
        if n != L - 1:
            ctx.raises(ValueError, lambda: komm.ScalarQuantizer(np.arange(L) * 2.0, np.arange(n) * 2.0 + 1), f"general/{L}/{n}", "number of thresholds")


def t_large(ctx, top):
    """Integer levels, all sizes."""
    ctx.bound("quantizers", f"2 to {top} levels with uneven spacing")
    for L in range(2, top + 1):
        lv = [i * i / 4 - L for i in range(L)]
        th = [(a + 2 * b) / 3 for a, b in zip(lv, lv[1:])]
        key = f"large/{L}"
        with ctx.guard(key):
            judge(ctx, key, komm.ScalarQuantizer(lv, th), lv, th)


def t_many(ctx, sizes):
    """Hundreds and thousands of levels: every level, threshold and neighbouring value, in long and shuffled arrays."""
    ctx.bound("sizes", list(sizes))
    for L in sizes:
        i = np.arange(L)
        for name, lv, th, make in [
            ("uneven", i * i / 64 - 3.0 * L, None, None),
            ("unit", i - (L - 1) / 2, None, lambda: komm.UniformQuantizer(L, 1.0)),
            ("tenth", (i - (L - 1) / 2 + 0.5) * 0.1, None, lambda: komm.UniformQuantizer(L, 0.1, 0.5)),
            ("geometric", np.cumsum(1.0 + i % 5), None, None),
        ]:
            th = (lv[:-1] + lv[1:]) / 2 if make or name == "geometric" else lv[:-1] + np.diff(lv) * 0.3 + 0
            if not (np.all(np.diff(lv) > 0) and np.all((lv[:-1] < th) & (th < lv[1:]))):
                lv = i * (i + 1) / 64 + i - 3.0 * L
                th = lv[:-1] + np.diff(lv) * 0.3
            key = f"many/{name}/{L}"
            ctx.at(key)
            with ctx.guard(key):
                q = make() if make else komm.ScalarQuantizer(lv, th)
                ctx.close(np.array(q.levels), lv, key, "levels", tol=1e-9 * L)
                ctx.close(np.array(q.thresholds), th, key, "thresholds", tol=1e-9 * L)
                l2, t2 = np.array(q.levels), np.array(q.thresholds)
                x = np.concatenate([l2, t2, np.nextafter(t2, -np.inf), np.nextafter(t2, np.inf), t2 - 1e-6 * np.diff(lv), [-1e9, 1e9, -np.inf, np.inf]])
                want = np.concatenate([i, i[1:], i[:-1], i[1:], i[:-1], [0, L - 1, 0, L - 1]])
                order = np.argsort(pattern(len(x), L, 1, 2**20), kind="stable")
                for o in (np.arange(len(x)), order):
                    ctx.eq(np.array(q.digitize(x[o])), want[o], key, "digitize")
                    ctx.eq(np.array(q.quantize(x[o])), l2[want[o]], key, "quantize")
                    ctx.step(2 * len(x))
                n = len(x) // 6 * 6
                ctx.eq(np.array(q.digitize(x[order][:n].reshape(2, -1, 3))), want[order][:n].reshape(2, -1, 3), key, "digitize of a three-dimensional array")
                ctx.eq(np.array(q.quantize(x[order][:n].reshape(-1, 6))), l2[want[order][:n]].reshape(-1, 6), key, "quantize of a table")
                ctx.state()
                ctx.trace(len(x))
                ctx.outcome((key, len(x)))


def t_conditions(ctx, top):
    """Densities with several stationary quantizers: levels are the centroids of their cells, thresholds the midpoints."""
    G = lambda x, m, s: np.exp(-((x - m) ** 2) / (2 * s * s)) / (s * math.sqrt(2 * math.pi))
    dens = {
        "bimodal": (lambda x: 0.5 * G(x, -2, 0.7) + 0.5 * G(x, 2, 0.7), -5.0, 5.0),
        "uneven": (lambda x: 0.8 * G(x, -1.5, 0.5) + 0.2 * G(x, 2, 1.0), -4.0, 6.0),
        "steps": (lambda x: np.where(np.asarray(x) < 1, 0.1, 0.45), -1.0, 2.78),
        "laplace": (lambda x: 0.5 * np.exp(-np.abs(x)), -7.0, 7.0),
        "valley": (lambda x: 1.5 * np.asarray(x) ** 2, -1.0, 1.0),
    }
    ctx.bound("densities", f"{sorted(dens)}, 1 to {top} levels")
    n = 200000
    for dn, (f, a, b) in dens.items():
        h = (b - a) / n
        x = a + h * (np.arange(n) + 0.5)
        w = np.asarray(f(x)) * np.ones(n)
        for L in range(1, top + 1):
            key = f"conditions/{dn}/{L}"
            ctx.at(key)
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                q = komm.LloydMaxQuantizer(f, (a, b), L)
                lv, th = np.array(q.levels), np.array(q.thresholds)
                ctx.ok(lv.shape == (L,) and th.shape == (L - 1,) and bool(np.all(np.diff(lv) > 0)), key, "shapes or order")
                ctx.ok(np.allclose(th, (lv[:-1] + lv[1:]) / 2, rtol=0, atol=1e-4 * (b - a)), key, "thresholds are not midpoints")
                c = np.digitize(x, th)
                cen = np.bincount(c, w * x, L) / np.bincount(c, w, L)
                ctx.ok(bool(np.all(np.abs(cen - lv) <= 1.5e-3 * (b - a))), key, f"levels {short(lv)}, centroids of their cells {short(cen)}", lv)
                ctx.step(L)
                ctx.outcome((key, lv.round(3).tolist()))


def t_uniform(ctx, top):
    steps = (1.0, 0.5, 0.1, 3.0, 2**-30, 1e6)
    offs = (0.0, -0.5, 0.5, 0.25, 2.0, -1 / 3, -7.5)
    ctx.bound("quantizers", f"2 to {top} levels, {len(steps)} steps, {len(offs)} offsets and both named forms; a lattice of step/16 over the range and two steps beyond")
    for L in range(2, top + 1):
        for d in steps:
            forms = [(f"{o}", o, lambda o=o: komm.UniformQuantizer(L, d, o)) for o in offs]
            forms.append(("default", 0.0, lambda: komm.UniformQuantizer(L, d)))
            forms.append(("riser", None, lambda: komm.UniformQuantizer.mid_riser(L, d)))
            forms.append(("tread", None, lambda: komm.UniformQuantizer.mid_tread(L, d)))
            for name, o, make in forms:
                key = f"uniform/{L}/{d}/{name}"
                ctx.at(key)
                with ctx.guard(key):
                    q = make()
                    if o is None:
                        odd = L % 2 == 1
                        o = -0.5 if odd == (name == "riser") else 0.0
                        zero_in = q.thresholds if name == "riser" else q.levels
                        ctx.ok(0.0 in zero_in.tolist(), key, f"zero is no {'threshold' if name == 'riser' else 'level'}")
                    lv = [(i - (L - 1) / 2 + o) * d for i in range(L)]
                    th = [(a + b) / 2 for a, b in zip(lv, lv[1:])]
                    judge(ctx, key, q, lv, th, tol=1e-12)
                    # fresh object: thresholds before levels
                    q2 = make()
                    ctx.close(q2.thresholds, th, key, "thresholds asked first", tol=1e-12)
                    xs = np.arange(-(L // 2 + 2) * 16, (L // 2 + 3) * 16) * (d / 16) + o * d
                    y = q.quantize(xs)
                    err = np.abs(xs - y)
                    best = np.abs(xs[:, None] - np.array(lv)).min(1)
                    bad = np.flatnonzero(err > best + 1e-9 * d)
                    ctx.ok(len(bad) == 0, key, f"quantize({xs[bad[:1]]}) = {y[bad[:1]]} is not a nearest level")
                    ctx.trace(len(xs))
    for bad in ((1, 1.0), (0, 1.0), (-2, 1.0), (2, 0.0), (2, -1.0)):
        ctx.raises(ValueError, lambda: komm.UniformQuantizer(*bad), f"uniform/{bad}", "parameters")
        ctx.raises(ValueError, lambda: komm.UniformQuantizer.mid_riser(*bad), f"riser/{bad}", "parameters")
        ctx.raises(ValueError, lambda: komm.UniformQuantizer.mid_tread(*bad), f"tread/{bad}", "parameters")


# polynomial densities on [a, b], not set to zero outside: coefficients in t = (x-a)/(b-a), constant first
POLY = {"constant": [1.0], "ramp": [0.0, 2.0], "fall": [2.0, -2.0], "bump": [0.0, 6.0, -6.0], "tilted": [0.5, 1.0]}


def pdf_of(c, a, b):
    def f(x):
        t = (np.asarray(x) - a) / (b - a)
        return sum(k * t**i for i, k in enumerate(c)) / (b - a)

    return f


def piece(c, a, b, lo, hi, y):
    """Exact integral of (y-x)^2 f over [lo, hi]."""
    w = b - a
    # in t: x = a + w t
    def mul(p, q):
        r = [0.0] * (len(p) + len(q) - 1)
        for i, u in enumerate(p):
            for j, v in enumerate(q):
                r[i + j] += u * v
        return r

    e = [y - a, -w]
    g = mul(mul(e, e), c)
    F = lambda t: sum(k * t ** (i + 1) / (i + 1) for i, k in enumerate(g))
    return F((hi - a) / w) - F((lo - a) / w)


def t_mse(ctx):
    ranges = [(-1.0, 1.0), (0.0, 3.0), (-5.0, 5.0), (2.0, 2.5), (-8.0, -6.0), (-0.3, 0.2)]
    ctx.bound("distortions", f"{len(POLY)} densities x {len(ranges)} ranges (inside, across and outside of the thresholds) x 12 quantizers x 3 resolutions")
    qs = {f"uniform{L}/{o}": komm.UniformQuantizer(L, 1.0, o) for L in (2, 3, 4, 8) for o in (0.0, 0.5)}
    qs["tread"] = komm.UniformQuantizer.mid_tread(4, 0.5)
    qs["general"] = komm.ScalarQuantizer([-2.0, -1.0, 0.0, 1.0, 2.0], [-1.5, -0.3, 0.8, 1.4])
    qs["one"] = komm.ScalarQuantizer([0.5], [])
    qs["two"] = komm.ScalarQuantizer([-1.0, 2.0], [1.75])
    for qn, q in qs.items():
        for pn, c in POLY.items():
            for a, b in ranges:
                key = f"mse/{qn}/{pn}/{a}/{b}"
                ctx.at(key)
                ctx.state()
                lv, th = q.levels.tolist(), q.thresholds.tolist()
                want = 0.0
                for i, y in enumerate(lv):
                    lo = a if i == 0 else min(max(th[i - 1], a), b)
                    hi = b if i == len(lv) - 1 else min(max(th[i], a), b)
                    if hi > lo:
                        want += piece(c, a, b, lo, hi, y)
                with ctx.guard(key):
                    f = pdf_of(c, a, b)
                    for n, tol in ((None, 1e-5), (1000, 1e-4), (20000, 1e-6)):
                        got = q.mean_squared_error(f, (a, b)) if n is None else q.mean_squared_error(f, (a, b), n)
                        ctx.ok(abs(got - want) <= tol * (1 + abs(want)), key, f"mean squared error {got}, integral {want}", got)
                        ctx.trace()


def lloyd_reference(f, a, b, L, n=40000):
    """Plain Lloyd iteration on a fine midpoint grid with cumulative moments."""
    h = (b - a) / n
    x = a + h * (np.arange(n) + 0.5)
    w = f(x) * h
    C0, C1 = np.concatenate([[0], np.cumsum(w)]), np.concatenate([[0], np.cumsum(w * x)])
    y = a + (b - a) * (np.arange(L) + 0.5) / L
    for _ in range(20000):
        t = np.concatenate([[a], (y[:-1] + y[1:]) / 2, [b]])
        p = (t - a) / h
        k = np.clip(np.floor(p).astype(int), 0, n - 1)
        fr = p - k
        M0, M1 = C0[k] + fr * w[k], C1[k] + fr * w[k] * x[k]
        new = np.diff(M1) / np.diff(M0)
        if np.max(np.abs(new - y)) < 1e-12 * (b - a):
            break
        y = new
    return y


def t_lloyd(ctx, top):
    dens = {}
    for pn in ("constant", "ramp", "fall", "bump", "tilted"):
        for a, b in ((-1.0, 1.0), (0.0, 3.0)):
            dens[f"{pn}/{a}/{b}"] = (pdf_of(POLY[pn], a, b), a, b)
    dens["gauss"] = (lambda x: np.exp(-(x**2) / 2) / math.sqrt(2 * math.pi), -5.0, 5.0)
    dens["exp"] = (lambda x: np.exp(-x), 0.0, 8.0)
    ctx.bound("densities", f"{len(dens)} log-concave densities, 1 to {top} levels, scaled by 2^-40, 1 and 2^40, moved by 100, -10^4 and 10^6")
    for dn, (f, a, b) in dens.items():
        for L in range(1, top + 1):
            want = lloyd_reference(f, a, b, L)
            for e in (0, -40, 40):
                if e and L > 4:
                    continue
                s = 2.0**e
                key = f"lloyd/{dn}/{L}/2^{e}"
                ctx.at(key)
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    q = komm.LloydMaxQuantizer(lambda x: f(x / s) / s, (a * s, b * s), L)
                    lv, th = q.levels / s, q.thresholds / s
                    ctx.ok(np.allclose(lv, want, rtol=0, atol=2e-3 * (b - a)), key, f"levels {lv}, optimum {want}", lv)
                    ctx.ok(np.allclose(th, (lv[:-1] + lv[1:]) / 2, rtol=0, atol=1e-4 * (b - a)), key, "thresholds are not midpoints")
                    judge(ctx, key, q, q.levels, q.thresholds)
                    m = q.mean_squared_error(lambda x: f(x / s) / s, (a * s, b * s)) / s**2
                    if L > 1:
                        u = komm.ScalarQuantizer((a + (np.arange(L) + 0.5) * (b - a) / L), a + np.arange(1, L) * (b - a) / L)
                        ctx.ok(m <= u.mean_squared_error(f, (a, b)) + 1e-6, key, f"distortion {m} exceeds that of the uniform quantizer")
            for d in (100.0, -1e4, 1e6):
                key = f"lloyd/{dn}/{L}/moved by {d}"
                ctx.at(key)
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    q = komm.LloydMaxQuantizer(lambda x: f(np.asarray(x) - d), (a + d, b + d), L)
                    lv, th = q.levels - d, q.thresholds - d
                    ctx.ok(np.allclose(lv, want, rtol=0, atol=2e-3 * (b - a)), key, f"levels {lv}, optimum {want}", lv)
                    ctx.ok(np.allclose(th, (lv[:-1] + lv[1:]) / 2, rtol=0, atol=1e-4 * (b - a)), key, "thresholds are not midpoints")
                    judge(ctx, key, q, q.levels, q.thresholds)


def tasks(tier):
    th = tier == "thorough"
    out = [("general/1", t_general, dict(V=7, L=1)), ("general/2", t_general, dict(V=7, L=2)), ("general/3", t_general, dict(V=7, L=3))]
    if th:
        out.append(("general/4", t_general, dict(V=7, L=4)))
    out += [("many", t_many, dict(sizes=[16, 31, 32, 100, 127, 128, 129, 255, 256, 257, 300, 1000] + ([1023, 1024, 1025, 4096, 5000] if th else []))), ("conditions", t_conditions, dict(top=16 if th else 8))]
    out += [("large", t_large, dict(top=64)), ("uniform", t_uniform, dict(top=33 if th else 17)), ("mse", t_mse, {}), ("lloyd", t_lloyd, dict(top=16 if th else 8))]
    return out
