"""C21: every constellation is what its parameters say; all its closed forms and fast demappers agree with brute force
over the points; posteriors obey Bayes' rule."""

import cmath
import itertools
import math

import numpy as np

import komm

from .c13 import compositions
from .core import short

ASSUMPTIONS = [
    "orders >= 1, positive amplitudes and distances; minimum distance is only stated for at least two points, no two of them equal",
    "real symbols for real constellations",
]


def pam(M, d):
    return [d * (2 * i - M + 1) / 2 for i in range(M)]


def turn(f):
    return cmath.exp(2j * math.pi * f)


# ------------------------------------------------------------------ the families, from their definitions
# name -> (object, list of points (tuples), dtype)


def families(tier):
    th = True
    phases = (0.0, 0.125, -0.3, 0.71) if th else (0.0, 0.125, -0.3)
    out = []
    amps = (1.0, 0.3, 2.5)

    def add(group, name, make, pts):
        out.append((group, name, make, [p if isinstance(p, tuple) else (p,) for p in pts]))

    for M in range(1, 13 if th else 10):
        for d in (2.0,) + amps:
            add("PAM", f"PAM({M},{d})", lambda M=M, d=d: komm.PAMConstellation(M, d), pam(M, d))
        for A in amps:
            for f in phases:
                add("ASK", f"ASK({M},{A},{f})", lambda M=M, A=A, f=f: komm.ASKConstellation(M, A, f), [A * i * turn(f) for i in range(M)])
                add("PSK", f"PSK({M},{A},{f})", lambda M=M, A=A, f=f: komm.PSKConstellation(M, A, f), [A * turn(i / M + f) for i in range(M)])
    for M in (16, 32):
        for f in (0.0, 1 / 64):
            add("PSK", f"PSK({M},1,{f})", lambda M=M, f=f: komm.PSKConstellation(M, 1, f), [turn(i / M + f) for i in range(M)])
    for A in amps:
        for M in range(1, 8 if th else 6):
            add("orthogonal", f"orthogonal({M},{A})", lambda M=M, A=A: komm.OrthogonalConstellation(M, A), [tuple(A * (i == j) for j in range(M)) for i in range(M)])
            add("simplex", f"simplex({M},{A})", lambda M=M, A=A: komm.SimplexConstellation(M, A), [tuple(A * ((i == j) - 1 / M) for j in range(M)) for i in range(M)])
        for M in range(2, 13 if th else 11, 2):
            N = M // 2
            add("biorthogonal", f"biorthogonal({M},{A})", lambda M=M, A=A: komm.BiorthogonalConstellation(M, A), [tuple(A * s * (i == j) for j in range(N)) for s in (1, -1) for i in range(N)])
    top = 6 if th else 5
    for Mi in range(1, top):
        for Mq in range(1, top):
            for di, dq in ((2.0, 2.0), (1.0, 3.0), (0.7, 0.4)):
                for f in phases:
                    add("QAM", f"QAM(({Mi},{Mq}),({di},{dq}),{f})", lambda Mi=Mi, Mq=Mq, di=di, dq=dq, f=f: komm.QAMConstellation((Mi, Mq), (di, dq), f),
                        [complex(x, y) * turn(f) for x in pam(Mi, di) for y in pam(Mq, dq)])
    for M, d, f in ((4, 2.0, 0.0), (9, 1.0, 0.1), (16, 0.5, 0.125), (64, 2.0, 0.0)):
        r = math.isqrt(M)
        add("QAM", f"QAM({M},{d},{f})", lambda M=M, d=d, f=f: komm.QAMConstellation(M, d, f), [complex(x, y) * turn(f) for x in pam(r, d) for y in pam(r, d)])
    for M in (32, 128) + ((512,) if th else ()):
        k = M.bit_length() - 1
        # 6/4 * 2^((k-1)/2) points a side, less squares of a quarter of the inner side at the corners
        side, inner = 3 * 2 ** ((k - 3) // 2), 2 ** ((k - 1) // 2)
        cut = (side - inner) // 2
        for d, f in ((2.0, 0.0), (0.5, 0.125), (1.3, -0.2)):
            ax = pam(side, d)
            lim = lambda i: i < cut or i >= side - cut
            pts = [complex(ax[i], ax[j]) * turn(f) for i in range(side) for j in range(side) if not (lim(i) and lim(j))]
            assert len(pts) == M
            add("cross", f"cross({M},{d},{f})", lambda M=M, d=d, f=f: komm.CrossQAMConstellation(M, d, f), pts)
    for K in (1, 2, 3) if th else (1, 2):
        for orders in itertools.product((1, 2, 3, 4, 6), repeat=K):
            for As in itertools.combinations((0.5, 1.0, 1.9), K):
                for fs in (0.0, 0.1, tuple(0.05 + k / 7 for k in range(K))):
                    ft = fs if isinstance(fs, tuple) else (fs,) * K
                    add("APSK", f"APSK({orders},{As},{fs})", lambda o=orders, a=As, f=fs: komm.APSKConstellation(o, a, f),
                        [A * turn(i / M + f) for M, A, f in zip(orders, As, ft) for i in range(M)])
    # rings that share their order, amplitude or phase, in any order of amplitudes
    third = 1 / 3
    for K, os_, fs_ in ((2, (1, 2, 3, 4, 5), (0.0, 0.125, third)), (3, (1, 2, 4), (0.0, 0.1))):
        for orders in itertools.product(os_, repeat=K):
            for As in itertools.product((1.0, 1.7), repeat=K):
                for fs in itertools.product(fs_, repeat=K):
                    add("rings", f"APSK({orders},{As},{fs})", lambda o=orders, a=As, f=fs: komm.APSKConstellation(o, a, f),
                        [A * turn(i / M + f) for M, A, f in zip(orders, As, fs) for i in range(M)])
    # orders beyond those of a byte or of a word
    for M in (17, 31, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000):
        for d, f in ((2.0, 0.0), (0.3, 0.071)):
            add("large PAM", f"PAM({M},{d})", lambda M=M, d=d: komm.PAMConstellation(M, d), pam(M, d))
            add("large PAM", f"ASK({M},{d},{f})", lambda M=M, A=d, f=f: komm.ASKConstellation(M, A, f), [d * i * turn(f) for i in range(M)])
            add("large PSK", f"PSK({M},{d},{f})", lambda M=M, A=d, f=f: komm.PSKConstellation(M, A, f), [d * turn(i / M + f) for i in range(M)])
        if M < 140:
            add("large N", f"orthogonal({M},1.3)", lambda M=M: komm.OrthogonalConstellation(M, 1.3), [tuple(1.3 * (i == j) for j in range(M)) for i in range(M)])
            add("large N", f"simplex({M},1.3)", lambda M=M: komm.SimplexConstellation(M, 1.3), [tuple(1.3 * ((i == j) - 1 / M) for j in range(M)) for i in range(M)])
            add("large N", f"biorthogonal({2 * (M // 2)},1.3)", lambda N=M // 2: komm.BiorthogonalConstellation(2 * N, 1.3), [tuple(1.3 * s * (i == j) for j in range(M // 2)) for s in (1, -1) for i in range(M // 2)])
    for Mi, Mq, d, f in ((1, 32, 2.0, 0.0), (32, 1, 2.0, 0.1), (8, 16, 1.0, 0.05), (16, 8, 0.3, 0.0), (9, 7, 2.0, 0.2), (16, 16, 2.0, 0.0), (32, 16, 1.0, 0.0), (17, 16, 1.0, 0.125), (32, 32, 0.5, 0.03), (2, 130, 1.0, 0.0), (130, 2, 1.0, 0.0)):
        add("large QAM", f"QAM(({Mi},{Mq}),{d},{f})", lambda Mi=Mi, Mq=Mq, d=d, f=f: komm.QAMConstellation((Mi, Mq), d, f), [complex(x, y) * turn(f) for x in pam(Mi, d) for y in pam(Mq, d)])
    for rings in (3, 8, 20):
        o = tuple(4 * (k + 1) for k in range(rings))
        a = tuple(1.0 + 0.9 * k for k in range(rings))
        fs = tuple(0.03 * k for k in range(rings))
        for oo, aa, ff in ((o, a, fs), (o, a, 0.01), (o[::-1], a[::-1], fs), ((16,) * rings, a, fs), ((12,) * rings, (1.0,) * rings, tuple(k / 12 / rings for k in range(rings)))):
            ft = ff if isinstance(ff, tuple) else (ff,) * rings
            add("large QAM", f"APSK({oo},{aa},{ff})", lambda o=oo, a=aa, f=ff: komm.APSKConstellation(o, a, f), [A * turn(i / M + f) for M, A, f in zip(oo, aa, ft) for i in range(M)])
    for M, N in ((70, 1), (130, 2), (300, 3)):
        for z in (0, 1j):
            mat = [[float((7 * i * (j + 1)) % 41) + z * ((5 * i + j) % 29) for j in range(N)] for i in range(M)]
            pts = [tuple(r) for r in mat]
            add("large QAM", f"general({M}x{N}{'c' if z else ''})", lambda m=mat: komm.Constellation(m), pts)
    for mat in ([[0.0], [1.0], [3.5]], [1, 2, 4, -1], [[0, 0], [1, 0], [0, 2], [-1, -1], [3, 3]], [[1j], [1], [-2], [0.5 - 1j]], [[1, 1j], [-1, 0.5], [0, 2 - 1j]],
                [[0.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0]]):
        pts = [tuple(r) if isinstance(r, list) else (r,) for r in mat]
        add("general", f"general({mat})", lambda m=mat: komm.Constellation(m), pts)
    return out


def brute_min_distance(P):
    D = np.sqrt((np.abs(P[:, None] - P[None]) ** 2).sum(-1))
    D[np.diag_indices(len(P))] = np.inf
    return D.min()


def received_grid(P, cplx, n, limit):
    """Points on a lattice covering the constellation with a margin, every point and every midpoint of two."""
    N = P.shape[1]
    span = max(np.abs(P.real).max(), np.abs(P.imag).max(), 0.5)
    ax = np.linspace(-1.37 * span, 1.37 * span, n)
    if N > 10:
        t = np.arange(N)
        g = np.array([0.7 * span * np.cos(a * t + a * a) for a in np.arange(40)])
        g = g * np.exp(1j * t) if cplx else g
    elif N == 1:
        g = (ax[:, None] + 1j * ax[None]).reshape(-1, 1) if cplx else ax.reshape(-1, 1)
    else:
        if cplx:
            ax = np.array([x + 1j * y for x in ax[:: max(1, n // 3)] for y in ax[:: max(1, n // 4)]])
        k = len(ax)
        while k > 2 and k**N > limit:
            k -= 1
        ax = ax[np.linspace(0, len(ax) - 1, k).astype(int)]
        g = np.array(list(itertools.product(ax, repeat=N)))
    if len(P) <= 64:
        mids = ((P[:, None] + P[None]) / 2).reshape(-1, N)
    else:  # midpoints of near neighbours only
        D = sq(P, P)
        i, j = np.nonzero((D > 0) & (D < 5 * np.min(D[D > 0])))
        i, j = i[:3000], j[:3000]
        mids = (P[i] + P[j]) / 2
    near = np.concatenate([P * 1.01, P + 0.03 * span])
    return np.concatenate([g, mids, P, near])


def sq(R, P):
    return (np.abs(R[:, None] - P[None]) ** 2).sum(-1)


def t_family(ctx, tier, group, part, parts):
    th = tier == "thorough"
    fam = [f for f in families("thorough") if f[0] == group]
    n = (13 if tier == "quick" else 31) if group.startswith(("large", "rings")) else 101
    ctx.bound("constellations", f"{group}: {len(fam)} parameter sets")
    ctx.bound("received", f"lattice of {n} values per real coordinate, all midpoints, all points")
    for no, (_, name, make, pts) in enumerate(fam):
        if no % parts != part:
            continue
        key = name
        ctx.at(key)
        with ctx.guard(key):
            judge(ctx, key, make, pts, n, th)


def judge(ctx, key, make, pts, n, th):
    c = make()
    cplx = group_complex(key, pts)
    P = np.array(pts, dtype=complex if cplx else float)
    M, N = P.shape
    ctx.state()
    ctx.close(c.matrix, P, key, "matrix", tol=1e-12)
    ctx.ok(np.iscomplexobj(c.matrix) == cplx, key, "dtype of the matrix")
    ctx.eq((c.order, c.dimension), (M, N), key, "order, dimension")
    # moments; asked on a fresh object, before the matrix was ever computed
    c = make()
    ctx.close(c.mean(), P.mean(0), key, "mean()", tol=1e-12)
    ctx.close(c.mean_energy(), (np.abs(P) ** 2).sum(-1).mean(), key, "mean_energy()", tol=1e-12)
    if M > 1 and brute_min_distance(P) > 1e-9:
        ctx.close(c.minimum_distance(), brute_min_distance(P), key, "minimum_distance()", tol=1e-12)
    priors = []
    if M <= 4:
        priors = [tuple(w / 4 for w in t) for t in compositions(4, M, 0)]
    else:
        priors = [tuple(1.0 * (i == j) for i in range(M)) for j in (0, M // 2, M - 1)]
        s = M * (M + 1) / 2
        priors += [tuple((i + 1) / s for i in range(M)), tuple((M - i) / s for i in range(M)), (1 / M,) * M]
    for pr in priors:
        w = np.array(pr)
        ctx.close(c.mean(pr), w @ P, key, f"mean({short(pr)})", tol=1e-12)
        ctx.close(c.mean_energy(pr), float(w @ (np.abs(P) ** 2).sum(-1)), key, f"mean_energy({short(pr)})", tol=1e-12)
        ctx.step(2)
    # mapping
    x = np.arange(M)
    ctx.close(c.indices_to_symbols(x), P.reshape(-1), key, "indices_to_symbols", tol=1e-12)
    ctx.close(c.indices_to_symbols([x, x[::-1]]), np.stack([P.reshape(-1), P[::-1].reshape(-1)]), key, "indices_to_symbols, two rows", tol=1e-12)
    ctx.close(c.indices_to_symbols(x.reshape(M, 1)), P, key, "indices_to_symbols, one per row", tol=1e-12)
    distinct = M == 1 or brute_min_distance(P) > 1e-9
    if distinct:
        ctx.eq(c.closest_indices(P), x.reshape(M, 1), key, "closest_indices of the points")
    # decisions
    R = received_grid(P, cplx, n, 20000 if th else 6000)
    D = sq(R, P)
    ctx.trace(len(R))
    got = c.closest_indices(R)
    if ctx.eq(got.shape, (len(R), 1), key, "shape of closest_indices"):
        g = got[:, 0]
        if ctx.ok(np.issubdtype(g.dtype, np.integer) and bool(np.all((g >= 0) & (g < M))), key, "closest index out of range"):
            bad = np.flatnonzero(D[np.arange(len(R)), g] > D.min(-1) + 1e-9 * (1 + D.min(-1)))
            if len(bad):
                i = bad[0]
                ctx.fail(key, f"closest_indices({short(R[i])}) = {g[i]} at {D[i, g[i]]:.6g}, nearest is {D[i].argmin()} at {D[i].min():.6g} ({len(bad)} points)", g[i])
            ctx.eq(c.closest_indices(R.reshape(-1)), g, key, "closest_indices, all in a row")
            k = len(R) // 4 * 4
            ctx.eq(c.closest_indices(R[:k].reshape(2, 2, -1)), g[:k].reshape(2, 2, -1), key, "closest_indices, 2x2 rows")
            S = c.closest_symbols(R)
            ctx.close(S, P[g], key, "closest_symbols", tol=1e-12)
            ctx.close(c.closest_symbols(R[:k].reshape(2, -1)), P[g[:k]].reshape(2, -1), key, "closest_symbols, two rows", tol=1e-12)
            ctx.outcome(g.tobytes())
    for i in (0, len(R) // 3, len(R) - 1):
        ctx.eq(c.closest_indices(R[i]).shape, (1,), key, "shape for one point")
        ctx.eq(c.closest_symbols(R[i]).shape, (N,), key, "shape of one symbol")
    # far away only the direction counts: nearest is the point that goes furthest along it
    if N == 1:
        dirs = np.exp(2j * np.pi * (np.arange(48) + 0.29) / 48) if cplx else np.array([1.0, -1.0])
        proj = (np.conj(dirs)[:, None] * P[None, :, 0]).real
        for far in (1e4, 1e6) + ((1e12, 1e17, 1e19, 1e30, 1e100) if key.startswith(("PAM", "ASK", "QAM", "PSK")) else ()):
            far *= max(1.0, float(np.abs(P).max()))
            ctx.trace(len(dirs))
            g = c.closest_indices(dirs * far)
            short_of = proj.max(-1) - proj[np.arange(len(dirs)), g]
            slack = 1e-9 + float((np.abs(P) ** 2).max()) / far
            for i in np.flatnonzero(short_of > slack)[:1]:
                ctx.fail(key, f"closest_indices({short(dirs[i] * far)}) = {g[i]}, the point furthest that way is {proj[i].argmax()}", g[i])
        if not cplx:
            ctx.eq(c.closest_indices(np.array([np.inf, -np.inf])) if key.startswith("PAM") else [int(P[:, 0].argmax()), int(P[:, 0].argmin())], [int(P[:, 0].argmax()), int(P[:, 0].argmin())], key, "closest to infinity")
    if N > 1:
        for bad in (1, N + 1, 2 * N - 1):
            if bad % N:
                for fn in (c.closest_indices, c.closest_symbols, lambda r: c.posteriors(r, 1.0)):
                    ctx.raises(ValueError, lambda: fn(np.zeros(bad)), key, f"{bad} coordinates")
                    ctx.raises(ValueError, lambda: fn(np.zeros((N, bad))), key, f"{N} rows of {bad} coordinates")
    # posteriors
    Q = R[:: max(1, len(R) // (2000 if th else 600))]
    DQ = sq(Q, P)
    for pw in (0.05, 1.0, 7.0):
        for pr in [None] + priors[:: max(1, len(priors) // 6)]:
            w = np.ones(M) / M if pr is None else np.array(pr)
            e = -DQ / (pw if cplx else 2 * pw)
            e = np.where(w > 0, e, -np.inf)
            e = np.exp(e - e.max(-1, keepdims=True)) * w
            want = e / e.sum(-1, keepdims=True)
            got = c.posteriors(Q, pw) if pr is None else c.posteriors(Q, pw, pr)
            ctx.step(len(Q))
            ctx.close(got, want, key, f"posteriors, noise power {pw}, priors {short(pr)}")
    ctx.close(c.posteriors(Q.reshape(-1), 1.0), c.posteriors(Q, 1.0).reshape(-1), key, "posteriors, all in a row")
    k = len(Q) // 2 * 2
    ctx.close(c.posteriors(Q[:k].reshape(2, 1, -1), 1.0), c.posteriors(Q[:k], 1.0).reshape(2, 1, -1), key, "posteriors, 2x1 rows")
    for bad in ([1 / (M + 1)] * (M + 1), [2.0] + [0.0] * (M - 1), [-1.0, 2.0] + [0.0] * (M - 2) if M > 1 else [0.5], [0.0] * M):
        for fn in (c.mean, c.mean_energy, lambda p: c.posteriors(P[0], 1.0, p)):
            ctx.raises(ValueError, lambda: fn(bad), key, f"priors {short(bad)}")


def group_complex(key, pts):
    if key.startswith(("PAM", "orth", "simp", "bio")):
        return False
    return not key.startswith("general") or any(isinstance(z, complex) for p in pts for z in p)


def t_scale(ctx, tier):
    """Scaling the parameters by a power of two scales every quantity exactly; decisions do not change."""
    exps = (-70, -40, -12, -1, 3, 40)
    ctx.bound("scales", f"2^e for e in {exps}")
    mk = {
        "PAM": lambda s: komm.PAMConstellation(5, 1.25 * s),
        "ASK": lambda s: komm.ASKConstellation(4, 0.75 * s, 0.1),
        "PSK": lambda s: komm.PSKConstellation(7, 1.5 * s, 0.2),
        "PSK8": lambda s: komm.PSKConstellation(8, s),
        "APSK": lambda s: komm.APSKConstellation((4, 6), (s, 2.5 * s), (0.0, 0.1)),
        "QAM": lambda s: komm.QAMConstellation((4, 3), (s, 1.5 * s), 0.1),
        "cross": lambda s: komm.CrossQAMConstellation(32, 1.5 * s, 0.05),
        "orthogonal": lambda s: komm.OrthogonalConstellation(4, 1.5 * s),
        "biorthogonal": lambda s: komm.BiorthogonalConstellation(6, 1.5 * s),
        "simplex": lambda s: komm.SimplexConstellation(5, 1.5 * s),
        "general": lambda s: komm.Constellation(np.array([[0.5, 1.0], [1.5, -1.0], [-1.0, 0.25]]) * s),
    }
    for name, f in mk.items():
        c1 = f(1.0)
        P = c1.matrix
        R = received_grid(np.array(P), np.iscomplexobj(P), 9, 700)
        base = c1.posteriors(R, 0.5)
        for e in exps:
            s = 2.0**e
            key = f"scale/{name}/2^{e}"
            with ctx.guard(key):
                c = f(s)
                ctx.state()
                ctx.trace(len(R))
                rel = np.abs(c.matrix / s - P).max() / np.abs(P).max()
                ctx.ok(rel <= 1e-12, key, f"points off by {rel:.3g}")
                for q, k in (("mean_energy", 2), ("minimum_distance", 1)):
                    a, b = getattr(c, q)() / s**k, getattr(c1, q)()
                    ctx.ok(abs(a - b) <= 1e-12 * b, key, f"{q}: {a} instead of {b}")
                ctx.close(c.mean() / s, c1.mean(), key, "mean")
                D = sq(R, P)
                g = c.closest_indices(R * s)[:, 0]
                ctx.ok(bool(np.all(D[np.arange(len(R)), g] <= D.min(-1) + 1e-9)), key, "decisions change with the scale")
                ctx.close(c.posteriors(R * s, 0.5 * s * s), base, key, "posteriors")


def t_far(ctx, tier):
    """Moving a constellation and the received points together, exactly, changes no distance, decision or posterior."""
    exps = (10, 24, 27, 34, 40)
    ctx.bound("far", f"translations by 2^e for e in {exps}; coordinates are multiples of 1/4")
    base = {
        "line": np.array([[-1.5], [-0.5], [0.75], [2.0]]),
        "plane": np.array([[0.5, 1.0], [1.5, -1.0], [-1.0, 0.25]]),
        "space": np.array([[0.0, 0, 0], [1, 0, 0.5], [0, 1, -1], [1, 1, 1], [-0.25, 2, 0]]),
        "complex": np.array([[1 + 0.5j], [-1j], [-0.75 + 0.25j], [2.0 + 0j]]),
        "complex pairs": np.array([[1 + 0.5j, 0], [-1j, 1], [-0.75 + 0.25j, 1j]]),
    }
    for name, P in base.items():
        n = P.shape[1]
        R = np.round(received_grid(P, np.iscomplexobj(P), 7, 300) * 16) / 16
        D = sq(R, P)
        c1 = komm.Constellation(P)
        want = c1.posteriors(R, 0.5)
        tilt = np.random.RandomState(0).permutation(len(P)) + 1.0
        pri = tilt / tilt.sum()
        want2 = c1.posteriors(R, 2.0, pri)
        for e in exps:
            for turn_ in (1, -1) + ((1j,) if np.iscomplexobj(P) else ()):
                key = f"far/{name}/{turn_}*2^{e}"
                ctx.at(key)
                with ctx.guard(key):
                    z = turn_ * 2.0**e
                    c = komm.Constellation(P + z)
                    g = c.closest_indices(R + z).reshape(-1)
                    ctx.ok(bool(np.all(D[np.arange(len(R)), g] <= D.min(-1) + 1e-9)), key, "decisions change with the origin")
                    ctx.eq(c.closest_symbols(R + z), P[g] + z, key, "closest_symbols")
                    ctx.close(c.posteriors(R + z, 0.5), want, key, "posteriors")
                    ctx.close(c.posteriors(R + z, 2.0, pri), want2, key, "posteriors with priors")
                    ctx.ok(abs(c.minimum_distance() - c1.minimum_distance()) < 1e-12, key, f"minimum distance {c.minimum_distance()} instead of {c1.minimum_distance()}")
                    ctx.state()
                    ctx.step(len(R))
                    ctx.trace(len(R))


def t_huge(ctx, tier):
    """Orders to 65536: every point, and every point (cross constellations: some) displaced by 0.45 of the minimum distance in 8 directions."""
    big = tier == "thorough"
    fam = []

    def axis(M, d):
        return d * (2 * np.arange(M) - M + 1) / 2

    for M in (1023, 2048, 4096, 10007, 32768, 65536) + ((2**18, 10**6) if big else ()):
        fam.append((f"PAM({M})", komm.PAMConstellation(M, 1.5), axis(M, 1.5)))
        fam.append((f"ASK({M})", komm.ASKConstellation(M, 0.75, 0.1), 0.75 * np.arange(M) * turn(0.1)))
        fam.append((f"PSK({M})", komm.PSKConstellation(M, 3.0, 0.3), 3.0 * np.exp(2j * np.pi * np.arange(M) / M) * turn(0.3)))
    for Mi, Mq in ((64, 64), (128, 128), (256, 256), (2, 4096), (4096, 2), (1, 3000), (3000, 1), (100, 101), (300, 7)):
        fam.append((f"QAM({Mi},{Mq})", komm.QAMConstellation((Mi, Mq), (1.0, 1.5), 0.05), ((axis(Mi, 1.0)[:, None] + 1j * axis(Mq, 1.5)) * turn(0.05)).reshape(-1)))
    for M in (4096, 16384, 65536):
        r = math.isqrt(M)
        fam.append((f"QAM({M})", komm.QAMConstellation(M), (axis(r, 2.0)[:, None] + 1j * axis(r, 2.0)).reshape(-1)))
    for k in (9, 11, 13) + ((15,) if big else ()):
        side, inner = 3 * 2 ** ((k - 3) // 2), 2 ** ((k - 1) // 2)
        cut = (side - inner) // 2
        e = (np.arange(side) < cut) | (np.arange(side) >= side - cut)
        ax = axis(side, 1.25)
        fam.append((f"cross({2**k})", komm.CrossQAMConstellation(2**k, 1.25, 0.02), ((ax[:, None] + 1j * ax) * turn(0.02))[~(e[:, None] & e)]))
    fam.append(("APSK(32x64)", komm.APSKConstellation((64,) * 32, tuple(range(10, 42)), 0.001), (np.arange(10, 42)[:, None] * np.exp(2j * np.pi * np.arange(64) / 64) * turn(0.001)).reshape(-1)))
    ctx.bound("huge", "orders to 65536 (10^6 in the thorough tier)")
    for key, c, P in fam:
        key = f"huge/{key}"
        ctx.at(key)
        ctx.state()
        with ctx.guard(key):
            M = len(P)
            cplx = np.iscomplexobj(P)
            ctx.eq((c.order, c.dimension), (M, 1), key, "order, dimension")
            ctx.close(c.mean(), [P.mean()], key, "mean", tol=1e-8)
            en = float((np.abs(P) ** 2).mean())
            ctx.ok(abs(c.mean_energy() - en) <= 1e-10 * en, key, f"mean energy {c.mean_energy()} instead of {en}")
            rows = np.arange(M) if M <= 4096 else np.unique(np.concatenate([np.arange(0, M, max(1, M // 2000)), np.arange(60), M - 1 - np.arange(60)]))
            d = {"A": 0.75, "P": 1.5, "Q": 1.0, "c": 1.25}[key[5]]
            if "PSK" in key:
                d = 6.0 * math.sin(math.pi / M) if "APSK" not in key else 20 * math.sin(math.pi / 64)
            elif key.count(",") == 0 and "QAM" in key:
                d = 2.0
            elif "QAM(1," in key:
                d = 1.5
            d = min(d, 1.0) if "APSK" in key else d
            ctx.ok(abs(c.minimum_distance() - d) <= 1e-9 * d, key, f"minimum distance {c.minimum_distance()} instead of {d}")
            ctx.close(c.matrix[:, 0], P, key, "matrix", tol=1e-9)
            ctx.close(c.indices_to_symbols(rows), P[rows], key, "indices_to_symbols", tol=1e-9)
            generic = key[5:].startswith(("cross", "APSK"))
            if generic:
                rows = rows[:: max(1, len(rows) // 150)]
            for z in (0,) + (tuple(cmath.exp(2j * math.pi * (k + 0.3) / 8) for k in range(8)) if cplx else (1, -1)):
                R = P[rows] + 0.45 * d * z
                ctx.eq(c.closest_indices(R), rows, key, f"closest_indices, displaced along {z}")
                ctx.close(c.closest_symbols(R), P[rows], key, f"closest_symbols, displaced along {z}", tol=1e-9)
                ctx.trace(len(rows))
                ctx.step(len(rows))
            for i in (0, M // 3, M - 1):
                for pw in (d * d / 20, d * d * 3):
                    r = P[i] + 0.2 * d
                    e = -np.abs(P - r) ** 2 / (pw if cplx else 2 * pw)
                    e = np.exp(e - e.max())
                    ctx.close(c.posteriors(np.array([r]), pw), e / e.sum(), key, f"posteriors near point {i}", tol=1e-7)


def t_reject(ctx):
    ctx.state()
    ctx.trace()
    bad = {
        "QAM": [(3,), (8,), (2,), (15,)],
        "CrossQAM": [(4,), (8,), (16,), (31,), (33,), (48,), (64,), (256,), (0,)],
        "Biorthogonal": [(1,), (3,), (5,)],
        "APSK": [((4, 4), (1.0,)), ((4,), (1.0, 2.0)), ((4, 4), (1.0, 2.0), (0.0,)), ((4,), (1.0,), (0.0, 0.1))],
    }
    for n, argss in bad.items():
        for args in argss:
            ctx.raises(ValueError, lambda: getattr(komm, n + "Constellation")(*args), f"reject/{n}/{args}", "parameters")
            ctx.step()
    ctx.raises(ValueError, lambda: komm.Constellation(np.zeros((2, 2, 2))), "reject/3d", "3D matrix")


def t_chain(ctx, tier):
    """Bits -> labels -> points -> (scaled noise inside the decision region) -> nearest -> bits is the identity, the
    rectangular labeling is Gray for QAM, and soft bits have the sign of the nearest point's bits where one dominates."""
    th = True
    ctx.bound("chains", "QAM x rectangular, PSK/PAM/ASK x reflected and natural, orthogonal and biorthogonal x natural; every index; displacements of 0.49 of the minimum distance in 16 directions")
    L = komm.ReflectedLabeling
    pairs = []
    for mi in range(1, 4 if th else 3):
        for mq in range(1, 4 if th else 3):
            pairs.append((f"QAM{mi},{mq}", komm.QAMConstellation((2**mi, 2**mq), (2.0, 1.5), 0.1), komm.ReflectedRectangularLabeling((mi, mq)), True))
    for m in range(1, 6 if th else 5):
        pairs.append((f"PSK{m}", komm.PSKConstellation(2**m, 1.5, 0.05), L(m), True))
        pairs.append((f"PAM{m}", komm.PAMConstellation(2**m), L(m), True))
        pairs.append((f"ASK{m}", komm.ASKConstellation(2**m, 0.5, 0.3), L(m), True))
        pairs.append((f"PAMn{m}", komm.PAMConstellation(2**m), komm.NaturalLabeling(m), False))
        if m < 4:
            pairs.append((f"orth{m}", komm.OrthogonalConstellation(2**m), komm.NaturalLabeling(m), False))
            pairs.append((f"bio{m}", komm.BiorthogonalConstellation(2**m), komm.NaturalLabeling(m), False))
    for name, c, lab, isgray in pairs:
        key = f"chain/{name}"
        with ctx.guard(key):
            ctx.state()
            M, N, m = c.order, c.dimension, lab.num_bits
            x = np.arange(M)
            bits = lab.indices_to_bits(x)
            sym = c.indices_to_symbols(lab.bits_to_indices(bits))
            ctx.eq(lab.indices_to_bits(c.closest_indices(sym)), bits, key, "noiseless chain")
            d = c.minimum_distance()
            dirs = []
            if N == 1:
                dirs = [np.exp(2j * np.pi * k / 16) for k in range(16)] if np.iscomplexobj(c.matrix) else [1, -1]
                dirs = [np.array([z]) for z in dirs]
            else:
                dirs = [s * np.eye(N)[i] for i in range(N) for s in (1, -1)]
            for z in dirs:
                r = (sym.reshape(M, N) + 0.49 * d * z).reshape(-1)
                ctx.eq(lab.indices_to_bits(c.closest_indices(r)), bits, key, f"displaced along {short(z)}")
                ctx.trace(M)
                for pw in (1e-3 * d * d, 1e-2 * d * d):
                    lv = lab.marginalize(c.posteriors(r, pw))
                    ctx.eq((lv < 0).astype(int), bits, key, f"signs of soft bits, displaced along {short(z)}, noise {pw}")
            if isgray:
                D = np.sqrt(sq(np.array(c.matrix), np.array(c.matrix)))
                H = np.array([[np.sum(lab.matrix[i] != lab.matrix[j]) for j in range(M)] for i in range(M)])
                step = [2.0, 1.5] if name.startswith("QAM") else [d]
                for s in step:
                    near = np.abs(D - s) < 1e-9
                    ctx.ok(bool(np.all(H[near] == 1)), key, f"points at distance {s} differ in {sorted(set(H[near].tolist()))} bits")


def tasks(tier):
    out = []
    groups = {}
    for g, *_ in families("thorough"):
        groups[g] = groups.get(g, 0) + 1
    for g, k in groups.items():
        parts = {"QAM": 4, "APSK": 4, "PSK": 2, "rings": 8, "large PSK": 4, "large QAM": 6, "large PAM": 4, "large N": 3}.get(g, 1)
        for p in range(parts):
            out.append((f"{g}/{p}", t_family, dict(tier=tier, group=g, part=p, parts=parts)))
    out += [("scale", t_scale, dict(tier=tier)), ("far", t_far, dict(tier=tier)), ("huge", t_huge, dict(tier=tier)), ("reject", t_reject, {}), ("chain", t_chain, dict(tier=tier))]
    return out
