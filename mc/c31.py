"""C31: waveform, spectrum, autocorrelation, energy density, energy, taps and root of every pulse describe one and the
same pulse, the one of its definition, on a lattice of parameters, times and frequencies with all singular points."""

import itertools
import math

import numpy as np

import komm

from .core import short

ASSUMPTIONS = [
    "parameters, times and frequencies are those of the lattice (all breakpoints and removable singularities with their "
    "neighbours are on it); values are compared to 1e-7, and to 1e-4 within 1e-4 of a removable singularity",
    "at the edges of a discontinuity either one-sided value is accepted for spectra; waveforms are half-open as documented",
]

NODES, WEIGHTS = np.polynomial.legendre.leggauss(96)


def integral(fn, cuts, top):
    """Integral over consecutive intervals of `cuts`, each split so that oscillations up to `top` cycles are resolved."""
    s = 0.0
    for a, b in zip(cuts, cuts[1:]):
        if b <= a:
            continue
        n = max(1, int(math.ceil((b - a) * top / 12)))
        e = np.linspace(a, b, n + 1)
        for u, v in zip(e, e[1:]):
            x = (u + v) / 2 + (v - u) / 2 * NODES
            s = s + (v - u) / 2 * (fn(x) @ WEIGHTS)
    return s


def rc(f, a):
    f = np.abs(f)
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    return np.where(f < f1, 1.0, np.where(f < f2, 0.5 * (1 + np.cos(np.pi * (f - f1) / a)) if a else 0.0, 0.0))


def fe(f, a):
    f = np.abs(f)
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    if a == 0:
        return np.where(f < 0.5, 1.0, 0.0)
    b = 2 * math.log(2) / a
    with np.errstate(over="ignore"):
        return np.where(f < f1, 1.0, np.where(f < 0.5, np.exp(-b * (f - f1)), np.where(f < f2, 1 - np.exp(-b * (f2 - f)), 0.0)))


def band_limited(ctx, key, p, spec, a, ts, near, root):
    """p: pulse with the real, even spectrum spec(f, a), cut at f1, 1/2, f2."""
    f1, f2 = (1 - a) / 2, (1 + a) / 2
    cuts = [0.0, f1, 0.5, f2]
    g = (lambda f: np.sqrt(np.maximum(spec(f, a), 0))) if root else (lambda f: spec(f, a))
    if root:
        # a graded mesh towards f2 resolves the cusp of the square root
        cuts = [0.0, f1, 0.5] + [f2 - (f2 - 0.5) * 4.0**-k for k in range(1, 14)] + [f2]
    ts = np.array(ts, dtype=float)
    top = max(4.0, float(np.max(np.abs(ts))))
    C = lambda f: np.cos(2 * np.pi * np.outer(ts, f))
    w = integral(lambda f: 2 * g(f) * C(f), cuts, top)
    r = integral(lambda f: 2 * g(f) ** 2 * C(f), cuts, top)
    e = float(integral(lambda f: 2 * g(f) ** 2, cuts, 1))
    fs = sorted({k / 16 for k in range(-24, 25)} | {s * x for s in (1, -1) for x in (f1, f2, 0.5, (f1 + f2) / 2, f1 + 1e-9, f2 - 1e-9, f2 + 1e-9, 0.5 - 1e-9, 0.5 + 1e-9)})
    fs = [f for f in fs if a > 0 or abs(abs(f) - 0.5) > 0]
    verify(ctx, key, p, ts, w, r, near, fs, g(np.array(fs)), e)
    ctx.ok(p.support == (-np.inf, np.inf), key, "support")


def verify(ctx, key, p, ts, w, r, near, fs, S, e):
    tol = np.where(near, 1e-4, 1e-7)
    for name, fn, want in (("waveform", p.waveform, w), ("autocorrelation", p.autocorrelation, r)):
        got = np.asarray(fn(ts))
        bad = ~(np.abs(got - want) <= tol) if got.shape == ts.shape else np.ones(ts.shape, dtype=bool)
        if np.any(bad):
            i = int(np.argmax(bad))
            ctx.fail(key, f"{name} at {ts[i]!r}: {np.ravel(got)[i] if got.size > i else got} instead of {want[i]}")
        for i in range(0, len(ts), 7):
            x = fn(float(ts[i]))
            ctx.ok(np.ndim(x) == 0 and abs(x - want[i]) <= tol[i], key, f"scalar {name} at {ts[i]}: {x}")
        n = len(ts) // 4 * 4
        ctx.close(fn(ts[:n].reshape(2, -1, 2)), got[:n].reshape(2, -1, 2), key, f"{name} of a batch", tol=1e-12)
        ints = [k for k in range(-8, 9)]
        vals = {float(t): v for t, v in zip(ts, want)}
        if all(float(k) in vals for k in ints):
            ctx.close(fn(ints), [vals[float(k)] for k in ints], key, f"{name} at integers", tol=1e-7)
            ctx.close(fn(np.array(ints)), [vals[float(k)] for k in ints], key, f"{name} at integers", tol=1e-7)
        ctx.trace(len(ts) + 3)
    ctx.close(p.spectrum(fs), S, key, "spectrum", tol=1e-7)
    ctx.close(p.spectrum(np.array(fs)), S, key, "spectrum", tol=1e-7)
    ctx.close(p.energy_spectral_density(fs), np.abs(S) ** 2, key, "energy spectral density", tol=1e-7)
    for i in range(0, len(fs), 5):
        ctx.close(p.spectrum(fs[i]), S[i], key, "scalar spectrum", tol=1e-7)
        ctx.close(p.energy_spectral_density(fs[i]), abs(S[i]) ** 2, key, "scalar density", tol=1e-7)
    ks = [f for f in (-2, -1, 0, 1, 2) if f in fs]
    ctx.close(p.spectrum(ks), [S[fs.index(k)] for k in ks], key, "spectrum at integers", tol=1e-7)
    ctx.close(p.spectrum(np.array(ks, dtype=int)), [S[fs.index(k)] for k in ks], key, "spectrum at integers", tol=1e-7)
    ctx.close(p.energy(), e, key, "energy", tol=1e-7)
    ctx.close(p.autocorrelation(0.0), e, key, "autocorrelation at 0", tol=1e-7)
    ctx.trace(4)
    taps(ctx, key, p)


def taps(ctx, key, p):
    for sps in (1, 2, 3, 5, 8):
        for a in range(-3, 3):
            for b in range(a, 4):
                n = (b - a) * sps + 1
                got = p.taps(sps, span=(a, b))
                want = p.waveform(np.array([(a * sps + k) / sps for k in range(n)]))
                ctx.close(got, want, key, f"taps({sps}, ({a}, {b}))", tol=1e-12)
        if np.isinf(p.support[0]) or np.isinf(p.support[1]):
            ctx.raises(ValueError, lambda: p.taps(sps), key, "taps of an infinite pulse without a span")
        else:
            ctx.close(p.taps(samples_per_symbol=sps), p.waveform(np.arange(sps + 1) / sps), key, f"taps({sps})", tol=1e-12)
        ctx.trace()


def lattice(a, top):
    """Times k/8 and all singular points with neighbours; the second list marks points next to a singularity."""
    sing = [0.0] + ([1 / a, 1 / (2 * a), 1 / (4 * a)] if a else [])
    sing = [s for s in sing if s <= top]
    ts = {k / 8 for k in range(-8 * min(10, top), 8 * min(10, top) + 1)} | {float(k) for k in range(-top, top + 1, 3)}
    for s in sing:
        for d in (0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 3e-5, 1e-4, 1e-3):
            ts |= {s + d, s - d, -s + d, -s - d}
            ts |= {s * (1 + d), s * (1 - d), -s * (1 + d), -s * (1 - d)}
    ts = sorted(ts)
    near = np.array([any(abs(abs(t) - s) < 2e-4 * max(1, s) and abs(abs(t) - s) > 0 for s in sing) for t in ts])
    return ts, near


def t_nyquist(ctx, tier, kind, part=0, parts=1):
    D = 32 if tier == "thorough" else 16
    rolls = [k / D for k in range(D + 1)] + [0.1, 0.3, 1 / 3, 0.01, 0.002, 5e-4, 5e-5, 1e-6, 2.0**-30, 0.999]
    ctx.bound("roll-offs", f"multiples of 1/{D} and a few others")
    cls, spec = {"RaisedCosine": (komm.RaisedCosinePulse, rc), "Beaulieu": (komm.BeaulieuPulse, fe)}[kind]
    for i, a in enumerate(rolls):
        if i % parts != part:
            continue
        ts, near = lattice(a, 32)
        for root in (False, True):
            key = f"{kind}/{a}/{'root' if root else 'base'}"
            ctx.at(key)
            ctx.state(len(ts))
            with ctx.guard(key):
                p = cls(a)
                q = p.root() if root else p
                band_limited(ctx, key, q, spec, a, ts, near, root)
                # intersymbol interference
                k = np.arange(-40, 41)
                nyq = q.autocorrelation(k) if root else q.waveform(k)
                ctx.close(nyq, 1.0 * (k == 0), key, "not a Nyquist pulse in time", tol=1e-9)
                f = np.array([j / 64 for j in range(-32, 33)] + [(1 - a) / 2, (1 + a) / 2 - 1])
                S = q.energy_spectral_density if root else q.spectrum
                ctx.close(sum(S(f + m) for m in range(-2, 3)), np.ones(len(f)), key, "not a Nyquist pulse in frequency", tol=1e-9)
                ctx.trace(2)
                if root:
                    ctx.raises(NotImplementedError, q.root, key, "root of a root")
        ctx.ok(cls(a) == cls(rolloff=a), f"{kind}/{a}", "equality")
    for bad in (-0.1, 1.1, -1e-12, 1 + 1e-12, float("nan"), 2):
        ctx.raises(ValueError, lambda: cls(bad), f"{kind}/reject/{bad}", "roll-off")


def t_nyquist_far(ctx, tier, kind):
    """Hundreds to thousands of symbol times away from the centre."""
    cls, spec = {"RaisedCosine": (komm.RaisedCosinePulse, rc), "Beaulieu": (komm.BeaulieuPulse, fe)}[kind]
    far = [63.5, 99.75, 130.3, 200.0, -255.6, 300.25, 511.1, -777.7, 1000.3] + ([1999.9, -4000.123, 10000.4] if tier == "thorough" else [])
    ctx.bound("far times", far)
    for a in (5e-5, 0.001, 0.02, 0.1, 0.25, 0.5, 0.8, 1.0):
        for root in (False, True):
            key = f"{kind}/far/{a}/{'root' if root else 'base'}"
            ctx.at(key)
            with ctx.guard(key):
                p = cls(a).root() if root else cls(a)
                band_limited(ctx, key, p, spec, a, np.array(far), np.zeros(len(far), dtype=bool), root)
                ctx.close(p.waveform(far), [p.waveform([t])[0] for t in far], key, "one at a time", tol=1e-9)
                ctx.close(p.waveform(1.25 + 0 * np.array(far)), [p.waveform(1.25)] * len(far), key, "scalar", tol=1e-9)
                ctx.state(len(far))
                ctx.trace()


def t_sinc(ctx, tier):
    p = komm.SincPulse()
    ts, near = lattice(0, 32)
    box = lambda f, a: np.where(np.abs(f) < 0.5, 1.0, 0.0)
    for key, q in (("sinc", p), ("sinc/root", p.root())):
        ctx.state(len(ts))
        with ctx.guard(key):
            band_limited(ctx, key, q, box, 0, ts, near, False)
            k = np.arange(-40, 41)
            ctx.close(q.waveform(k), 1.0 * (k == 0), key, "not a Nyquist pulse", tol=1e-9)
            f = np.array([j / 64 for j in range(-32, 33)])
            ctx.close(sum(q.spectrum(f + m) for m in range(-2, 3)), np.ones(len(f)), key, "not a Nyquist pulse", tol=1e-9)


def t_gaussian(ctx, tier):
    for B in [k / 8 for k in range(1, 25)] + [0.01, 0.1, 0.3, 5.0, 10.0]:
        key = f"gaussian/{B}"
        ctx.at(key)
        ts = sorted({k / 8 for k in range(-80, 81)} | {0.001, -0.001, 1e-5, 30.0})
        ctx.state(len(ts))
        with ctx.guard(key):
            p = komm.GaussianPulse(B)
            b = B / math.sqrt(math.log(2))
            # h(t) = exp(-(2 pi b t)^2 / 2): its transform and its autocorrelation by quadrature
            h = lambda t: np.exp(-0.5 * (2 * math.pi * b * t) ** 2)
            T = 7 / (2 * math.pi * b)
            fs = sorted({k / 8 * B for k in range(-24, 25)} | {-2.0, -1.0, 0.0, 1.0, 2.0})
            cuts = [0, T / 2, T, 2 * T]
            S = integral(lambda t: 2 * h(t) * np.cos(2 * np.pi * np.outer(fs, t)), cuts, max(abs(f) for f in fs) + 1 / T * 12)
            r = np.array([integral(lambda u: h(u + x / 2) * h(u - x / 2) * 2, [0, T / 2, T, 2 * T], 12 / T) for x in ts])
            verify(ctx, key, p, np.array(ts), h(np.array(ts)), r, np.zeros(len(ts), dtype=bool), fs, S, float(r[ts.index(0.0)]))
            ctx.close(p.energy_spectral_density(B), p.energy_spectral_density(0.0) / 2, key, "half-power bandwidth", tol=1e-9)
            ctx.ok(p.support == (-np.inf, np.inf), key, "support")
            ctx.raises(NotImplementedError, p.root, key, "root of a pulse that is not Nyquist")
    for bad in (0, -1, -1e-9, float("nan")):
        ctx.raises(ValueError, lambda: komm.GaussianPulse(bad), f"gaussian/reject/{bad}", "bandwidth")


def t_finite(ctx, tier):
    """Time-limited pulses: piecewise constant on pieces (start, end, value)."""
    D = 32 if tier == "thorough" else 16
    kinds = [(f"rectangular/{k}/{D}", komm.RectangularPulse(k / D), [(0.0, k / D, 1.0)]) for k in range(1, D + 1)]
    kinds += [(f"rectangular/{w}", komm.RectangularPulse(w), [(0.0, w, 1.0)]) for w in (0.1, 0.3, 0.7, 1 / 3, 0.001)]
    kinds.append(("manchester", komm.ManchesterPulse(), [(0.0, 0.5, -1.0), (0.5, 1.0, 1.0)]))
    for key, p, pieces in kinds:
        ctx.at(key)
        edges = sorted({x for a, b, _ in pieces for x in (a, b)})
        ts = sorted({k / 32 for k in range(-64, 65)} | {float(k) for k in range(-8, 9)} | set(edges) | {np.nextafter(x, s) for x in edges if x for s in (-9, 9)} | {x + d for x in edges for d in (1e-9, -1e-9)})
        ctx.state(len(ts))
        with ctx.guard(key):
            w = np.array([sum(v for a, b, v in pieces if a <= t < b) for t in ts])
            r = np.array([sum(v * u * max(0.0, min(b, d - t) - max(a, c - t)) for a, b, v in pieces for c, d, u in pieces) for t in ts])
            # nextafter points may round across an edge inside of the code
            near = np.zeros(len(ts), dtype=bool)
            got = p.waveform(ts)
            for i, t in enumerate(ts):
                if any(0 < abs(t - x) < 1e-12 for x in edges):
                    ctx.ok(got[i] in (w[i], w[i - 1] if i else 0, w[i + 1] if i + 1 < len(w) else 0), key, f"waveform at {t}")
            keep = [i for i, t in enumerate(ts) if not any(0 < abs(t - x) < 1e-12 for x in edges)]
            ts, w, r, near = np.array(ts)[keep], w[keep], r[keep], near[keep]
            fs = sorted({k / 8 for k in range(-40, 41)} | {1e-9, 1e-6, -1e-6})
            S = np.array([sum(v * ((b - a) if f == 0 else (np.exp(-2j * np.pi * f * a) - np.exp(-2j * np.pi * f * b)) / (2j * np.pi * f)) for a, b, v in pieces) for f in fs])
            verify(ctx, key, p, ts, w, r, near, fs, S, float(sum((b - a) * v * v for a, b, v in pieces)))
            ctx.eq(p.support, (pieces[0][0], pieces[-1][1]), key, "support")
            ctx.raises(NotImplementedError, p.root, key, "root of a pulse that is not Nyquist")
    for bad in (0, -1, 1.5, float("nan")):
        ctx.raises(ValueError, lambda: komm.RectangularPulse(bad), f"rectangular/reject/{bad}", "width")


def t_far(ctx, tier):
    """Many samples per symbol, long spans, times and frequencies far out, long arrays: the same pulse as sample by sample."""
    sps = (1, 4, 7, 16, 31, 64, 100, 255, 256, 257) if tier == "thorough" else (1, 7, 16, 64, 257)
    spans = ((-20, 20), (-64, 65), (0, 33), (-40, -3), (5, 9), (0, 0))
    ctx.bound("taps", f"samples per symbol {sps}, spans {spans}")
    pulses = {"sinc": komm.SincPulse(), "gauss": komm.GaussianPulse(0.3), "rect": komm.RectangularPulse(0.7), "nrz": komm.RectangularPulse(), "manchester": komm.ManchesterPulse()}
    for a in (0.0, 0.1, 0.25, 0.5, 1 / 3, 1.0):
        for n, c in (("rc", komm.RaisedCosinePulse), ("fe", komm.BeaulieuPulse)):
            pulses[f"{n}/{a}"] = c(a)
            pulses[f"{n}-root/{a}"] = c(a).root()
    for name, p in pulses.items():
        slow = name.startswith("fe-root")
        for s in sps if not slow else sps[:3]:
            for span in spans if not slow else spans[2:]:
                key = f"far/taps/{name}/{s}/{span}"
                ctx.at(key)
                with ctx.guard(key):
                    n = (span[1] - span[0]) * s + 1
                    t = np.array([(span[0] * s + k) / s for k in range(n)])
                    got = np.asarray(p.taps(s, span=span))
                    if not ctx.eq(got.shape, (n,), key, "number of taps"):
                        continue
                    pick = np.unique(np.concatenate([np.arange(min(n, 40)), np.arange(max(0, n - 40), n), np.arange(0, n, max(1, n // 50))]))
                    want = np.array([p.waveform(float(x)) for x in t[pick]])
                    ctx.close(got[pick], want, key, "taps", tol=1e-9)
                    w = np.asarray(p.waveform(t))
                    ctx.close(got, w, key, "taps against the waveform", tol=1e-9)
                    ctx.step(n)
                    ctx.state()
                    ctx.trace()
                    ctx.outcome((name, s, span))
        # odd and even symmetry far out, and the closed forms there
        t = np.array([33.0, 64.5, 100.25, 127.875, 256.125, 999.5, 1000.0, 4096.75])
        key = f"far/times/{name}"
        ctx.at(key)
        with ctx.guard(key):
            if not slow:
                w, r = np.asarray(p.waveform(t)), np.asarray(p.autocorrelation(t))
                ctx.close(r, np.asarray(p.autocorrelation(-t)), key, "autocorrelation is not even", tol=1e-9)
                if not name.startswith(("rect", "nrz", "man")):
                    ctx.close(w, np.asarray(p.waveform(-t)), key, "waveform is not even", tol=1e-9)
                if name.startswith("rc/"):
                    a = float(name[3:])
                    ctx.close(w, np.sinc(t) * np.cos(np.pi * a * t) / (1 - (2 * a * t) ** 2), key, "waveform", tol=1e-9)
                if name.startswith("rc-root"):
                    a = float(name[8:])
                    ctx.close(w, (np.sin(np.pi * t * (1 - a)) + 4 * a * t * np.cos(np.pi * t * (1 + a))) / (np.pi * t * (1 - (4 * a * t) ** 2)), key, "waveform", tol=1e-9)
                    ctx.close(r, np.sinc(t) * np.cos(np.pi * a * t) / (1 - (2 * a * t) ** 2), key, "autocorrelation", tol=1e-9)
                if name == "sinc":
                    ctx.close(w, np.sinc(t), key, "waveform", tol=1e-9)
                    ctx.close(r, np.sinc(t), key, "autocorrelation", tol=1e-9)
                if name == "gauss" or name.startswith(("rect", "nrz", "man")):
                    ctx.ok(not np.asarray(w).any() or np.abs(w).max() < 1e-100, key, "waveform")
            f = np.array([1.5, 2.25, 7.125, 33.3, 100.5])
            S = np.asarray(p.spectrum(f))
            if name.startswith(("rc", "fe", "sinc")):
                ctx.ok(not S.any(), key, "spectrum outside of the band")
            ctx.close(np.asarray(p.energy_spectral_density(f)), np.abs(S) ** 2, key, "energy spectral density", tol=1e-9)
            ctx.close(np.asarray(p.spectrum(-f)), np.conj(S), key, "spectrum of a real pulse", tol=1e-9)
            ctx.state()
            ctx.trace()


def tasks(tier):
    k = dict(tier=tier)
    return [("far", t_far, k), ("sinc", t_sinc, k), ("gaussian", t_gaussian, k), ("finite", t_finite, k)] + [
        (f"{n}/far", t_nyquist_far, dict(tier=tier, kind=n)) for n in ("RaisedCosine", "Beaulieu")
    ] + [
        (f"{n}/{i}", t_nyquist, dict(tier=tier, kind=n, part=i, parts=3)) for n in ("RaisedCosine", "Beaulieu") for i in range(3)
    ]
