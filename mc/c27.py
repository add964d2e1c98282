"""C27: (cyclic) autocorrelations are the sums of their definitions for every sequence and every list of shifts;
complex sequences and Zadoff-Chu sequences have their defining properties."""

import cmath
import itertools
import math

import numpy as np

import komm

from .core import short
from .trellis import pattern

ASSUMPTIONS = [
    "sequences are not empty; shifts are a list of integers, or an array of them of any integer type",
    "normalized values are stated for sequences of non-zero energy",
]


def acorr(x, l):
    n = len(x)
    return sum(complex(x[i]) * complex(x[i - l]).conjugate() for i in range(n) if 0 <= i - l < n)


def cyc(x, l):
    n = len(x)
    return sum(complex(x[i]) * complex(x[(i - l) % n]).conjugate() for i in range(n))


def judge(ctx, key, x, tol=1e-12, obj=None, shift_lists=None):
    L = len(x)
    full = list(range(-L - 1, L + 2)) + [2 * L, -2 * L, 5 * L + 1, -3 * L - 1]
    energy = acorr(x, 0).real
    for f, g, name in ((komm.autocorrelation, acorr, "autocorrelation"), (komm.cyclic_autocorrelation, cyc, "cyclic autocorrelation")):
        want = {l: g(x, l) for l in set(full) | set(range(L))}
        calls = [(f, (x,))]
        if obj is not None:
            calls.append((getattr(obj, f.__name__), ()))
        for fn, args in calls:
            for sh in [None, full] + (shift_lists or []):
                w = [want[l] for l in (range(L) if sh is None else sh)]
                kw = {} if sh is None else dict(shifts=sh)
                ctx.close(fn(*args, **kw), w, key, f"{name}, shifts {sh}", tol=tol)
                ctx.trace()
                if energy > 0:
                    ctx.close(fn(*args, normalized=True, **kw), np.array(w) / energy, key, f"normalized {name}, shifts {sh}", tol=tol)
                    ctx.trace()


def t_all(ctx, tier, name, alphabet, top, part=0, parts=1):
    ctx.bound("length", top)
    k = 0
    for n in range(1, top + 1):
        for x in itertools.product(alphabet, repeat=n):
            k += 1
            if k % parts != part:
                continue
            key = f"{name}/{x}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                o = komm.ComplexSequence(list(x))
                ctx.eq(o.sequence, np.array(x, dtype=complex), key, "sequence")
                ctx.eq(o.length, n, key, "length")
                judge(ctx, key, list(x), obj=o)
                keep = np.array(x)
                y = keep.copy()
                y.flags.writeable = False
                judge(ctx, key, y)


def t_shifts(ctx, tier):
    """All lists of shifts up to a length: order and repetition are kept."""
    x = [1, 2 - 1j, -3, 0.5j]
    o = komm.ComplexSequence(x)
    top = 4 if tier == "thorough" else 3
    for n in range(top + 1):
        for sh in itertools.product(range(-5, 6), repeat=n):
            key = f"shifts/{sh}"
            ctx.state()
            with ctx.guard(key):
                for f, g in ((komm.autocorrelation, acorr), (komm.cyclic_autocorrelation, cyc)):
                    w = [g(x, l) for l in sh]
                    ctx.close(f(x, list(sh)), w, key, f.__name__, tol=1e-12)
                    ctx.close(f(x, np.array(sh, dtype=int)), w, key, f.__name__, tol=1e-12)
                    ctx.close(getattr(o, f.__name__)(shifts=sh), w, key, f.__name__, tol=1e-12)
                    for dt in (np.int8, np.int32) + ((np.uint8, np.uint32, np.uint64) if min(sh, default=0) >= 0 else ()) if 0 < n < 3 else ():
                        ctx.close(f(x, np.array(sh, dtype=dt)), w, key, f"{f.__name__}, {np.dtype(dt)} shifts", tol=1e-12)
                        ctx.trace()
                ctx.trace(6)


def t_types(ctx, tier):
    for L in (1, 2, 3, 127, 128, 129, 255, 256, 257, 300):
        for dt in (bool, np.int8, np.uint8, np.int16, np.int32, np.int64, np.float32, float, complex):
            for kind in ("ones", "alternating", "ramp"):
                v = [1] * L if kind == "ones" else [(-1) ** i if dt not in (bool, np.uint8) else i % 2 for i in range(L)] if kind == "alternating" else [i % (2 if dt is bool else 100) for i in range(L)]
                key = f"types/{L}/{np.dtype(dt)}/{kind}"
                ctx.at(key)
                ctx.state()
                with ctx.guard(key):
                    x = np.array(v, dtype=dt)
                    sh = [0, 1, -1, L // 2, L, -L, L - 1]
                    ctx.close(komm.autocorrelation(x, sh), [acorr(v, l) for l in sh], key, "autocorrelation", tol=1e-5)
                    ctx.close(komm.cyclic_autocorrelation(x, sh), [cyc(v, l) for l in sh], key, "cyclic autocorrelation", tol=1e-5)
                    ctx.eq(x, np.array(v, dtype=dt), key, "input modified")
                    ctx.trace(2)


def t_zc(ctx, tier):
    top = 99 if tier == "thorough" else 45
    ctx.bound("length", top)
    for L in range(3, top + 1, 2):
        for q in range(1, L):
            key = f"zc/{L}/{q}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                z = komm.ZadoffChuSequence(L, q)
                # exact phases modulo 2L
                w = [cmath.exp(-1j * math.pi * ((q * n * (n + 1)) % (2 * L)) / L) for n in range(L)]
                ctx.close(z.sequence, w, key, "sequence", tol=1e-9)
                ctx.eq(z.length, L, key, "length")
                ctx.close(np.abs(z.sequence), np.ones(L), key, "amplitude", tol=1e-12)
                if math.gcd(q, L) == 1:
                    ctx.close(z.cyclic_autocorrelation(), [L] + [0] * (L - 1), key, "cyclic autocorrelation", tol=1e-9)
                    ctx.close(z.cyclic_autocorrelation(shifts=[-L, 1 - L, -1, L], normalized=True), [1, 0, 0, 1], key, "cyclic autocorrelation", tol=1e-9)
                if q == 1:
                    ctx.close(komm.ZadoffChuSequence(length=L).sequence, w, key, "default root", tol=1e-9)
                ctx.trace(3)
        seqs = {q: komm.ZadoffChuSequence(L, q).sequence for q in range(1, L)} if L <= 15 else {}
        for a, b in itertools.combinations(seqs, 2):
            if math.gcd(b - a, L) == 1:
                c = [abs(np.vdot(np.roll(seqs[a], s), seqs[b])) for s in range(L)]
                ctx.close(c, [math.sqrt(L)] * L, f"zc/{L}/{a}/{b}", "cross-correlation", tol=1e-9)
                ctx.trace()
    for bad in ((2, 1), (4, 1), (0, 1), (5, 0), (5, 5), (5, -1), (5, 6), (1, 1), (-3, 1)):
        ctx.raises(ValueError, lambda: komm.ZadoffChuSequence(*bad), f"zc/reject/{bad}", "parameters")


def t_long(ctx, tier):
    """Long integer and Gaussian-integer sequences, every shift, against exact integer sums."""
    ns = (63, 64, 65, 255, 257, 511, 512, 1000, 1023, 1025, 2047, 2049) + ((4095, 4097, 8191) if tier == "thorough" else ())
    ctx.bound("long", f"lengths {ns}, three sequences each, all shifts from -L to L")
    for n in ns:
        i = np.arange(n)
        re = pattern(n, n, 1, 7) - 3
        im = pattern(n, n, 2, 5) - 2
        for name, a, b in (("integer", re, 0 * re), ("gaussian", re, im), ("sparse", (i % 97 == 5) * 1, (i % 41 == 3) * 2), ("bipolar", 1 - 2 * pattern(n, 3, n), 0 * re), ("offset", re + 1000, 0 * re)):
            key = f"long/{name}/{n}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                # r[l] = sum_i x[i] conj(x[i - l]), exactly
                cr = np.correlate(a, a, "full") + np.correlate(b, b, "full")
                ci = np.correlate(b, a, "full") - np.correlate(a, b, "full")
                full = np.concatenate([[0], cr + 1j * ci, [0]])  # shifts -n .. n
                sh = np.arange(-n, n + 1)
                x = a + 1j * b if b.any() else a
                e = float((a * a + b * b).sum())
                cy = full[n : 2 * n].copy()  # shifts 0 .. n - 1
                cy[1:] += full[1:n]
                o = komm.ComplexSequence(x)
                for f, w0, w in ((komm.autocorrelation, full[n : 2 * n], full), (komm.cyclic_autocorrelation, cy, cy[sh % n])):
                    g = getattr(o, f.__name__)
                    for got, want in ((f(x), w0), (f(x, shifts=sh), w), (f(x, normalized=True), w0 / e), (g(), w0), (g(shifts=sh.tolist(), normalized=True), w / e), (f(x, shifts=[n // 2, 3, -n + 1]), w[[n + n // 2, n + 3, 1]])):
                        got = np.asarray(got)
                        if ctx.ok(got.shape == want.shape, key, f"{f.__name__}: shape {got.shape}"):
                            d = np.abs(got - want)
                            lim = 1e-10 * np.abs(want).max() * (1 + n / 100)
                            ctx.ok(bool(np.all(d <= lim)), key, f"{f.__name__}: entry {int(np.argmax(d))} is {got[int(np.argmax(d))]}, exact {want[int(np.argmax(d))]}")
                        ctx.trace()
                        ctx.step()
                ctx.outcome((key, e))


def t_zc_long(ctx, tier):
    """Zadoff-Chu sequences of lengths used in practice."""
    Ls = (63, 101, 139, 255, 353, 511, 571, 839, 1009, 2047) + ((1151, 4095, 8191) if tier == "thorough" else ())
    ctx.bound("zc lengths", Ls)
    for L in Ls:
        for q in sorted({1, 2, 3, 25 % L, 129 % L, L // 2, L // 3, L - 2, L - 1}):
            if not 1 <= q < L:
                continue
            key = f"zc-long/{L}/{q}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                z = komm.ZadoffChuSequence(L, q)
                w = np.exp(-1j * math.pi * np.array([(q * n * (n + 1)) % (2 * L) for n in range(L)]) / L)
                ctx.close(np.array(z.sequence), w, key, "sequence", tol=1e-7)
                if math.gcd(q, L) == 1:
                    sh = [0, 1, 2, L // 2, L - 1, L, -1]
                    ctx.ok(bool(np.all(np.abs(np.array(z.cyclic_autocorrelation(shifts=sh)) - [L, 0, 0, 0, 0, L, 0]) < 1e-5 * L)), key, "cyclic autocorrelation")
                ctx.trace()
                ctx.outcome(key)


def tasks(tier):
    th = tier == "thorough"
    A = [-2, 0, 1]
    B = [0, 1, 1j, -1 - 1j]
    return [
        ("real", t_all, dict(tier=tier, name="real", alphabet=A, top=7 if th else 6)),
        ("float", t_all, dict(tier=tier, name="float", alphabet=[-0.5, 0.0, 1.25], top=6 if th else 5)),
        ("shifts", t_shifts, dict(tier=tier)),
        ("types", t_types, dict(tier=tier)),
        ("long", t_long, dict(tier=tier)),
        ("zc-long", t_zc_long, dict(tier=tier)),
        ("zc", t_zc, dict(tier=tier)),
    ] + [(f"complex/{i}", t_all, dict(tier=tier, name="complex", alphabet=B, top=6 if th else 5, part=i, parts=4)) for i in range(4)]
