"""C28: bit conversion is exact for every word in both orders; sampling-rate conversion, convolution and Fourier
transform act along the chosen axis exactly as defined, for every shape, factor, offset and axis."""

import cmath
import itertools
import math

import numpy as np

import komm

from .core import short
from .trellis import pattern

ASSUMPTIONS = [
    "bits are 0 or 1; an integer wider than the requested width keeps its low-order bits (two's complement for negatives)",
    "convolution operands are not empty",
]


def t_bits(ctx, tier):
    top = 16 if tier == "thorough" else 12
    ctx.bound("exhaustive width", top)
    for w in range(top + 1):
        for v in range(2**w):
            key = f"bits/{w}/{v}"
            lsb = [(v >> i) & 1 for i in range(w)]
            msb = lsb[::-1]
            ctx.state()
            with ctx.guard(key):
                ok = (
                    list(komm.int_to_bits(v, w)) == lsb
                    and list(komm.int_to_bits(v, width=w, bit_order="LSB-first")) == lsb
                    and list(komm.int_to_bits(v, w, "MSB-first")) == msb
                    and komm.bits_to_int(lsb) == v
                    and komm.bits_to_int(lsb, bit_order="LSB-first") == v
                    and komm.bits_to_int(msb, "MSB-first") == v
                )
                ctx.ok(ok, key, "conversion")
                ctx.trace()
                if w <= 6:
                    for dt in (bool, np.uint8, np.int8, np.int64, float):
                        ctx.ok(komm.bits_to_int(np.array(lsb, dtype=dt)) == v and komm.bits_to_int(np.array(msb, dtype=dt), "MSB-first") == v, key, f"dtype {np.dtype(dt)}")
                    for dt in (np.uint8, np.int16, np.int64):
                        ctx.eq(komm.int_to_bits(dt(v), w), lsb, key, f"dtype {dt}")
        # whole table at once
        with ctx.guard(f"bits/table/{w}"):
            T = np.array([[(v >> i) & 1 for i in range(w)] for v in range(2**w)], dtype=int).reshape(2**w, w)
            ctx.eq(komm.int_to_bits(range(2**w), w), T, f"bits/table/{w}", "table")
            ctx.eq(komm.int_to_bits(np.arange(2**w), w, "MSB-first"), T[:, ::-1], f"bits/table/{w}", "table")
            if w:
                ctx.eq(komm.bits_to_int(T), np.arange(2**w), f"bits/table/{w}", "table")
                ctx.eq(komm.bits_to_int(T[:, ::-1], "MSB-first"), np.arange(2**w), f"bits/table/{w}", "table")
                if w <= 8:
                    ctx.eq(komm.bits_to_int(T.reshape(2, -1, w)), np.arange(2**w).reshape(2, -1), f"bits/table/{w}", "3D")
                    ctx.eq(komm.int_to_bits(np.arange(2**w).reshape(2, -1), w), T.reshape(2, -1, w), f"bits/table/{w}", "2D")
                    ctx.eq(komm.bits_to_int(np.asfortranarray(T)), np.arange(2**w), f"bits/table/{w}", "Fortran order")
    for o in ("", "lsb", "LSB", None):
        ctx.raises(ValueError, lambda: komm.bits_to_int([0, 1], o), f"bits/reject/{o}", "bit order")
        ctx.raises(ValueError, lambda: komm.int_to_bits(1, 2, o), f"bits/reject/{o}", "bit order")


def t_wide(ctx, tier):
    """Words with at most two ones or two zeros, of all widths around and beyond the machine word."""
    widths = list(range(60, 70)) + [7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 129, 200]
    for w in widths:
        pos = range(w) if w <= 70 else sorted({0, 1, 7, 8, 62, 63, 64, 65, w - 2, w - 1})
        vals = {0, 2**w - 1} | {1 << i for i in pos} | {2**w - 1 - (1 << i) for i in pos} | {(1 << i) | (1 << j) for i in pos for j in pos if w <= 20 or (i - j) % 13 == 0}
        vals = sorted(vals)
        key = f"wide/{w}"
        ctx.at(key)
        for v in vals:
            lsb = [(v >> i) & 1 for i in range(w)]
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                ctx.ok(komm.bits_to_int(lsb) == v and komm.bits_to_int(lsb[::-1], "MSB-first") == v, key, f"bits_to_int of {v}")
                ctx.ok(list(komm.int_to_bits(v, w)) == lsb and list(komm.int_to_bits(v, w, "MSB-first")) == lsb[::-1], key, f"int_to_bits of {v}")
        for a, b in itertools.product([0, 1, 2 ** (w - 1), 2**w - 1, 2**w - 2], repeat=2):
            rows = [[(v >> i) & 1 for i in range(w)] for v in (a, b)]
            with ctx.guard(key):
                ctx.ok([int(x) for x in komm.bits_to_int(rows)] == [a, b], key, f"array of {a} and {b}")
                ctx.ok([int(x) for x in komm.bits_to_int([r[::-1] for r in rows], "MSB-first")] == [a, b], key, f"array of {a} and {b}")
                ctx.eq(komm.int_to_bits([a, b], w), rows, key, f"array of {a} and {b}")
                ctx.trace()


SHAPES = [(n,) for n in range(8)] + [(a, b) for a in range(1, 5) for b in range(0, 6)] + [(2, 3, 4), (1, 2, 5), (3, 1, 2), (2, 2, 2, 3)]


def fill(shape, dt):
    n = int(np.prod(shape))
    v = np.arange(1, n + 1)
    return (v * (1 - 2j) if dt is complex else v * 0.5 if dt is float else v % 2 if dt is bool else v).astype(dt).reshape(shape)


def t_rate(ctx, tier):
    top = 7 if tier == "thorough" else 5
    ctx.bound("factor", top)
    for shape in SHAPES:
        for axis in range(-len(shape), len(shape)):
            for M in range(1, top + 1):
                for off in range(M):
                    key = f"rate/{shape}/{axis}/{M}/{off}"
                    ctx.at(key)
                    ctx.state()
                    for dt in (int, float, complex, bool) if M <= 2 else (int,):
                        x = fill(shape, dt)
                        N = shape[axis]
                        with ctx.guard(key):
                            keep = x.copy()
                            xm = np.moveaxis(x, axis, 0)
                            want = [xm[i] for i in range(N) if i % M == off]
                            want = np.moveaxis(np.array(want, dtype=dt).reshape((len(want),) + xm.shape[1:]), 0, axis)
                            got = komm.sampling_rate_compress(x, M, off, axis)
                            ctx.eq(got, want, key, "compress")
                            e = np.zeros((N * M,) + xm.shape[1:], dtype=dt)
                            for i in range(N):
                                e[i * M + off] = xm[i]
                            up = komm.sampling_rate_expand(x, factor=M, offset=off, axis=axis)
                            ctx.eq(up, np.moveaxis(e, 0, axis), key, "expand")
                            ctx.ok(up.dtype == dt and got.dtype == dt, key, "dtype")
                            ctx.eq(komm.sampling_rate_compress(up, M, off, axis), x, key, "compress after expand")
                            up[...] = 1
                            ctx.eq(x, keep, key, "input modified")
                            ctx.trace(3)
                            if off == 0 and axis == -1:
                                ctx.eq(komm.sampling_rate_compress(x.tolist(), M), want, key, "defaults") if x.size else None
                                ctx.eq(komm.sampling_rate_expand(x.tolist(), M), e if x.ndim == 1 else np.moveaxis(e, 0, axis), key, "defaults") if x.size else None
    for M, off in ((0, 0), (-1, 0), (2, 2), (2, -1), (3, 3), (1, 1), (5, 7)):
        for f in (komm.sampling_rate_compress, komm.sampling_rate_expand):
            ctx.raises(ValueError, lambda: f([1, 2, 3], M, off), f"rate/reject/{M}/{off}", "factor or offset")


def conv(a, b, mode):
    n, m = len(a), len(b)
    full = [sum(a[i] * b[k - i] for i in range(n) if 0 <= k - i < m) for k in range(n + m - 1)]
    if mode == "full":
        return full
    big, small = max(n, m), min(n, m)
    if mode == "same":
        s = (small - 1) // 2
        return full[s : s + big]
    return full[small - 1 : big]


def t_conv(ctx, tier):
    top = 4 if tier == "thorough" else 3
    A = [-1, 0, 2]
    ctx.bound("length", top)
    seqs = [x for n in range(1, top + 1) for x in itertools.product(A, repeat=n)]
    for a in seqs:
        for b in seqs:
            if len(a) + len(b) > 2 * top - 1 + (len(a) == len(b)):
                continue
            key = f"convolve/{a}/{b}"
            ctx.state()
            with ctx.guard(key):
                for mode in ("full", "same", "valid"):
                    w = conv(a, b, mode)
                    ctx.eq(komm.convolve(a, b, mode=mode), w, key, mode)
                ctx.eq(komm.convolve(a, b), conv(a, b, "full"), key, "default")
                ctx.trace(4)
    for shape in [(2, 3), (3, 2), (1, 4), (4, 1), (2, 2, 3), (2, 3, 2)]:
        for axis in range(-len(shape), len(shape)):
            for h in ([1], [1, -2], [1j, 2, 3], [0.5, 0, 0, 1], [1, 2, 3, 4, 5]):
                for mode in ("full", "same", "valid"):
                    for dt in (int, complex):
                        key = f"convolve/{shape}/{axis}/{h}/{mode}"
                        ctx.state()
                        with ctx.guard(key):
                            x = fill(shape, dt)
                            xm = np.moveaxis(x, axis, -1)
                            w = np.array([conv(list(r), h, mode) for r in xm.reshape(-1, shape[axis])])
                            w = np.moveaxis(w.reshape(xm.shape[:-1] + (-1,)), -1, axis)
                            ctx.close(komm.convolve(x, h, axis=axis, mode=mode), w, key, "N-D first", tol=1e-12)
                            ctx.close(komm.convolve(h, x, axis=axis, mode=mode), w, key, "N-D second", tol=1e-12)
                            ctx.trace(2)
    ctx.raises(ValueError, lambda: komm.convolve([[1, 1]], [[1, 1]]), "convolve/reject", "two 2D operands")


def t_fourier(ctx, tier):
    for shape in [(n,) for n in range(1, 9)] + [(2, 3), (3, 4), (4, 1), (2, 3, 2), (5, 2)]:
        for axis in range(-len(shape), len(shape)):
            for nfft in [None] + list(range(1, 11)):
                for dt in (0.1, 1.0, 2.5):
                    key = f"fourier/{shape}/{axis}/{nfft}/{dt}"
                    ctx.at(key)
                    ctx.state()
                    for typ in (int, complex):
                        with ctx.guard(key):
                            x = fill(shape, typ)
                            N = nfft or shape[axis]
                            xm = np.moveaxis(x, axis, -1)
                            ks = list(range(-(N // 2), (N + 1) // 2))
                            w = [[dt * sum(r[i] * cmath.exp(-2j * math.pi * k * i / N) for i in range(min(N, len(r)))) for k in ks] for r in xm.reshape(-1, shape[axis])]
                            w = np.moveaxis(np.array(w).reshape(xm.shape[:-1] + (N,)), -1, axis)
                            S, f = komm.fourier_transform(x, dt, nfft=nfft, axis=axis)
                            ctx.close(S, w, key, "spectrum", tol=1e-9)
                            ctx.close(f, [k / (N * dt) for k in ks], key, "frequencies", tol=1e-12)
                            ctx.trace()
                            if axis == -1 and nfft is None:
                                S, f = komm.fourier_transform(x.tolist(), time_step=dt)
                                ctx.close(S, w, key, "spectrum, defaults", tol=1e-9)


def t_long(ctx, tier):
    """Longer arrays, larger factors, longer filters and spectra."""
    big = tier == "thorough"
    ctx.bound("long", "factors up to 300 on arrays of up to 5000; filters of up to 600 taps on arrays of up to 3000; spectra of up to 100003 points")
    for N in (100, 255, 257, 1000, 5000):
        for M in (8, 9, 16, 31, 64, 100, 255, 256, 300):
            for off in sorted({0, 1, M // 2, M - 1}):
                key = f"rate/long/{N}/{M}/{off}"
                ctx.at(key)
                with ctx.guard(key):
                    x = pattern(N, M, off, 1000) - 500
                    ctx.eq(komm.sampling_rate_compress(x, M, off), x[off::M], key, "compress")
                    if N * M <= 300000:
                        e = np.zeros(N * M, dtype=int)
                        e[off::M] = x
                        ctx.eq(komm.sampling_rate_expand(x, M, off), e, key, "expand")
                        X = np.stack([x, x[::-1]], axis=1)
                        E = np.stack([e, np.zeros_like(e)], axis=1)
                        E[off::M, 1] = x[::-1]
                        ctx.eq(komm.sampling_rate_expand(X, M, off, axis=0), E, key, "expand, axis 0")
                        ctx.eq(komm.sampling_rate_compress(E, M, off, axis=0), X, key, "compress, axis 0")
                    ctx.state()
                    ctx.trace()
                    ctx.step(4)
    for n, m in ((16, 17), (33, 8), (64, 64), (100, 3), (255, 130), (501, 500), (1000, 7), (1024, 257), (3000, 600), (1, 700), (2, 513)):
        a = pattern(n, 3, m, 19) - 9
        b = pattern(m, 4, n, 23) - 11
        full = np.zeros(n + m - 1, dtype=np.int64)
        for j in range(m):
            full[j : j + n] += a * b[j]
        small, large = min(n, m), max(n, m)
        for mode, want in (("full", full), ("same", full[(small - 1) // 2 :][:large]), ("valid", full[small - 1 : large])):
            key = f"convolve/long/{n}/{m}/{mode}"
            ctx.at(key)
            with ctx.guard(key):
                for x, y in ((a, b), (b, a)):
                    ctx.close(np.asarray(komm.convolve(x, y, mode=mode), dtype=complex), want.astype(complex), key, "integer", tol=1e-7)
                    ctx.close(komm.convolve(x * (1 + 2j), y * 1j, mode=mode), want * (1 + 2j) * 1j, key, "complex", tol=1e-7)
                if n >= m:
                    X = np.stack([a, 2 * a, a * 0])
                    ctx.close(np.asarray(komm.convolve(X, b, mode=mode), dtype=float), np.stack([want, 2 * want, 0 * want]).astype(float), key, "rows", tol=1e-7)
                    ctx.close(np.asarray(komm.convolve(b, X.T, axis=0, mode=mode), dtype=float), np.stack([want, 2 * want, 0 * want]).T.astype(float), key, "columns", tol=1e-7)
                ctx.state()
                ctx.trace(4)
                ctx.step(4)
    for N in (16, 31, 64, 100, 127, 128, 255, 257) + ((512, 1000) if big else ()):
        i = np.arange(N)
        for L in sorted({N, N // 2, N - 1, N + 1, 2 * N + 3}):
            x = (pattern(L, N, 1, 9) - 4) + 1j * (pattern(L, N, 2, 7) - 3)
            key = f"fourier/long/{L}/{N}"
            ctx.at(key)
            with ctx.guard(key):
                ks = np.arange(-(N // 2), (N + 1) // 2)
                y = np.zeros(N, dtype=complex)
                y[: min(L, N)] = x[:N]
                W = np.array([np.exp(-2j * np.pi * ((int(k) * i) % N) / N) for k in ks])
                for dt in (1.0, 1e-3, 7.5):
                    S, f = komm.fourier_transform(x, dt, nfft=N)
                    ctx.close(S, dt * (W @ y), key, "spectrum", tol=1e-7 * dt)
                    ctx.close(f, ks / (N * dt), key, "frequencies", tol=1e-9 / dt)
                if L == N:
                    S, f = komm.fourier_transform(np.stack([x, x * 2j], axis=1), 0.5, axis=0)
                    ctx.close(S, np.stack([W @ y, W @ y * 2j], axis=1) * 0.5, key, "columns", tol=1e-7)
                ctx.state()
                ctx.trace(4)
                ctx.step(4)
                ctx.outcome(key)
    for N in (1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 10000, 16385, 65536, 65537, 100003):
        for pos in (0, 1, N // 3, N - 1):
            key = f"fourier/pulse/{N}/{pos}"
            with ctx.guard(key):
                x = np.zeros(N)
                x[pos] = 2.0
                S, f = komm.fourier_transform(x, 0.25)
                ks = np.arange(-(N // 2), (N + 1) // 2)
                ctx.close(S, 0.5 * np.exp(-2j * np.pi * ((ks * pos) % N) / N), key, "spectrum", tol=1e-9)
                ctx.close(f, ks / (N * 0.25), key, "frequencies", tol=1e-9)
                ctx.state()
                ctx.trace()


def tasks(tier):
    k = dict(tier=tier)
    return [("bits", t_bits, k), ("wide", t_wide, k), ("rate", t_rate, k), ("convolve", t_conv, k), ("fourier", t_fourier, k), ("long", t_long, k)]
