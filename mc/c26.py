"""C26: binary sequences are the ones of their definitions: LFSR recurrences for every register, maximum-length,
Walsh-Hadamard and Barker sequences with their defining correlation properties."""

import itertools

import numpy as np

import komm

from .core import short

ASSUMPTIONS = [
    "the constructor arguments of a generic sequence are sequences of bits or of +1/-1",
    "an LFSR sequence has 2^n - 1 bits, whatever the period of the register",
]


def judge(ctx, key, s, bits):
    bits = [int(b) for b in bits]
    pol = [1 - 2 * b for b in bits]
    ctx.eq(s.bit_sequence, bits, key, "bit sequence")
    ctx.eq(s.polar_sequence, pol, key, "polar sequence")
    ctx.eq(s.length, len(bits), key, "length")
    ctx.trace()


def acorr(pol, l):
    n = len(pol)
    return sum(pol[i] * pol[i - l] for i in range(n) if 0 <= i - l < n)


def cyc(pol, l):
    n = len(pol)
    return sum(pol[i] * pol[(i - l) % n] for i in range(n))


def correlations(ctx, key, s, pol):
    L = len(pol)
    shifts = list(range(-L - 1, L + 2)) + [3 * L, -2 * L]
    a = [acorr(pol, l) for l in shifts]
    c = [cyc(pol, l) for l in shifts]
    ctx.eq(s.autocorrelation(shifts), a, key, "autocorrelation")
    ctx.eq(s.cyclic_autocorrelation(shifts), c, key, "cyclic autocorrelation")
    ctx.eq(s.autocorrelation(), [acorr(pol, l) for l in range(L)], key, "default autocorrelation")
    ctx.eq(s.cyclic_autocorrelation(), [cyc(pol, l) for l in range(L)], key, "default cyclic autocorrelation")
    ctx.close(s.autocorrelation(shifts=shifts, normalized=True), np.array(a) / L, key, "normalized autocorrelation", tol=1e-12)
    ctx.close(s.cyclic_autocorrelation(shifts=shifts, normalized=True), np.array(c) / L, key, "normalized cyclic autocorrelation", tol=1e-12)
    ctx.trace(6)


def t_generic(ctx, tier):
    top = 12 if tier == "thorough" else 9
    ctx.bound("length", top)
    for n in range(1, top + 1):
        for bits in itertools.product((0, 1), repeat=n):
            key = f"generic/{''.join(map(str, bits))}"
            ctx.at(key)
            pol = [1 - 2 * b for b in bits]
            ctx.state()
            with ctx.guard(key):
                s = komm.BinarySequence(bit_sequence=bits)
                judge(ctx, key, s, bits)
                t = komm.BinarySequence(polar_sequence=pol)
                judge(ctx, key, t, bits)
                if n <= 7 or tier == "thorough" and n <= 9:
                    correlations(ctx, key, s, pol)
                    correlations(ctx, key, t, pol)
                for arr in (np.array(bits, dtype=bool), np.array(bits, dtype=np.uint8), np.array(bits, dtype=np.int8), np.array(bits, dtype=float)):
                    judge(ctx, key, komm.BinarySequence(arr), bits)
                for arr in (np.array(pol, dtype=np.int8), np.array(pol, dtype=float)):
                    judge(ctx, key, komm.BinarySequence(polar_sequence=arr), bits)
    for args in ({}, dict(bit_sequence=[0, 1], polar_sequence=[1, -1])):
        ctx.raises(ValueError, lambda: komm.BinarySequence(**args), f"generic/reject/{sorted(args)}", "arguments")


def register(p, start, n, L):
    """Fibonacci register: output bit n-1, feedback into bit 0."""
    s = [(start >> (n - 1 - t)) & 1 for t in range(n)]
    taps = [i for i in range(1, n + 1) if (p >> i) & 1]
    while len(s) < L:
        t = len(s)
        s.append(sum(s[t - i] for i in taps) % 2)
    return s[:L]


def t_lfsr(ctx, tier, part, parts):
    top = 8 if tier == "thorough" else 6
    ctx.bound("degree", top)
    k = 0
    for n in range(1, top + 1):
        L = 2**n - 1
        for p in range(2**n + 1, 2 ** (n + 1), 2):
            k += 1
            if k % parts != part:
                continue
            for start in range(2**n):
                key = f"lfsr/{p:b}/{start:b}"
                ctx.at(key)
                ctx.state()
                with ctx.guard(key):
                    forms = [(p, start)]
                    if n <= 4:
                        forms += [(komm.BinaryPolynomial(p), komm.BinaryPolynomial(start))]
                    for a, b in forms:
                        s = komm.LFSRSequence(a, b)
                        judge(ctx, key, s, register(p, start, n, L))
                        ctx.ok(int(s.feedback_polynomial) == p and int(s.start_state_polynomial) == start, key, "attributes")
                    if start == 1:
                        judge(ctx, key, komm.LFSRSequence(p), register(p, 1, n, L))
                        judge(ctx, key, komm.LFSRSequence(feedback_polynomial=p), register(p, 1, n, L))
                    ctx.step(L)


def order_of_x(p, n):
    """Multiplicative order of X modulo p is 2^n - 1 (independent primitivity test)."""

    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            b >>= 1
            a <<= 1
            if a >> n:
                a ^= p
        return r

    def power(e):
        r, a = 1, 2 if n > 1 else 2 ^ p
        while e:
            if e & 1:
                r = mul(r, a)
            a = mul(a, a)
            e >>= 1
        return r

    N = 2**n - 1
    if power(N) != 1:
        return False
    m, q = N, 2
    while q * q <= m:
        if m % q == 0:
            if power(N // q) == 1:
                return False
            while m % q == 0:
                m //= q
        q += 1
    return not (1 < m < N and power(N // m) == 1)


def t_mls(ctx, tier):
    top = 16 if tier == "thorough" else 14
    ctx.bound("degrees of generated sequences", top)
    for n in range(1, top + 1):
        L = 2**n - 1
        starts = range(1, 2**n) if n <= 4 else sorted({1, 2, 3, 2 ** (n - 1), L, (1 << (n - 1)) | 1})
        for start in starts:
            key = f"mls/{n}/{start:b}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                s = komm.LFSRSequence.maximum_length_sequence(n, start)
                p = int(s.feedback_polynomial)
                ctx.ok(p >> n == 1 and p & 1 == 1, key, f"feedback polynomial {p:b}")
                bits = register(p, start, n, L)
                judge(ctx, key, s, bits)
                ctx.ok(type(s) is komm.LFSRSequence, key, "class")
                # every non-zero window of n bits is visited once: maximum length
                windows = {tuple(bits[(i + j) % L] for j in range(n)) for i in range(L)}
                ctx.ok(len(windows) == L and (0,) * n not in windows, key, "not of maximum length")
                ctx.ok(sum(bits) == 2 ** (n - 1), key, "balance")
                if n <= 10:
                    c = s.cyclic_autocorrelation()
                    ctx.eq(c, [L] + [-1] * (L - 1), key, "cyclic autocorrelation")
                ctx.step(L)
    # every documented degree has a primitive default polynomial (the sequences themselves are too long to spell out)
    from komm._algebra.BinaryPolynomial import default_primitive_polynomial

    for n in range(1, 25):
        key = f"default/{n}"
        with ctx.guard(key):
            p = int(default_primitive_polynomial(n))
            ctx.ok(p >> n == 1, key, f"degree of {p:b}")
            ctx.ok(order_of_x(p, n), key, f"{p:b} is not primitive")
            ctx.state()
            ctx.trace()
    for bad in (0, -1, 25, 100):
        ctx.raises(ValueError, lambda: komm.LFSRSequence.maximum_length_sequence(bad), f"mls/reject/{bad}", "degree")
    for bad in ((0,), (1,), (0b10,), (0b110,), (0b1000,), (0b1011, 0b1000), (0b11, 0b10)):
        ctx.raises(ValueError, lambda: komm.LFSRSequence(*bad), f"lfsr/reject/{bad}", "polynomials that describe no register")


def t_walsh(ctx, tier):
    top = 9 if tier == "thorough" else 7
    ctx.bound("log2 length", top)
    H = [[1]]
    for m in range(top + 1):
        L = 2**m
        if m:
            H = [r + r for r in H] + [r + [-x for x in r] for r in H]
        for i in range(L):
            key = f"walsh/{L}/{i}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                s = komm.WalshHadamardSequence(L, index=i)
                judge(ctx, key, s, [x < 0 for x in H[i]])
                s = komm.WalshHadamardSequence(length=L, ordering="natural", index=i)
                judge(ctx, key, s, [x < 0 for x in H[i]])
                t = komm.WalshHadamardSequence(length=L, ordering="sequency", index=i)
                row = [int(x) for x in t.polar_sequence]
                changes = sum(a != b for a, b in zip(row, row[1:]))
                ctx.ok(row in H and changes == i, key, f"sequency row {short(row)} has {changes} sign changes")
                judge(ctx, key, t, [x < 0 for x in row])
                ctx.ok(t.index == i and t.ordering == "sequency" and s.index == i and s.ordering == "natural", key, "attributes")
                if m <= 3:
                    correlations(ctx, key, s, H[i])
        for bad in (-1, L, L + 1):
            for o in ("natural", "sequency"):
                ctx.raises(ValueError, lambda: komm.WalshHadamardSequence(L, o, bad), f"walsh/reject/{L}/{bad}", "index")
        judge(ctx, f"walsh/{L}/default", komm.WalshHadamardSequence(L), [0] * L)
    for bad in (0, 3, 5, 6, 7, 9, 12, -4):
        ctx.raises(ValueError, lambda: komm.WalshHadamardSequence(bad), f"walsh/reject/{bad}", "length")
    for o in ("x", "", "Natural"):
        ctx.raises(ValueError, lambda: komm.WalshHadamardSequence(4, o), f"walsh/reject/{o}", "ordering")


def t_far(ctx, tier):
    """Lengths beyond those of a byte: every row of longer Walsh-Hadamard matrices, longer registers, longer sequences."""
    top = 11 if tier == "thorough" else 10
    ctx.bound("log2 length", top)
    for m in range(6, top + 1):
        L = 2**m
        t = np.arange(L)
        parity = np.array([i.bit_count() & 1 for i in range(L)])
        rows = set()
        for i in range(L):
            key = f"walsh/{L}/{i}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                want = parity[t & i]
                s = komm.WalshHadamardSequence(L, "natural", i)
                ctx.eq(s.bit_sequence, want, key, "natural row")
                u = komm.WalshHadamardSequence(L, "sequency", i)
                b = np.asarray(u.bit_sequence)
                # a row of the matrix is a linear function of the bits of the time; its coefficients are at the powers of two
                j = sum(int(b[1 << k]) << k for k in range(m))
                ctx.ok(b.shape == (L,) and np.array_equal(b, parity[t & j]) and np.count_nonzero(b[1:] != b[:-1]) == i, key, f"sequency row has {np.count_nonzero(b[1:] != b[:-1])} sign changes")
                ctx.eq(u.polar_sequence, 1 - 2 * b, key, "polar sequence")
                rows.add(j)
                ctx.step(3)
                ctx.trace(2)
        ctx.ok(len(rows) == L, f"walsh/{L}", "the sequency ordering is no permutation")
    # sparse registers of degree up to 16: all trinomials and all pentanomials with neighbouring taps
    deg = 16 if tier == "thorough" else 13
    for n in range(7, deg + 1):
        L = 2**n - 1
        for mid in [(a,) for a in range(1, n)] + [(a, a + 1, n - 1) for a in range(1, n - 2)] + [()]:
            p = 1 | 1 << n | sum(1 << a for a in mid)
            for start in (1, L, 1 << (n - 1)):
                key = f"lfsr/{p:b}/{start:b}"
                ctx.at(key)
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    s = np.asarray(komm.LFSRSequence(p, start).bit_sequence)
                    first = [(start >> (n - 1 - t)) & 1 for t in range(n)]
                    rec = sum(s[n - i : L - i] for i in range(1, n + 1) if p >> i & 1) % 2
                    ctx.ok(s.shape == (L,) and s[:n].tolist() == first and np.array_equal(s[n:], rec), key, "recurrence")
    # correlations of longer sequences, each shift
    for n, p in ((40, 0), (64, 7), (100, 11), (255, 3), (256, 5), (300, 13), (1000, 7)):
        bits = [(i * i * (p + 1) + i * p + (i // 3)) // 2 % 2 for i in range(n)]
        pol = np.array([1 - 2 * b for b in bits])
        key = f"long/{n}"
        ctx.state()
        with ctx.guard(key):
            s = komm.BinarySequence(bits)
            judge(ctx, key, s, bits)
            a = [int(pol[l:] @ pol[: n - l]) for l in range(n)]
            c = [int(pol @ np.roll(pol, l)) for l in range(n)]
            ctx.eq(s.autocorrelation(), a, key, "autocorrelation")
            ctx.eq(s.cyclic_autocorrelation(), c, key, "cyclic autocorrelation")
            sh = [-n - 3, -n, 1 - n, -5, -1, 0, n // 2, n - 1, n, n + 1, 5 * n + 2]
            ctx.eq(s.autocorrelation(sh), [a[abs(l)] if abs(l) < n else 0 for l in sh], key, "autocorrelation")
            ctx.eq(s.cyclic_autocorrelation(sh), [c[l % n] for l in sh], key, "cyclic autocorrelation")
            ctx.trace(4)


def recurrence(ctx, p, n, start):
    L = 2**n - 1
    key = f"lfsr/{p:b}/{start:b}"
    ctx.at(key)
    ctx.state()
    ctx.trace()
    with ctx.guard(key):
        s = np.asarray(komm.LFSRSequence(p, start).bit_sequence)
        first = [(start >> (n - 1 - t)) & 1 for t in range(n)]
        rec = sum(s[n - i : L - i] for i in range(1, n + 1) if p >> i & 1) % 2
        ctx.ok(s.shape == (L,) and s[:n].tolist() == first and np.array_equal(s[n:], rec), key, "recurrence")
        ctx.step(L)


def t_dense(ctx, tier):
    """Registers with many taps, and long ones."""
    deg = 15 if tier == "thorough" else 12
    ctx.bound("dense registers", f"degrees 7 to {deg}, all coefficients but up to two; all polynomials of degree 7 and 8 (three start states)")
    for n in (7, 8):
        for p in range(2**n + 1, 2 ** (n + 1), 2):
            for start in (1, 2**n - 1, p >> 1 & (2**n - 1)):
                recurrence(ctx, p, n, start)
    for n in range(9, deg + 1):
        for drop in [()] + [(a,) for a in range(1, n)] + [(a, b) for a in range(1, n) for b in range(a + 1, n) if (a + b) % 3 == 0]:
            p = (2 << n) - 1 - sum(1 << a for a in drop)
            recurrence(ctx, p, n, 1)
    for n in (17,) if tier != "thorough" else (16, 17, 18, 19):
        for p in ((2 << n) - 1, (1 << n) + 0b1011, (1 << n) + int("10" * (n // 2), 2) // 4 * 2 + 1):
            recurrence(ctx, p, n, (1 << (n - 1)) | 1)


def t_barker(ctx, tier):
    for L in range(-1, 20):
        key = f"barker/{L}"
        ctx.at(key)
        ctx.state()
        if L not in (2, 3, 4, 5, 7, 11, 13):
            ctx.raises(ValueError, lambda: komm.BarkerSequence(L), key, "length")
            continue
        with ctx.guard(key):
            s = komm.BarkerSequence(L)
            pol = [int(x) for x in s.polar_sequence]
            ctx.ok(s.length == len(pol) == L and set(pol) <= {1, -1}, key, "sequence")
            judge(ctx, key, s, [x < 0 for x in pol])
            bad = [l for l in range(1, L) if abs(acorr(pol, l)) > 1]
            ctx.ok(not bad, key, f"not a Barker sequence: off-peak correlation above 1 at {bad}")
            correlations(ctx, key, s, pol)


def tasks(tier):
    parts = 4
    return (
        [("generic", t_generic, dict(tier=tier)), ("mls", t_mls, dict(tier=tier)), ("walsh", t_walsh, dict(tier=tier)), ("barker", t_barker, dict(tier=tier)), ("far", t_far, dict(tier=tier)), ("dense", t_dense, dict(tier=tier))]
        + [(f"lfsr/{i}", t_lfsr, dict(tier=tier, part=i, parts=parts)) for i in range(parts)]
    )
