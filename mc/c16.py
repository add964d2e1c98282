"""C16: unary and Fibonacci coding are bijections between sequences of integers and parsable bit strings."""

import itertools

import numpy as np

import komm

from . import ref
from .core import short
from .trellis import pattern

FIB = [1, 2]
while FIB[-1] < 1 << 64:
    FIB.append(FIB[-1] + FIB[-2])


def fib(n):
    """Zeckendorf: greedy from the largest, least significant first, terminated by an extra one."""
    i = max(j for j, f in enumerate(FIB) if f <= n)
    out = [0] * (i + 1)
    for j in range(i, -1, -1):
        if FIB[j] <= n:
            out[j] = 1
            n -= FIB[j]
    assert n == 0
    return out + [1]


def unary(n):
    return [1] * n + [0]


KINDS = {"unary": (komm.UnaryCode, unary, 0), "fibonacci": (komm.FibonacciCode, fib, 1)}


def parse(kind, bits):
    """The sequence of integers, or None if the string ends inside a codeword."""
    out, cur = [], []
    for b in bits:
        cur.append(b)
        if kind == "unary" and b == 0:
            out.append(len(cur) - 1)
            cur = []
        elif kind == "fibonacci" and cur[-2:] == [1, 1]:
            out.append(sum(f for f, c in zip(FIB, cur[:-1]) if c))
            cur = []
    return None if cur else out


def t_strings(ctx, kind, L):
    C, enc, low = KINDS[kind]
    ctx.bound("strings", f"all bit strings up to length {L}")
    code = C()
    for bits in ref.seqs((0, 1), L):
        key = f"{kind}/{''.join(map(str, bits))}"
        want = parse(kind, bits)
        if want is None:
            ctx.raises(ValueError, lambda: code.decode(np.array(bits, dtype=int)), key, "string ending inside a codeword")
        else:
            with ctx.guard(key):
                x = np.array(code.decode(np.array(bits, dtype=int)))
                ctx.ok(x.tolist() == want and x.dtype.kind in "iu", key, f"decode = {short(x)}, expected {want}")
                y = np.array(code.encode(np.array(want, dtype=int)))
                ctx.ok(y.tolist() == list(bits) and y.dtype.kind in "iub", key, f"encode({want}) = {short(y)}")
                ctx.trace()
        ctx.step(2)
        ctx.state()
        ctx.outcome(want)
    ctx.sample(key)


def t_ints(ctx, kind, N, T, M):
    C, enc, low = KINDS[kind]
    ctx.bound("integers", f"all integers up to {N}, all sequences up to length {T} of integers below {M}" + (", and neighbours of all Fibonacci numbers and powers of two below 2^63" if kind == "fibonacci" else ", and around 2^14 to 2^17 and 10^6"))
    code = C()
    xs = list(range(low, N))
    if kind == "fibonacci":
        xs += sorted({v + d for v in [f for f in FIB if f < 1 << 63] + [1 << k for k in range(1, 64)] for d in (-1, 0, 1) if 1 <= v + d < 1 << 63})
    else:
        xs += [v + d for v in (2**14, 2**15, 2**16, 2**17, 10**6) for d in (-1, 0, 1)]
    for n in xs:
        key = f"{kind}/{n}"
        with ctx.guard(key):
            y = np.array(code.encode([n]))
            ctx.ok(y.tolist() == enc(n), key, f"encode = {short(y)}, expected {enc(n)}")
            z = np.array(code.decode(y))
            ctx.ok(z.tolist() == [n], key, f"decode(encode) = {short(z)}")
        ctx.step(2)
        ctx.state()
        ctx.trace()
    for s in ref.seqs(range(low, low + M), T):
        key = f"{kind}/{s}"
        with ctx.guard(key):
            y = np.array(code.encode(np.array(s, dtype=int)))
            want = [b for n in s for b in enc(n)]
            ctx.ok(y.tolist() == want, key, f"encode = {short(y)}, expected {want}")
            z = np.array(code.decode(y.astype(int)))
            ctx.ok(z.tolist() == list(s), key, f"decode(encode) = {short(z)}")
        ctx.outcome(tuple(want))
        ctx.step(2)
        ctx.state()
        ctx.trace()
    for bad in ([low - 1], [low, low - 1, low], [-5]):
        ctx.raises(ValueError, lambda: code.encode(bad), f"{kind}/bad/{bad}", "integer below the least admissible")
        ctx.step()
    for bad in ([2], [0, 1, 2, 0], [-1, 0]):
        ctx.raises(ValueError, lambda: code.decode(bad), f"{kind}/bad/{bad}", "symbol that is not a bit")
        ctx.step()
    ctx.sample(s)


def t_long(ctx, kind, lengths):
    """Long sequences of integers of mixed size, and every cutting of a long string at a codeword boundary."""
    C, enc, low = KINDS[kind]
    ctx.bound("long", f"sequences of {lengths} integers, largest {'2^61' if kind == 'fibonacci' else 300}")
    code = C()
    for n in lengths:
        for name, seq in [
            ("small", pattern(n, 1, 1, 4) + low),
            ("mixed", [low + int(v) % (1 << (3 + i % (58 if kind == "fibonacci" else 6))) for i, v in enumerate(pattern(n, 2, 2, 2**18).astype(object) * 2**43 + pattern(n, 3, 1, 2**18).astype(object) * 2**22 + pattern(n, 4, 1, 2**18).astype(object))]),
            ("least", [low] * n),
            ("ramp", [low + i % 300 for i in range(n)]),
        ]:
            seq = [int(v) for v in seq]
            key = f"{kind}/long/{name}/{n}"
            ctx.at(key)
            with ctx.guard(key):
                want = [b for v in seq for b in enc(v)]
                y = np.array(code.encode(np.array(seq, dtype=np.int64)))
                ctx.ok(y.tolist() == want, key, f"encode of {n} integers")
                z = np.array(code.decode(np.array(want)))
                ctx.ok(z.tolist() == seq, key, f"decode of {len(want)} bits")
                ends = np.cumsum([len(enc(v)) for v in seq])
                for k in sorted({0, n // 3, n - 2}):
                    ctx.ok(np.array(code.decode(np.array(want[: ends[k]]))).tolist() == seq[: k + 1], key, f"decode of the first {k + 1} codewords")
                    ctx.ok(np.array(code.decode(np.array(want[ends[k] :]))).tolist() == seq[k + 1 :], key, f"decode after the first {k + 1} codewords")
                    if len(enc(seq[k + 1])) > 1:
                        ctx.raises(ValueError, lambda: code.decode(np.array(want[: ends[k] + 1])), key, "string ending inside a codeword")
                ctx.step(8)
                ctx.state()
                ctx.trace()
                ctx.outcome((key, len(want)))


def tasks(tier):
    T = tier == "thorough"
    out = []
    for k in KINDS:
        out.append((f"strings/{k}", t_strings, dict(kind=k, L=16 + 2 * T)))
        out.append((f"long/{k}", t_long, dict(kind=k, lengths=(20, 257, 1025, 5000) if not T else (20, 255, 256, 257, 1000, 1023, 1025, 4097, 20000))))
        out.append((f"integers/{k}", t_ints, dict(kind=k, N=(30000 if k == "fibonacci" else 1200) * (1 + 4 * T), T=4, M=9 + 3 * T)))
    return out
