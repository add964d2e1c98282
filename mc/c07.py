"""C07: convolutional encoding is the power-series product u(D)G(D); state hand-over, state-space matrices and
the finite-state machine all describe that same encoder."""

import itertools

import numpy as np

import komm

from . import c08, conv, ref
from .core import short


def frac(x):
    return (int(x.numerator), int(x.denominator))


def one(ctx, spec, bits, chains):
    key = f"conv/{spec.name}"
    ctx.at(key)
    with ctx.guard(key):
        cc = spec.make()
        k, n = spec.k, spec.n
        ctx.eq((cc.num_input_bits, cc.num_output_bits), (k, n), key, "rates")
        G = cc.generator_matrix
        ctx.eq(G.shape, (k, n), key, "shape of G(D)")
        for i, j in itertools.product(range(k), range(n)):
            a, b = spec.num[i][j], spec.den[i][j]
            g = ref.pgcd(a, b)
            want = (ref.pdivmod(a, g)[0], ref.pdivmod(b, g)[0])
            ctx.eq(frac(G[i, j]), want, key, f"G[{i},{j}]")
        nus = [max([ref.pdeg(x) for x in list(spec.num[i]) + list(spec.den[i])] + [0]) for i in range(k)]
        # the definition asks for coprime rows
        if not spec.name.startswith("HighRate") or all(ref.pgcd(spec.num[i][n - 1], spec.den[i][n - 1]) == 1 for i in range(k)):
            ctx.eq(np.array(cc.constraint_lengths), np.array(nus), key, "constraint lengths")
            ctx.eq((cc.overall_constraint_length, cc.memory_order), (sum(nus), max(nus)), key, "overall constraint length and memory order")
        s = int(cc.degree)
        A, B, C, D = (np.array(x) for x in cc.state_space_representation())
        ctx.eq([A.shape, B.shape, C.shape, D.shape], [(s, s), (k, s), (s, n), (k, n)], key, "state-space shapes")
        fsm = cc.finite_state_machine()
        T, O = np.array(fsm.transitions), np.array(fsm.outputs)
        ctx.eq([T.shape, O.shape], [(2**s, 2**k)] * 2, key, "machine size")
        # every state, every input: matrices, machine and one-step encoding agree
        for si in range(2**s):
            sv = np.array(ref.to_bits(si, s), dtype=int)
            for x in range(2**k):
                xv = np.array(ref.to_bits(x, k), dtype=int)
                s1, v = (sv @ A + xv @ B) % 2, (sv @ C + xv @ D) % 2
                ctx.eq((int(T[si, x]), int(O[si, x])), (ref.to_int(s1), ref.to_int(v)), key, f"machine edge ({si},{x}) against the state-space matrices")
                got, st = cc.encode_with_state(xv, sv)
                ctx.ok(np.array_equal(got, v) and np.array_equal(st, s1), key, f"one step from state {sv.tolist()} with input {xv.tolist()}: {short(got)}, {short(st)}")
                ctx.step(2)
                ctx.state()
        # every message up to the bound, from the zero state
        L = max(1, bits // k)
        for l in range(1, L + 1):
            if l < L and l > 3:
                continue
            for u in conv.message_words(l, k):
                flat = u.ravel()
                before = flat.copy()
                got = cc.encode(flat)
                want = spec.encode(u).ravel()
                if not ctx.eq(got, want, key, f"encode({flat.tolist()})"):
                    break
                ctx.ok(np.array_equal(flat, before), key, "the input array was modified")
                v, fin = cc.encode_with_state(flat, np.zeros(s, dtype=int))
                ctx.eq(v, want, key, f"encode_with_state({flat.tolist()}, 0)")
                y, f2 = fsm.process([ref.to_int(b) for b in u], 0)
                ctx.eq(list(y), [ref.to_int(want[t * n : (t + 1) * n]) for t in range(l)], key, f"machine output for {flat.tolist()}")
                ctx.eq(int(f2), ref.to_int(fin), key, f"final state of the machine for {flat.tolist()}")
                ctx.step(3)
                ctx.trace()
                ctx.state()
        # every way of cutting a message into pieces, handing the state over
        for u in conv.message_words(min(L, chains), k):
            h = len(u)
            want = spec.encode(u).ravel()
            for cuts in itertools.product((0, 1), repeat=h - 1):
                edges = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [h]
                st = np.zeros(s, dtype=int)
                parts = []
                for a, b in zip(edges, edges[1:]):
                    held = st
                    copy = st.copy()
                    v, st = cc.encode_with_state(u[a:b].ravel(), st)
                    ctx.ok(np.array_equal(held, copy), key, "the initial state array was modified")
                    parts.append(np.array(v))
                    ctx.step()
                if not ctx.eq(np.concatenate(parts), want, key, f"{u.ravel().tolist()} encoded in pieces cut at {edges}"):
                    return
                ctx.trace()
        ctx.outcome((spec.name, want.tolist()))


def stream(L, seed):
    """A deterministic bit stream (degree-31 register)."""
    x, out = seed * 2654435761 % (1 << 31) | 1, []
    for _ in range(L):
        out.append(x & 1)
        x = x >> 1 | ((x ^ x >> 3) & 1) << 30
    return out


def large(ctx, spec):
    """Many states or very long polynomials: impulses on every input, long streams, cuts of every period; the complete
    machine against the matrices where it can be written down."""
    key = f"large/{spec.name}"
    ctx.at(key)
    with ctx.guard(key):
        cc = spec.make()
        k, n, s = spec.k, spec.n, int(cc.degree)
        G = cc.generator_matrix
        for i, j in itertools.product(range(k), range(n)):
            a, b = spec.num[i][j], spec.den[i][j]
            g = ref.pgcd(a, b)
            ctx.eq(frac(G[i, j]), (ref.pdivmod(a, g)[0], ref.pdivmod(b, g)[0]), key, f"G[{i},{j}]")
        nus = [max([ref.pdeg(x) for x in list(spec.num[i]) + list(spec.den[i])] + [0]) for i in range(k)]
        # the definition asks for coprime rows
        if not spec.name.startswith("HighRate") or all(ref.pgcd(spec.num[i][n - 1], spec.den[i][n - 1]) == 1 for i in range(k)):
            ctx.eq(np.array(cc.constraint_lengths), np.array(nus), key, "constraint lengths")
            ctx.eq((cc.overall_constraint_length, cc.memory_order), (sum(nus), max(nus)), key, "overall constraint length and memory order")
        m = max(nus)
        L = 2 * m + 5
        us = []
        for i, t in itertools.product(range(k), (0, 1, m // 2)):
            u = np.zeros((L, k), dtype=int)
            u[t, i] = 1
            us.append(u)
        us.append(np.ones((L, k), dtype=int))
        us += [np.array(stream(L * k, i)).reshape(L, k) for i in range(1, 4)]
        for c, u in enumerate(us):
            want = spec.encode(u).ravel()
            ctx.step()
            ctx.state()
            ctx.trace()
            if not ctx.eq(cc.encode(u.ravel()), want, key, f"message {c}"):
                return
            if c % 2:
                for period in (1, 3, m, m + 1):
                    st, parts = np.zeros(s, dtype=int), []
                    for a in range(0, L, period):
                        v, st = cc.encode_with_state(u[a : a + period].ravel(), st)
                        parts.append(v)
                    ctx.eq(np.concatenate(parts), want, key, f"message {c} in pieces of {period} blocks")
                    ctx.step(len(parts))
                    ctx.trace()
        if s + k <= 12:
            A, B, C, D = (np.array(x) for x in cc.state_space_representation())
            fsm = cc.finite_state_machine()
            T, O = np.array(fsm.transitions), np.array(fsm.outputs)
            S, X = ref.words(s), ref.words(k)
            S, X = (W[np.argsort(W @ (1 << np.arange(W.shape[1])))] for W in (S, X))
            nxt = ((S @ A)[:, None] + (X @ B)[None]) % 2 @ (1 << np.arange(s))
            out = ((S @ C)[:, None] + (X @ D)[None]) % 2 @ (1 << np.arange(n))
            ctx.ok(np.array_equal(T, nxt) and np.array_equal(O, out), key, "the machine is not that of the state-space matrices")
            ctx.step(2 ** (s + k))
            ctx.state(2**s)
            u = us[-1]
            y, fin = fsm.process([ref.to_int(b) for b in u], 0)
            want = spec.encode(u)
            ctx.eq(list(y), [ref.to_int(b) for b in want], key, "machine output")
            ctx.eq(int(fin), ref.to_int(cc.encode_with_state(u.ravel(), np.zeros(s, dtype=int))[1]), key, "final state of the machine")
        ctx.outcome(spec.name)


def t_long(ctx, specs, L):
    """Streams of thousands of symbols, whole and cut at powers of two."""
    ctx.bound("long streams", f"{L} blocks")
    for spec in specs:
        key = f"long/{spec.name}"
        ctx.at(key)
        with ctx.guard(key):
            cc = spec.make()
            u = np.array(stream(L * spec.k, 5)).reshape(L, spec.k)
            u[L // 3 : L // 2] = 0
            want = spec.encode(u).ravel()
            ctx.eq(cc.encode(u.ravel()), want, key, f"{L} blocks")
            for cut in (1 << (L.bit_length() - 2), 1000, L - 1):
                st, parts = np.zeros(int(cc.degree), dtype=int), []
                for a in range(0, L, cut):
                    v, st = cc.encode_with_state(u[a : a + cut].ravel(), st)
                    parts.append(v)
                ctx.eq(np.concatenate(parts), want, key, f"{L} blocks in pieces of {cut}")
                ctx.step(len(parts))
            ctx.state()
            ctx.trace()
            ctx.outcome((spec.name, int(want.sum())))
    ctx.sample(specs[0].name)


def t_large(ctx, specs):
    for s in specs:
        large(ctx, s)
    ctx.bound("encoders", len(specs))
    ctx.sample(specs[0].name)


def t_specs(ctx, specs, bits, chains):
    ctx.bound("message bits", bits)
    ctx.bound("blocks when cut in all ways", chains)
    ctx.bound("encoders", len(specs))
    for s in specs:
        one(ctx, s, bits, chains)
    ctx.sample(specs[0].name)


def t_linear(ctx, specs, bits):
    """Outputs from every start state are the superposition of zero-state and zero-input answers; malformed calls are refused."""
    for spec in specs:
        key = f"linear/{spec.name}"
        with ctx.guard(key):
            cc = spec.make()
            s, k = int(cc.degree), spec.k
            h = max(1, bits // k)
            zero = np.zeros(h * k, dtype=int)
            free = {}
            for si in range(2**s):
                sv = np.array(ref.to_bits(si, s), dtype=int)
                free[si] = [np.array(x) for x in cc.encode_with_state(zero, sv)]
                for u in conv.message_words(h, k):
                    v, fin = cc.encode_with_state(u.ravel(), sv)
                    v0, fin0 = cc.encode_with_state(u.ravel(), np.zeros(s, dtype=int))
                    ctx.ok(np.array_equal(v, free[si][0] ^ v0) and np.array_equal(fin, free[si][1] ^ fin0), key, f"superposition fails at state {sv.tolist()} input {u.ravel().tolist()}")
                    ctx.step(2)
                    ctx.state()
                ctx.trace()
            ctx.raises(ValueError, lambda: cc.encode_with_state(zero, np.zeros(s + 1, dtype=int)), key, "state of wrong length")
            ctx.raises(ValueError, lambda: cc.encode_with_state(zero, np.zeros((1, s), dtype=int)), key, "2-D state")
            if k > 1:
                ctx.raises(ValueError, lambda: cc.encode(np.zeros(k + 1, dtype=int)), key, "input not a multiple of k")
            ctx.outcome(spec.name)
    ctx.sample(spec.name)


def t_reject(ctx):
    C = komm.ConvolutionalCode
    for name, fn in [
        ("1-D feedforward", lambda: C([7, 5])), ("feedback length", lambda: C([[7, 5]], [7, 7])), ("2-D feedback", lambda: C([[7, 5]], [[7]])),
        ("low 2-D", lambda: komm.LowRateConvolutionalCode([[7, 5]])), ("high 2-D", lambda: komm.HighRateConvolutionalCode([[7, 5]])),
    ]:
        ctx.raises(ValueError, fn, f"reject/{name}", "malformed encoder accepted")
        ctx.step()
        ctx.state()
        ctx.trace()
    # 1/q(D) is a power series only if q has a constant term.
    for q in range(0, 32, 2):
        for make, name in [
            (lambda: C([[1, 3]], [q]), "feedback"), (lambda: C([[2, 6]], [q]), "feedback 2"), (lambda: C([[1, 3, 2], [2, 1, 7]], [7, q]), "second feedback"),
            (lambda: komm.HighRateConvolutionalCode([3, q]), "high rate"), (lambda: komm.HighRateConvolutionalCode([5, 7, q]), "high rate 2"),
        ]:
            ctx.raises(ValueError, lambda: make().encode([0, 1] * 2), f"reject/{name}/{q}", "encoder without power series accepted")
            ctx.raises(ValueError, lambda: make().finite_state_machine(), f"reject/{name}/{q}", "machine of an encoder without power series")
            ctx.step(2)
            ctx.state()
            ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    specs = conv.small_specs(T) + conv.tall_specs()
    named = conv.named_specs() + [conv.high(1, 1), conv.high(0, 1), conv.high(1, 1, 1), conv.fb([[7, 5]], [1]), conv.low(0, 0, 1), conv.high(5, 1), conv.high(0, 3)]
    out = [("reject", t_reject, {})]
    step = 40 if T else 60
    for i in range(0, len(specs), step):
        out.append((f"small/{i}", t_specs, dict(specs=specs[i : i + step], bits=8 if T else 6, chains=6 if T else 4)))
    for s in named:
        out.append((f"named/{s.name}", t_specs, dict(specs=[s], bits=10 if T else 8, chains=7 if T else 5)))
    top = c08.large_specs(T)[:: 3 if T else 9] + c08.minor_specs(T)[:: 3 if T else 9]
    top += [conv.high(*h) for h in itertools.combinations([0b1, 0b110, 0b10011, 0b101001, 0b1110101, 0b110000111, 0b1000100001], 3)]
    for d in (31, 32, 33, 61, 62) + ((20, 30, 40, 50, 60) if T else ()):
        a, b = 1 << d | 0b1011, 1 << d | 1 << d // 2 | 0b101
        top += [conv.ff([a, b]), conv.fb([[a, 3]], [b | 1]), conv.fb([[3, a]], [7]), conv.ff([a, 1, 0], [3, b, 2]), conv.low(a, b, 7)]
        top.append(conv.high(a, 0b101, b))
    for i in range(8):
        out.append((f"large/{i}", t_large, dict(specs=top[i::8])))
    for i in range(0, len(named), 4):
        out.append((f"long/{i}", t_long, dict(specs=named[i : i + 4], L=20000 if T else 3000)))
    lin = specs[:: 3 if T else 17] + [s for s in named if "79" not in s.name]
    for i in range(0, len(lin), 20):
        out.append((f"linear/{i}", t_linear, dict(specs=lin[i : i + 20], bits=6 if T else 4)))
    return out
