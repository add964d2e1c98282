"""C04: the maximum-likelihood decoders (exhaustive search, Wagner, Viterbi) return a message whose
codeword is at the optimum, for every received word over a quantised alphabet."""

import itertools

import numpy as np

import komm

from . import conv, ref, trellis
from .core import short

ASSUMPTIONS = ["soft inputs outside the quantised alphabets are not covered", "ties may be broken either way"]


def received(alphabet, n):
    return np.array(list(itertools.product(alphabet, repeat=n)), dtype=float)


def optimal(ctx, key, dec, U, V, R, soft, chunk=4096):
    """got[i] must be a message whose codeword has the best metric for R[i]."""
    k, n = U.shape[1], V.shape[1]
    index = {tuple(u): i for i, u in enumerate(U.tolist())}
    for c in range(0, len(R), chunk):
        X = R[c : c + chunk]
        with ctx.guard(key, f"decode of words {c}.."):
            got = np.array(dec.decode(X))
            ctx.step(len(X))
            if not ctx.eq(got.shape, (len(X), k), key, "shape of decoded array"):
                return
            cost = X @ V.T if soft else np.sum(X[:, None, :] != V[None, :, :], axis=2)
            best = cost.min(axis=1)
            for i in range(len(X)):
                j = index.get(tuple(got[i].tolist()))
                if j is None:
                    ctx.fail(key, f"r={short(X[i])}: {short(got[i])} is not a message", got[i])
                elif cost[i, j] > best[i] + 1e-9:
                    ctx.fail(key, f"r={short(X[i])}: decoded {short(got[i])} with metric {cost[i, j]}, optimum {best[i]}", got[i])
            ctx.state(len(X))
            ctx.trace(len(X))
            ctx.outcome((key, c))
    # one word at a time and several per row give the same optimum quality
    with ctx.guard(key, "single words"):
        for i in list(range(0, len(R), max(1, len(R) // 23)))[:24]:
            got1 = np.array(dec.decode(R[i].copy()))
            two = np.array(dec.decode(np.concatenate([R[i], R[-1 - i]])))
            ctx.ok(got1.shape == (k,) and np.array_equal(two[:k], got1), key, f"decode of {short(R[i])} alone and as first of two blocks differ")
            ctx.ok(two.shape == (2 * k,) and np.array_equal(two[k:], dec.decode(R[-1 - i].copy())), key, f"second of two blocks {short(R[-1 - i])}")
            ctx.step(3)
    if soft:  # values that differ in their last bits only, and values of very different strengths
        for vary in (trellis.fine, trellis.mixed):
            signs = (R[:: max(1, len(R) // 64)] < 0).astype(int)
            X = np.array([vary(r, i) for i, r in enumerate(signs)])
            cost = X @ V.T
            with ctx.guard(key, vary.__name__ + " values"):
                got = np.array(dec.decode(X))
                for i in range(len(X)):
                    j = index.get(tuple(got[i].tolist()))
                    ctx.ok(j is not None and cost[i, j] <= cost[i].min() + trellis.EXACT, key, f"r={X[i].tolist()}: decoded {short(got[i])}, not optimum", got[i])
                ctx.step(len(X))
                ctx.state(len(X))
    if soft:  # the decision does not depend on the scale of the received values
        X = R[:: max(1, len(R) // 300)]
        cost = X @ V.T
        for f in (1e5, 1e-5):
            with ctx.guard(key, f"words scaled by {f}"):
                got = np.array(dec.decode(X * f))
                for i in range(len(X)):
                    j = index.get(tuple(got[i].tolist()))
                    ctx.ok(j is not None and cost[i, j] <= cost[i].min() + 1e-9, key, f"r={short(X[i] * f)}: decoded {short(got[i])}, not optimum", got[i])
                ctx.step(len(X))
                ctx.state(len(X))


def t_lengthy(ctx, name, make):
    """Codes of large length and few codewords: every codeword with burst errors of every tenth length."""
    code = make()
    U = ref.words(int(code.dimension))
    V = U @ np.array(code.generator_matrix) % 2
    n = V.shape[1]
    key = f"lengthy/{name}"
    V = V[:: max(1, len(V) // 32)]
    R = []
    for v in V:
        for L in range(0, n + 1, max(1, n // 12)):
            for s in (0, n // 3):
                r = v.copy()
                r[(np.arange(L) + s) % n] ^= 1
                R.append(r)
    R = np.array(R)
    ctx.bound("words", f"{len(R)} words: codewords with bursts of errors; lengths up to 600")
    W = U @ np.array(code.generator_matrix) % 2
    optimal(ctx, key + "/hard", komm.ExhaustiveSearchDecoder(code), U, W, R, False)
    optimal(ctx, key + "/soft", komm.ExhaustiveSearchDecoder(code, input_type="soft"), U, W, (1.0 - 2 * R) * (1 + np.arange(n) % 3), True)
    ctx.sample(name)


def t_many(ctx, name, m):
    """More codewords than sixteen bits count: irregular codewords with errors, few words each."""
    k = 17
    P = trellis.pattern(k * m, 3, m, 2).reshape(k, m)
    if m == 1:
        P[:] = 1
    code = komm.SystematicBlockCode(P)
    U = ref.words(k)
    V = U @ np.array(code.generator_matrix) % 2
    n = k + m
    R = []
    for i in [1 << j for j in range(k)] + [2**k - 1 - (1 << j) for j in range(0, k, 3)] + [0, 2**k - 1, 2**16 - 1, 2**16 + 1, 99999]:
        r = V[i].copy()
        R.append(r.copy())
        r[(5 * i + 3) % n] ^= 1
        R.append(r)
    R = np.array(R)
    ctx.bound("words", f"{len(R)} words of a code with {len(U)} codewords")
    optimal(ctx, f"many/{name}/hard", komm.ExhaustiveSearchDecoder(code), U, V, R, False, 16)
    optimal(ctx, f"many/{name}/soft", komm.ExhaustiveSearchDecoder(code, input_type="soft"), U, V, (1.0 - 2 * R) * (1 + np.arange(n) % 3), True, 16)
    ctx.sample(name)


ALPH = {1: (-2.0, -0.5, 0.0, 1.0, 3.0), 2: (-2.0, -0.5, 0.0, 1.0, 3.0), 3: (-2.0, -0.5, 1.0, 3.0), 4: (-2.0, -0.5, 1.0, 3.0), 5: (-2.0, -0.5, 1.0), 6: (-2.0, 0.5, 1.0)}


def alph(n):
    return ALPH.get(n, (-1.0, 0.5) if n > 8 else (-2.0, 0.5, 1.0) if n < 8 else (-1.0, 0.5))


def t_exhaustive(ctx, n, k):
    ctx.bound("codes", f"all full-rank {k}x{n} generator matrices; words over {alph(n)}")
    R = received(alph(n), n)
    for G in ref.full_rank_matrices(k, n):
        key = f"ExhaustiveSearch-soft/G={G.tolist()}"
        ctx.at(key)
        with ctx.guard(key):
            U = ref.words(k)
            optimal(ctx, key, komm.ExhaustiveSearchDecoder(komm.BlockCode(G), input_type="soft"), U, U @ G % 2, R, True)
    ctx.sample({"G": G, "r": R[-1]})


def t_exhaustive_named(ctx, name, make):
    code = make()
    U = ref.words(int(code.dimension))
    V = U @ np.array(code.generator_matrix) % 2
    n = V.shape[1]
    key = f"ExhaustiveSearch/{name}"
    optimal(ctx, key + "-hard", komm.ExhaustiveSearchDecoder(code), U, V, ref.words(n), False)
    R = received((-1.0, 2.0), n) if n > 7 else received((-2.0, 0.5, 1.0), n)
    optimal(ctx, key + "-soft", komm.ExhaustiveSearchDecoder(code, input_type="soft"), U, V, R, True)
    ctx.sample({"code": name, "r": R[1]})


def t_wagner(ctx, n, alphabet):
    ctx.bound("words", f"{alphabet}^{n}")
    code = komm.SingleParityCheckCode(n)
    U = ref.words(n - 1)
    V = U @ np.array(code.generator_matrix) % 2
    optimal(ctx, f"Wagner/{n}", komm.WagnerDecoder(code), U, V, received(alphabet, n), True)
    ctx.sample({"n": n, "alphabet": alphabet})


def viterbi_case(ctx, spec, h, mode, budget, soft_alphabets):
    key = f"Viterbi/{spec.name}/h={h}/{mode}"
    ctx.at(key)
    with ctx.guard(key):
        cc = spec.make()
        code = komm.TerminatedConvolutionalCode(cc, h, mode)
        U = ref.words(h * spec.k)
        n = int(code.length)
        V = np.array(code.encode(U))
        if len(set(map(tuple, V.tolist()))) != len(U):
            return  # two messages share a codeword: the message is not determined
        if 2**n <= budget:
            optimal(ctx, key + "/hard", komm.ViterbiDecoder(code), U, V, ref.words(n), False)
        else:
            E = np.vstack([np.zeros((1, n), int), np.eye(n, dtype=int)] + ([np.eye(n, dtype=int) + np.roll(np.eye(n, dtype=int), s, axis=1) for s in (1, 3)] if n > 3 else []))
            R = ((V[:, None, :] + E[None]) % 2).reshape(-1, n)
            optimal(ctx, key + "/hard", komm.ViterbiDecoder(code), U, V, R[: 4 * budget], False)
        for A in soft_alphabets:
            if len(A) ** n <= budget:
                optimal(ctx, key + "/soft", komm.ViterbiDecoder(code, input_type="soft"), U, V, received(A, n), True)
                break


def t_viterbi(ctx, specs, hs, budget):
    ctx.bound("h", list(hs))
    ctx.bound("words", f"all 2^n and all soft words when at most {budget}, else all error patterns of weight <= 1 and two double-error families")
    for spec in specs:
        for h in hs:
            for mode in ("direct-truncation", "zero-termination"):
                viterbi_case(ctx, spec, h, mode, budget, [(-3.0, -1.0, 0.5, 2.0), (-2.0, 0.5, 1.0), (-1.0, 2.0)])
    ctx.sample(spec.name)


def t_long(ctx, spec, hs):
    """Frames of hundreds of blocks: the decoded message's codeword is at the least metric found by dynamic programming."""
    ctx.bound("h", list(hs))
    ctx.bound("words", "codewords of irregular messages with errors in about 1/2, 1/3, 1/5, 1/9, 1/20 and none of the positions, and irregular words; hard and soft")
    cc = spec.make()
    tr = trellis.of_code(cc)
    k, n = spec.k, spec.n
    for h in hs:
        for mode in ("direct-truncation", "zero-termination"):
            key = f"Viterbi/long/{spec.name}/h={h}/{mode}"
            ctx.at(key)
            with ctx.guard(key):
                code = komm.TerminatedConvolutionalCode(cc, h, mode)
                tails = trellis.tails(code, tr, h, k, n) if mode == "zero-termination" else None
                dec = {False: komm.ViterbiDecoder(code), True: komm.ViterbiDecoder(code, input_type="soft")}
                start = np.where(np.arange(tr.S) == 0, 0.0, np.inf)
                cases = []
                for i, every in enumerate((0, 2, 3, 5, 9, 20, 1, 1)):
                    v = np.array(code.encode(trellis.pattern(h * k, i)))
                    r = trellis.noisy(v, every, i)
                    cases += [(False, r), (True, trellis.soft(r, i)), (True, trellis.soft(r, i, 1e4))]
                    if i in (0, 2, 6):
                        exact = [trellis.fine(r, i), trellis.mixed(r, i)]
                        cases += [(True, x) for x in exact]
                    if i > 5:
                        cases.append((True, trellis.soft(r, i, 1e-4)))
                for is_soft, r in cases:
                    costs = []
                    for t in range(h):
                        z = r[t * n : (t + 1) * n]
                        Y = (np.arange(2**n)[:, None] >> np.arange(n)) & 1
                        costs.append(Y @ z if is_soft else (Y != z).sum(axis=1))
                    m = tr.least(start, costs)
                    rest = r[h * n :]
                    if tails is not None:
                        for s, tail in tails.items():
                            m[s] += tail @ rest if is_soft else (tail != rest).sum()
                        m = m[list(tails)]
                    best = float(m.min())
                    u = np.array(dec[is_soft].decode(np.array(r)))
                    ctx.step()
                    ctx.state()
                    ctx.trace()
                    if not ctx.ok(u.shape == (h * k,) and bool(np.isin(u, (0, 1)).all()), key, "decoded array is not a message"):
                        continue
                    v = np.array(code.encode(u))
                    c = float(v @ r) if is_soft else float((v != r).sum())
                    same = any(r is x for x in exact)
                    ctx.ok(c <= best + (trellis.EXACT if same else 1e-9 * np.abs(r).sum()), key, f"r={short(r, 120)}: decoded message has metric {c}, optimum {best}", u)
                    ctx.outcome((key, best))
    ctx.sample(spec.name)


def tasks(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 5):
        for k in range(1, n + 1):
            if (n, k) != (4, 4) and not (n == 4 and k == 3 and not T):
                out.append((f"exhaustive/{k}x{n}", t_exhaustive, dict(n=n, k=k)))
    out.append(("exhaustive/1x5", t_exhaustive, dict(n=5, k=1)))
    if T:
        out.append(("exhaustive/2x5", t_exhaustive, dict(n=5, k=2)))
    for name, mk in [
        ("Hamming(3)", lambda: komm.HammingCode(3)), ("Hamming(3,ext)", lambda: komm.HammingCode(3, extended=True)),
        ("Simplex(3)", lambda: komm.SimplexCode(3)), ("RM(1,3)", lambda: komm.ReedMullerCode(1, 3)),
        ("SystematicBlockCode", lambda: komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1], [1, 0, 1]], information_set=[4, 0, 2])),
        ("CyclicCode(7)", lambda: komm.CyclicCode(7, generator_polynomial=0b10111, systematic=False)),
        ("Repetition(5)", lambda: komm.RepetitionCode(5)), ("Polar(3)", lambda: komm.PolarCode(3, [0, 1, 2, 4])),
        ("CordaroWagner(6)", lambda: komm.CordaroWagnerCode(6)),
        ("TailBiting", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 4, "tail-biting")),
    ]:
        out.append((f"exhaustive/{name}", t_exhaustive_named, dict(name=name, make=mk)))
    for name, mk in [("Repetition(300)", lambda: komm.RepetitionCode(300)), ("Repetition(601)", lambda: komm.RepetitionCode(601)), ("Simplex(8)", lambda: komm.SimplexCode(8)), ("RM(1,7)", lambda: komm.ReedMullerCode(1, 7)), ("CordaroWagner(400)", lambda: komm.CordaroWagnerCode(400)), ("TailBiting(6)", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5, 3]] ), 8, "tail-biting"))]:
        out.append((f"lengthy/{name}", t_lengthy, dict(name=name, make=mk)))
    for m in (1, 5):
        out.append((f"many/17+{m}", t_many, dict(name=f"17+{m}", m=m)))
    for n, A in [(2, (-3.0, -1.0, 0.0, 0.5, 2.0)), (3, (-3.0, -1.0, 0.5, 2.0)), (4, (-3.0, -1.0, 0.5, 2.0)), (5, (-3.0, -1.0, 0.5, 2.0)), (6, (-2.0, 0.5, 1.0))]:
        out.append((f"wagner/{n}", t_wagner, dict(n=n, alphabet=A)))
    specs = conv.small_specs(False)
    step = 16
    one = [s for s in specs if s.k == 1]
    two = [s for s in specs if s.k == 2]
    for i in range(0, len(one), step):
        out.append((f"viterbi/k1/{i}", t_viterbi, dict(specs=one[i : i + step], hs=(1, 2, 3), budget=1024 if T else 256)))
    if not T:
        two = two[::4] + two[-12:]
    for i in range(0, len(two), step):
        out.append((f"viterbi/k2/{i}", t_viterbi, dict(specs=two[i : i + step], hs=(1, 2), budget=512 if T else 64)))
    out.append(("long/self-test", trellis.self_test, {}))
    for s in trellis.long_specs(conv):
        small = s.name.startswith("LowRateConvolutionalCode([79")
        hs = ((20, 65) if small else (20, 64, 65, 130, 300)) if not T else ((20, 64, 130) if small else (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600))
        out.append((f"long/{s.name}", t_long, dict(spec=s, hs=hs)))
    named = conv.named_specs()
    for i, s in enumerate(named):
        if s.name.startswith("LowRateConvolutionalCode([79"):
            continue
        out.append((f"viterbi/named/{s.name}", t_viterbi, dict(specs=[s], hs=(1, 2, 3) if s.k < 3 else (1, 2), budget=1024 if T else 256)))
    return out
