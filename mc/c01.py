"""C01: every block code object is one consistent code: encoder, parity check, generator
and inverse agree on every word."""

import itertools

import numpy as np

import komm

from . import codes, ref
from .core import short

ASSUMPTIONS = ["codes outside the enumerated parameters are not covered"]


def consistent(ctx, key, code, n, k, wordset=None, G_ref=None, deep=True, cycle_words=None):
    """All the consistency obligations of one code object, over all 2^k messages and 2^n words."""
    with ctx.guard(key, "construction/metadata"):
        ctx.eq((int(code.length), int(code.dimension), int(code.redundancy)), (n, k, n - k), key, "length, dimension, redundancy")
        ctx.ok(abs(code.rate - k / n) < 1e-12, key, f"rate {code.rate} != {k}/{n}")
        G, H = np.array(code.generator_matrix), np.array(code.check_matrix)
        ctx.eq(G.shape, (k, n), key, "shape of G")
        ctx.eq(H.shape, (n - k, n), key, "shape of H")
        if G.shape != (k, n) or H.shape != (n - k, n):
            return
        ctx.ok(not np.any(G @ H.T % 2), key, f"G H^T != 0 for G={short(G)} H={short(H)}")
        ctx.ok(ref.rank(G) == k and ref.rank(H) == n - k, key, "rank of G or H")
        if G_ref is not None:
            ctx.eq(G, G_ref, key, "generator matrix as given")
        try:
            inv = np.array(code.generator_matrix_right_inverse)
        except NotImplementedError:  # cyclic codes have none
            inv = None
        if inv is not None:
            ctx.ok(inv.shape == (n, k) and np.array_equal(G @ inv % 2, np.eye(k, dtype=int)), key, f"right inverse of G: {short(inv)}")
        if hasattr(code, "parity_set"):
            ctx.eq(sorted([*map(int, code.parity_set), *map(int, code.information_set)]), list(range(n)), key, "parity set and information set")
        U = ref.words(k)
        V = U @ G % 2
        ctx.eq(code.encode(U), V, key, "encode(all messages) vs uG")
        ctx.step(len(U))
        Vset = set(ref.row_ints(V)) if n <= 62 else None
        if wordset is not None:
            ctx.ok(Vset == wordset, key, "codeword set differs from the family's definition")
        cw = np.array(code.codewords())
        ctx.eq(cw, V, key, "codewords() in message order")
        for i in range(len(U)) if len(U) <= 64 else (0, 1, 2, len(U) // 2, len(U) - 1):
            ctx.eq(code.encode(U[i]), V[i], key, f"encode({short(U[i])})")
            ctx.eq(code.inverse_encode(V[i]), U[i], key, f"inverse_encode({short(V[i])})")
            ctx.step(2)
        ctx.eq(code.inverse_encode(V), U, key, "inverse_encode(all codewords)")
        ctx.eq(code.project_word(V), U, key, "project_word(all codewords)")
        ctx.eq(np.count_nonzero(code.check(V)), 0, key, "check(codewords)")
        ctx.step(3 * len(V))
        ctx.trace(len(U))
        ctx.state(len(U))
        # every word of the space
        if n <= 12 and Vset is not None:
            R = ref.words(n)
            S = np.array(code.check(R))
            ctx.eq(S.shape, (2**n, n - k), key, "shape of check(all words)")
            if S.shape == (2**n, n - k):
                is_cw = ~np.any(S, axis=1)
                want = np.array([i in Vset for i in range(2**n)])
                ctx.ok(np.array_equal(is_cw, want), key, "check is zero exactly on the codewords")
                # the syndrome is a linear map: determined by the unit words
                E = S[[1 << j for j in range(n)]]
                ctx.ok(np.array_equal(S, R @ E % 2), key, "check is not linear")
                ctx.ok(np.array_equal(S, R @ H.T % 2), key, "check differs from the check matrix")
            ctx.step(2**n)
            ctx.state(2**n)
            if deep:
                for i in range(2**n):
                    if i not in Vset:
                        ctx.raises(ValueError, lambda: code.inverse_encode(R[i]), key, f"inverse_encode({short(R[i])})")
                        ctx.step()
        # several blocks per call and extra leading dimensions
        if k <= 3 and n <= 8:
            for i, j in itertools.product(range(2**k), repeat=2):
                ctx.eq(code.encode(np.concatenate([U[i], U[j]])), np.concatenate([V[i], V[j]]), key, "encode of two blocks")
                ctx.eq(code.inverse_encode(np.concatenate([V[i], V[j]])), np.concatenate([U[i], U[j]]), key, "inverse_encode of two blocks")
                ctx.step(2)
            bad = [i for i in range(2**n) if i not in Vset]
            for i in range(2**k):
                for b in bad[:4] + bad[-2:]:
                    for w, want in (([V[i], R[b]], [False, True]), ([R[b], V[i]], [True, False])):
                        ctx.raises(ValueError, lambda: code.inverse_encode(np.concatenate(w)), key, "one bad block of two")
                        s = np.array(code.check(np.concatenate(w))).reshape(2, -1)
                        ctx.ok([bool(x.any()) for x in s] == want, key, "check of two blocks")
                        ctx.step(2)
            A = np.stack([np.concatenate([U[i], U[-1 - i]]) for i in range(len(U))]).reshape(2, -1, 2 * k)
            B = np.stack([np.concatenate([V[i], V[-1 - i]]) for i in range(len(U))]).reshape(2, -1, 2 * n)
            ctx.eq(code.encode(A), B, key, "encode of a 3-d array")
            ctx.eq(code.project_word(B), A, key, "project_word of a 3-d array")
            ctx.eq(code.encode(A.tolist()), B, key, "encode of nested lists")
            ctx.step(3)
        for bad_len in {k + 1, 2 * k - 1} - {k, 2 * k}:
            if bad_len % k:
                ctx.raises(ValueError, lambda: code.encode(np.zeros(bad_len, int)), key, f"encode of length {bad_len}")
        for bad_len in {n + 1, 2 * n - 1} - {n, 2 * n}:
            if bad_len % n:
                ctx.raises(ValueError, lambda: code.check(np.zeros(bad_len, int)), key, f"check of length {bad_len}")
        if cycle_words is not None and n <= 20:
            ctx.ok(all(((w << 1) & ((1 << n) - 1)) | (w >> (n - 1)) in Vset for w in Vset), key, "code is not closed under cyclic shift")


def t_generator(ctx, n, k):
    ctx.bound("generator matrices", f"all full-rank {k}x{n}")
    for G in ref.full_rank_matrices(k, n):
        key = f"BlockCode(G={G.tolist()})"
        ctx.at(key)
        with ctx.guard(key):
            consistent(ctx, key, komm.BlockCode(generator_matrix=G), n, k, set(ref.row_ints(ref.span_words(G))), G)
        ctx.outcome(sorted(ref.row_ints(ref.span_words(G))))
    ctx.sample({"G": G.tolist()})


def t_check(ctx, n, m):
    ctx.bound("check matrices", f"all full-rank {m}x{n}")
    for H in ref.full_rank_matrices(m, n):
        key = f"BlockCode(H={H.tolist()})"
        ctx.at(key)
        R = ref.words(n)
        ws = set(ref.row_ints(R[~np.any(R @ H.T % 2, axis=1)]))
        with ctx.guard(key):
            code = komm.BlockCode(check_matrix=H)
            consistent(ctx, key, code, n, n - m, ws)
            ctx.eq(code.check_matrix, H, key, "check matrix as given")
        ctx.outcome(sorted(ws))
    ctx.sample({"H": H.tolist()})


def t_systematic(ctx, k, m):
    n = k + m
    ctx.bound("systematic", f"all {k}x{m} parity submatrices x all ordered information sets")
    for p in range(2 ** (k * m)):
        P = np.array(ref.to_bits(p, k * m)).reshape(k, m)
        sets = [("left", tuple(range(k))), ("right", tuple(range(m, n)))]
        sets += [(list(s), s) for s in itertools.permutations(range(n), k)]
        for arg, inf in sets:
            key = f"SystematicBlockCode({P.tolist()},{arg})"
            ctx.at(key)
            par = [j for j in range(n) if j not in inf]
            G = np.zeros((k, n), int)
            G[:, list(inf)] = np.eye(k, dtype=int)
            G[:, par] = P
            with ctx.guard(key):
                code = komm.SystematicBlockCode(P, information_set=arg)
                consistent(ctx, key, code, n, k, set(ref.row_ints(ref.span_words(G))), G, deep=n <= 4)
                ctx.eq(np.array(code.encode(ref.words(k)))[:, list(inf)], ref.words(k), key, "message sits on the information set")
        ctx.outcome(p)
    ctx.sample({"P": P.tolist(), "information_set": arg})
    # information sets that are not k-sublists of range(n) must be refused
    P = np.ones((k, m), int)
    for s in itertools.product(range(-1, n + 1), repeat=k):
        if len(set(s)) == k and all(0 <= j < n for j in s):
            continue
        ctx.state()
        ctx.step()
        ctx.raises(ValueError, lambda: komm.SystematicBlockCode(P, information_set=list(s)), f"SystematicBlockCode(k={k},m={m},{list(s)})", "invalid information set")


def t_cyclic(ctx, n):
    ctx.bound("cyclic", f"all divisors of X^{n}+1, systematic or not, built from either polynomial")
    for g in codes.factor_list(n):
        k = n - ref.pdeg(g)
        if k < 1:
            continue
        h = ref.pdivmod((1 << n) ^ 1, g)[0]
        ws = codes.cyclic_words(n, g)
        for sys_, how in itertools.product((True, False), ("generator", "check")):
            key = f"CyclicCode({n},g={g:#b},systematic={sys_},from={how})"
            ctx.at(key)
            with ctx.guard(key):
                if how == "generator":
                    code = komm.CyclicCode(n, generator_polynomial=g, systematic=sys_)
                else:
                    code = komm.CyclicCode(n, check_polynomial=h, systematic=sys_)
                ctx.eq((int(code.generator_polynomial), int(code.check_polynomial)), (g, h), key, "polynomials")
                consistent(ctx, key, code, n, k, ws, deep=n <= 9, cycle_words=True)
                if sys_:
                    ctx.eq(np.array(code.encode(ref.words(k)))[:, n - k:], ref.words(k), key, "systematic part")
                else:
                    got = ref.row_ints(code.encode(ref.words(k)))
                    ctx.ok(got == [ref.pmul(u, g) for u in range(2**k)], key, "non-systematic v(X) = u(X) g(X)")
        ctx.outcome(g)
    ctx.sample({"n": n, "g": bin(g)})
    for g in range(2, 1 << (n if n <= 7 else 5)):
        if ref.pdivmod((1 << n) ^ 1, g)[1]:
            ctx.state()
            ctx.step()
            ctx.raises(ValueError, lambda: komm.CyclicCode(n, generator_polynomial=g), f"CyclicCode({n},{g:#b})", "not a divisor")


def t_family(ctx, specs):
    for s in specs:
        key = s["name"]
        ctx.at(key)
        with ctx.guard(key):
            code = s["make"]()
            consistent(ctx, key, code, s["n"], s["k"], s.get("words"), deep=s["n"] <= 8,
                       cycle_words=True if key.startswith("BCH") else None)
        ctx.outcome(key)
    ctx.sample(key)


def t_bch_roots(ctx, mu):
    """BCH: delta accepted exactly when it is a Bose distance; the codewords vanish on alpha^1..alpha^(delta-1)."""
    n = 2**mu - 1
    for delta in range(2, n + 1):
        key = f"BCHCode({mu},{delta})"
        ctx.at(key)
        ctx.state()
        spec = codes.bch_spec(mu, delta)
        if spec is None:
            ctx.raises(ValueError, lambda: komm.BCHCode(mu, delta), key, "not a Bose distance")
            ctx.step()
            continue
        with ctx.guard(key):
            code = komm.BCHCode(mu, delta)
            g = int(code.generator_polynomial)
            ok = False
            for m in codes.gf_exp(mu):
                exp = [1]
                for _ in range(n - 1):
                    exp.append(ref.pmulmod(exp[-1], 2, m))
                def ev(e):
                    r = 0
                    for j in range(ref.pdeg(g) + 1):
                        if g >> j & 1:
                            r ^= exp[e * j % n]
                    return r
                if all(ev(e) == 0 for e in range(1, delta)):
                    ok = True
                ctx.step()
            ctx.ok(ok, key, f"generator polynomial {g:#b} has no primitive alpha with roots alpha^1..alpha^{delta-1}")
            ctx.eq((int(code.length), int(code.dimension)), (n, spec[0]), key, "parameters")
            ctx.trace()
        ctx.outcome(spec[0])
    ctx.sample({"mu": mu, "delta": delta})


def t_large(ctx, name, make, n, k):
    """Codes beyond exhaustive enumeration of words: matrices, unit and pairwise messages; all messages up to 2^18."""
    key = f"large/{name}"
    ctx.at(key)
    with ctx.guard(key):
        code = make()
        ctx.eq((int(code.length), int(code.dimension), int(code.redundancy)), (n, k, n - k), key, "length, dimension, redundancy")
        G, H = np.array(code.generator_matrix), np.array(code.check_matrix)
        ctx.eq((G.shape, H.shape), ((k, n), (n - k, n)), key, "shapes")
        ctx.ok(not np.any(G @ H.T % 2), key, "G H^T != 0")
        ctx.ok(ref.rank_ints([int("".join(map(str, r)), 2) for r in G.tolist()]) == k, key, "rank of G")
        ctx.ok(ref.rank_ints([int("".join(map(str, r)), 2) for r in H.tolist()]) == n - k, key, "rank of H")
        I = np.eye(k, dtype=int)
        U = np.vstack([np.zeros((1, k), int), I, np.ones((1, k), int)] + [I ^ np.roll(I, s, axis=1) for s in (1, 2, k // 2 or 1)])
        V = U @ G % 2
        ctx.eq(code.encode(U), V, key, "encode(unit and pair messages)")
        ctx.eq(code.inverse_encode(V), U, key, "inverse_encode")
        ctx.eq(code.check(np.eye(n, dtype=int)), H.T % 2, key, "syndromes of the unit words")
        for i in range(0, n, max(1, n // 9)):
            w = V[i % len(V)].copy()
            w[i] ^= 1
            ctx.raises(ValueError, lambda: code.inverse_encode(np.concatenate([V[1], w])), key, f"inverse_encode with an error in position {n + i}")
        ctx.step(3 * len(U) + n)
        ctx.state(len(U) + n)
        if k <= 18:
            W = ref.words(k)
            C = W @ G % 2
            ctx.eq(code.codewords(), C, key, "codewords() in message order")
            ctx.eq(code.codeword_weight_distribution(), np.bincount(C.sum(axis=1), minlength=n + 1), key, "weight distribution")
            ctx.eq(make().codeword_weight_distribution(), np.bincount(C.sum(axis=1), minlength=n + 1), key, "weight distribution asked first")
            ctx.eq(int(make().minimum_distance()), int(C.sum(axis=1)[1:].min()), key, "minimum distance")
            ctx.state(len(W))
            ctx.step(3 * len(W))
        ctx.trace(len(U))
        ctx.outcome(key)
        ctx.sample(name)


def large():
    K = 17
    P = [[(i * i + 3 * j * i + j // 2) % 5 % 2 for j in range(4)] for i in range(K)]
    G = np.hstack([np.array(P), np.eye(K, dtype=int)]).tolist()
    return [
        ("SingleParityCheckCode(19)", lambda: komm.SingleParityCheckCode(19), 19, 18),
        ("BlockCode(17x21)", lambda: komm.BlockCode(G), 21, 17),
        ("SystematicBlockCode(17+4)", lambda: komm.SystematicBlockCode(P, "right"), 21, 17),
        ("RepetitionCode(300)", lambda: komm.RepetitionCode(300), 300, 1),
        ("SimplexCode(8)", lambda: komm.SimplexCode(8), 255, 8),
        ("HammingCode(7)", lambda: komm.HammingCode(7), 127, 120),
        ("HammingCode(6,True)", lambda: komm.HammingCode(6, extended=True), 64, 57),
        ("ReedMullerCode(3,6)", lambda: komm.ReedMullerCode(3, 6), 64, 42),
        ("ReedMullerCode(1,8)", lambda: komm.ReedMullerCode(1, 8), 256, 9),
        ("BCHCode(7,21)", lambda: komm.BCHCode(7, 21), 127, 64),
        ("BCHCode(6,5)", lambda: komm.BCHCode(6, 5), 63, 51),
        ("CyclicCode(127,nonsys)", lambda: komm.CyclicCode(127, generator_polynomial=0b10001001, systematic=False), 127, 120),
        ("CyclicCode(73)", lambda: komm.CyclicCode(73, check_polynomial=0b1000000011), 73, 9),
        ("CordaroWagnerCode(200)", lambda: komm.CordaroWagnerCode(200), 200, 2),
        ("PolarCode(7)", lambda: komm.PolarCode(7, [i for i in range(128) if bin(i).count("1") < 4]), 128, 64),
        ("BCHCode(8,43)", lambda: komm.BCHCode(8, 43), 255, 115),
        ("BCHCode(8,111)", lambda: komm.BCHCode(8, 111), 255, 21),
        ("HammingCode(8)", lambda: komm.HammingCode(8), 255, 247),
        ("HammingCode(8,True)", lambda: komm.HammingCode(8, extended=True), 256, 247),
        ("SimplexCode(9)", lambda: komm.SimplexCode(9), 511, 9),
        ("ReedMullerCode(2,8)", lambda: komm.ReedMullerCode(2, 8), 256, 37),
        ("ReedMullerCode(5,8)", lambda: komm.ReedMullerCode(5, 8), 256, 219),
        ("PolarCode(8)", lambda: komm.PolarCode(8, [i for i in range(256) if bin(i).count("1") < 4][:-3] + [255 - 64]), 256, 256 - 91),
        ("CyclicCode(255)", lambda: komm.CyclicCode(255, generator_polynomial=0b100011101), 255, 247),
        ("CyclicCode(93,nonsys)", lambda: komm.CyclicCode(93, generator_polynomial=0b100101, systematic=False), 93, 88),
        ("SingleParityCheckCode(300)", lambda: komm.SingleParityCheckCode(300), 300, 299),
        ("SystematicBlockCode(40+30)", lambda: komm.SystematicBlockCode([[(i * i + 3 * j * i + j // 2) % 7 % 2 for j in range(30)] for i in range(40)], [(3 * i + 1) % 70 for i in range(40)]), 70, 40),
        ("TailBiting(65)", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o117, 0o155]]), 65, "tail-biting"), 130, 65),
        ("TerminatedConvolutionalCode(130,fb)", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0b10111, 0b11001]], [0b10111]), 130), 268, 130),
        ("TerminatedConvolutionalCode(40)", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0o117, 0o155]]), 40), 92, 40),
    ]


def tasks(tier):
    T = tier == "thorough"
    out = []
    N = 5 if T else 4
    for n in range(1, N + 1):
        for k in range(1, n + 1):
            if n == 5 and k > 3:
                continue
            out.append((f"G/{k}x{n}", t_generator, dict(n=n, k=k)))
            if k < n:
                out.append((f"H/{k}x{n}", t_check, dict(n=n, m=k)))
    for k, m in [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2)]:
        if k + m < 5 or T:
            out.append((f"systematic/{k}+{m}", t_systematic, dict(k=k, m=m)))
    for n in range(2, 16 if T else 13):
        out.append((f"cyclic/{n}", t_cyclic, dict(n=n)))
    if not T:
        out.append(("cyclic/15", t_cyclic, dict(n=15)))
    fam = list(codes.families(tier))
    groups = {}
    for s in fam:
        groups.setdefault(s["name"].split("(")[0], []).append(s)
    for g, ss in groups.items():
        step = 60 if g == "PolarCode" else 4
        for i in range(0, len(ss), step):
            out.append((f"family/{g}/{i}", t_family, dict(specs=ss[i : i + step])))
    for name, mk, n, k in large():
        out.append((f"large/{name}", t_large, dict(name=name, make=mk, n=n, k=k)))
    for mu in range(2, 7 if T else 6):
        out.append((f"bch/{mu}", t_bch_roots, dict(mu=mu)))
    return out
