"""C02: distances, weight distributions, coset leaders and radii equal the exhaustive ones,
whatever was asked of the object before."""

import itertools
import math

import numpy as np

import komm

from . import codes, ref
from .core import short

ASSUMPTIONS = ["codes outside the enumerated parameters are not covered"]

QUERIES = [
    "codewords", "codeword_weight_distribution", "minimum_distance", "coset_leaders",
    "coset_leader_weight_distribution", "packing_radius", "covering_radius",
]


class Truth:
    """Everything by brute force over the code's own row space / the family's definition."""

    def __init__(self, words, n, k):
        self.n, self.k = n, k
        self.words = sorted(words)
        wd = np.zeros(n + 1, dtype=int)
        for w in self.words:
            wd[bin(w).count("1")] += 1
        self.cwd = wd
        self.d = min(bin(w).count("1") for w in self.words if w)
        self.clwd = None
        if n <= 16:
            W = np.array(self.words, dtype=np.int64)
            pop = np.array([bin(i).count("1") for i in range(1 << min(n, 16))])
            best = np.full(1 << n, 99)
            allw = np.arange(1 << n)
            done = np.zeros(1 << n, dtype=bool)
            cl = np.zeros(n + 1, dtype=int)
            for x in np.argsort(pop[: 1 << n], kind="stable"):
                if not done[x]:
                    done[W ^ x] = True
                    best[W ^ x] = pop[x]
                    cl[pop[x]] += 1
            self.clwd = cl
            self.cosetmin = best
            self.cov = int(np.flatnonzero(cl)[-1])

    def expected(self, q):
        return {
            "codeword_weight_distribution": self.cwd, "minimum_distance": self.d,
            "coset_leader_weight_distribution": self.clwd, "packing_radius": (self.d - 1) // 2,
            "covering_radius": self.cov,
        }.get(q)


def judge(ctx, key, q, got, T, code):
    if q == "codewords":
        ctx.ok(sorted(ref.row_ints(got)) == T.words, key, "codewords()")
        ctx.eq(got, code.encode(ref.words(T.k)), key, "codewords(): row i encodes the bits of i")
    elif q == "coset_leaders":
        L = np.array(got)
        if not ctx.eq(L.shape, (2 ** (T.n - T.k), T.n), key, "shape of coset_leaders()"):
            return
        S = L @ np.array(code.check_matrix).T % 2
        ctx.eq(S, ref.words(T.n - T.k), key, "coset leader in row i has syndrome i")
        ctx.eq(np.array(code.check(L)).reshape(S.shape), S, key, "check() of the leaders is their syndrome")
        ctx.ok(all(bin(x).count("1") == T.cosetmin[x] for x in ref.row_ints(L)), key, "coset leaders of minimal weight")
        ctx.ok(sorted(bin(x).count("1") for x in ref.row_ints(L)) == sorted(np.repeat(np.arange(T.n + 1), T.clwd)), key, "leader weights")
    else:
        ctx.eq(got, T.expected(q), key, q)
    ctx.step()


def all_queries(ctx, key, code, T, orders):
    for order in orders:
        with ctx.guard(key, f"history {order}"):
            c = code()
            for q in order:
                judge(ctx, f"{key}", q, getattr(c, q)(), T, c)
            ctx.state()
            ctx.trace()
    ctx.outcome((T.d, T.cwd.tolist(), T.clwd.tolist()))


def slepian(ctx, key, code, T):
    with ctx.guard(key, "Slepian array"):
        k, m, n = T.k, T.n - T.k, T.n
        sa = komm.SlepianArray(code)
        seen = set()
        U = ref.words(k)
        V = np.array(code.encode(U))
        for i in range(2**m):
            row = np.array(sa.row(i))
            if not ctx.eq(row.shape, (2**k, n), key, "shape of row"):
                return
            ctx.eq(row, (row[0] + V) % 2, key, "row i is leader + codewords in message order")
            ctx.ok(np.array_equal(row[0] @ np.array(code.check_matrix).T % 2, ref.to_bits(i, m)), key, "row index is the syndrome")
            seen |= set(ref.row_ints(row))
            ctx.step()
        ctx.ok(len(seen) == 2**n, key, "every word appears exactly once")
        for j in range(2**k):
            col = np.array(sa.col(j))
            ctx.eq(col, np.array([sa.entry(i, j) for i in range(2**m)]).reshape(2**m, n), key, "col vs entry")
            ctx.step()
        ctx.eq(sa.col(0), code.coset_leaders(), key, "first column holds the coset leaders")


PAIRS = [p for p in itertools.permutations(QUERIES, 2)] + [(q,) for q in QUERIES]
FEW = [tuple(QUERIES), tuple(reversed(QUERIES)), ("covering_radius", "coset_leaders", "coset_leader_weight_distribution"),
       ("coset_leader_weight_distribution", "coset_leaders", "codeword_weight_distribution", "codewords", "codeword_weight_distribution", "minimum_distance", "packing_radius")]


def t_matrices(ctx, n, k, how):
    ctx.bound("codes", f"all full-rank {k}x{n} matrices, given as {how}")
    for M in ref.full_rank_matrices(k, n):
        key = f"BlockCode({how}={M.tolist()})"
        ctx.at(key)
        if how == "G":
            ws, kk = set(ref.row_ints(ref.span_words(M))), k
            mk = lambda: komm.BlockCode(generator_matrix=M)
        else:
            R = ref.words(n)
            ws, kk = set(ref.row_ints(R[~np.any(R @ M.T % 2, axis=1)])), n - k
            mk = lambda: komm.BlockCode(check_matrix=M)
        T = Truth(ws, n, kk)
        all_queries(ctx, key, mk, T, FEW if n >= 4 else PAIRS + FEW)
        if n <= 4:
            slepian(ctx, key, mk(), T)
    ctx.sample(key)


def t_systematic(ctx, k, m):
    n = k + m
    for p in range(2 ** (k * m)):
        P = np.array(ref.to_bits(p, k * m)).reshape(k, m)
        for inf in [tuple(range(k)), tuple(range(m, n)), tuple(range(k))[::-1]]:
            key = f"SystematicBlockCode({P.tolist()},{inf})"
            ctx.at(key)
            par = [j for j in range(n) if j not in inf]
            G = np.zeros((k, n), int)
            G[:, list(inf)] = np.eye(k, dtype=int)
            G[:, par] = P
            mk = lambda: komm.SystematicBlockCode(P, information_set=list(inf))
            T = Truth(set(ref.row_ints(ref.span_words(G))), n, k)
            all_queries(ctx, key, mk, T, FEW[:2])
            slepian(ctx, key, mk(), T)
    ctx.sample(key)


def t_cyclic(ctx, n):
    for g in codes.factor_list(n):
        k = n - ref.pdeg(g)
        if k < 1:
            continue
        T = Truth(codes.cyclic_words(n, g), n, k)
        for s in (True, False):
            key = f"CyclicCode({n},{g:#b},systematic={s})"
            ctx.at(key)
            mk = lambda: komm.CyclicCode(n, generator_polynomial=g, systematic=s)
            all_queries(ctx, key, mk, T, FEW if n > 8 else FEW + PAIRS)
            if n <= 7:
                slepian(ctx, key, mk(), T)
    ctx.sample(key)


def t_family(ctx, specs):
    for s in specs:
        key = s["name"]
        ctx.at(key)
        with ctx.guard(key):
            code = s["make"]()
            n, k = s["n"], s["k"]
            ws = s.get("words") or set(ref.row_ints(ref.span_words(code.generator_matrix)))
            if n <= 16:
                T = Truth(ws, n, k)
                all_queries(ctx, key, s["make"], T, FEW + (PAIRS if n <= 8 and not key.startswith("Polar") else []))
                if n <= 8:
                    slepian(ctx, key, code, T)
            else:  # distances only
                T = Truth(ws, n, k)
                for order in (("codeword_weight_distribution", "minimum_distance", "packing_radius"), ("codewords", "codeword_weight_distribution", "packing_radius"), ("packing_radius", "minimum_distance")):
                    c = s["make"]()
                    for q in order:
                        got = getattr(c, q)()
                        if q == "codewords":
                            ctx.ok(sorted(ref.row_ints(got)) == T.words, key, q)
                        elif q == "codeword_weight_distribution":
                            ctx.eq(got, T.cwd, key, q)
                        else:
                            ctx.eq(got, T.d if q == "minimum_distance" else (T.d - 1) // 2, key, q)
                        ctx.step()
                    ctx.state()
                    ctx.trace()
            if s.get("d") is not None:
                ctx.eq(T.d, s["d"], key, "minimum distance of the family")
            ctx.outcome((key, T.d))
    ctx.sample(key)


def long_columns(m, n, where):
    """n columns of m bits: low weights everywhere except at the listed positions, where unit and heavy columns sit."""
    cols = [((j * 7 + j // 5) % (2 ** (m - 1) - 1)) + 1 for j in range(n)]
    cols = [c if bin(c).count("1") > 1 or c < 2 else c | 1 for c in cols]
    for i in range(m):
        cols[where[i % len(where)] + i] = 1 << i
    cols[where[-1] + m] = 2**m - 1
    return cols


def t_long(ctx, m, n, where):
    """Long codes of small redundancy: coset leaders against a shortest-path search over the syndromes, and the dual code of
    small dimension: its weights against its 2^m words."""
    cols = long_columns(m, n, where)
    H = np.array([[c >> i & 1 for c in cols] for i in range(m)])
    dist = {0: 0}
    front = [0]
    while front:
        nxt = []
        for s in front:
            for c in set(cols):
                if s ^ c not in dist:
                    dist[s ^ c] = dist[s] + 1
                    nxt.append(s ^ c)
        front = nxt
    want = np.bincount(list(dist.values()), minlength=n + 1)
    key = f"long/{m}/{n}/{where}"
    ctx.bound("codes", f"check matrices of {m} rows and {n} columns and their duals")
    for order in (("coset_leaders", "coset_leader_weight_distribution", "covering_radius"), ("covering_radius", "coset_leader_weight_distribution", "coset_leaders")):
        with ctx.guard(key):
            code = komm.BlockCode(check_matrix=H)
            for q in order:
                got = getattr(code, q)()
                ctx.step()
                if q == "coset_leaders":
                    ctx.eq(np.array(got) @ H.T % 2, ref.words(m), key, "syndromes of the leaders")
                    ctx.eq(np.array(got).sum(axis=1), [dist[s] for s in range(2**m)], key, "weights of the leaders")
                elif q == "covering_radius":
                    ctx.eq(got, max(dist.values()), key, q)
                else:
                    ctx.eq(got, want, key, q)
            ctx.state()
            ctx.trace()
    wd = np.bincount((ref.words(m) @ H % 2).sum(axis=1), minlength=n + 1)
    d = int(np.flatnonzero(wd)[1])
    for order in (("codeword_weight_distribution", "minimum_distance", "packing_radius"), ("codewords", "packing_radius", "codeword_weight_distribution", "minimum_distance")):
        with ctx.guard(key + "/dual"):
            code = komm.BlockCode(generator_matrix=H)
            for q in order:
                got = getattr(code, q)()
                ctx.step()
                if q == "codewords":
                    ctx.eq(got, ref.words(m) @ H % 2, key + "/dual", q)
                else:
                    ctx.eq(got, {"codeword_weight_distribution": wd, "minimum_distance": d, "packing_radius": (d - 1) // 2}[q], key + "/dual", q)
            ctx.state()
            ctx.trace()
    ctx.outcome((key, sorted(dist.values())[-1], d))
    ctx.sample(key)


def closed(ctx, key, make, want, orders=None):
    """Every query in `want`, in order and in reverse, each on one object."""
    names = list(want)
    for order in orders or (names, names[::-1]):
        c = make()
        for q in order:
            with ctx.guard(key, q):
                got = getattr(c, q)()
                w = want[q]
                if isinstance(w, list):
                    ctx.ok([int(x) for x in got] == w, key, f"{q}(): {short(got)} instead of {short(w)}")
                else:
                    ctx.eq(got, w, key, q)
            ctx.step()
    ctx.state()
    ctx.trace()


def t_closed(ctx, tier):
    """Long members of the families whose weights are known in closed form, in exact integers."""
    th = tier == "thorough"
    comb = math.comb
    ctx.bound("families", "repetition and parity codes to length 66, Hamming and simplex codes to degree 10, Cordaro-Wagner to length 400, lexicodes to length 13, Reed-Muller to 2^10, Golay")
    for n in range(1, 67):
        key = f"RepetitionCode({n})"
        ctx.at(key)
        cl = [comb(n, w) if 2 * w < n else comb(n, w) // 2 if 2 * w == n else 0 for w in range(n + 1)]
        cw = [0] * (n + 1)
        cw[0] += 1
        cw[n] += 1
        closed(ctx, key, lambda: komm.RepetitionCode(n), dict(minimum_distance=n, codeword_weight_distribution=cw, coset_leader_weight_distribution=cl, covering_radius=n // 2, packing_radius=(n - 1) // 2))
        if n > 1:
            key = f"SingleParityCheckCode({n})"
            cw = [comb(n, w) if w % 2 == 0 else 0 for w in range(n + 1)]
            cl = [1, 1] + [0] * (n - 1)
            closed(ctx, key, lambda: komm.SingleParityCheckCode(n), dict(minimum_distance=2, codeword_weight_distribution=cw, coset_leader_weight_distribution=cl, covering_radius=1, packing_radius=0))
    for m in range(2, 11):
        for ext in (False, True):
            key = f"HammingCode({m},{ext})"
            ctx.at(key)
            n = 2**m - 1 + ext
            cl = [1, n, 2**m - 1] + [0] * (n - 2) if ext else [1, n] + [0] * (n - 1)
            closed(ctx, key, lambda: komm.HammingCode(m, extended=ext), dict(minimum_distance=4 if ext else 3, coset_leader_weight_distribution=cl, covering_radius=1 + ext, packing_radius=1))
            key = f"SimplexCode({m},{ext})"
            cw = [0] * (n + 1)
            cw[0] = 1
            cw[2 ** (m - 1)] = 2 ** (m + 1) - 2 if ext else 2**m - 1
            if ext:
                cw[n] += 1
            closed(ctx, key, lambda: komm.SimplexCode(m, extended=ext), dict(minimum_distance=2 ** (m - 1), codeword_weight_distribution=cw, packing_radius=(2 ** (m - 1) - 1) // 2))
    for n in range(2, 401):
        key = f"CordaroWagnerCode({n})"
        ctx.at(key)
        # the best two-dimensional code of its length: distance floor(2n/3) unless n = 2 mod 3 ... checked on its own words
        with ctx.guard(key):
            G = np.array(komm.CordaroWagnerCode(n).generator_matrix)
            ws = sorted(int(w.sum()) for w in (G[0], G[1], G[0] ^ G[1]))
            ctx.ok(G.shape == (2, n) and ws[0] == math.ceil(2 * n / 3) - 1 == -(-2 * n // 3) - 1, key, f"weights {ws}")
            cw = [0] * (n + 1)
            for w in [0] + ws:
                cw[w] += 1
            closed(ctx, key, lambda: komm.CordaroWagnerCode(n), dict(minimum_distance=ws[0], codeword_weight_distribution=cw, packing_radius=(ws[0] - 1) // 2))
    for n in range(8, 15 if th else 14):
        for d in range(2, n + 1):
            words = [0]
            for i in range(1, 2**n):
                for c in reversed(words):
                    if (c ^ i).bit_count() < d:
                        break
                else:
                    words.append(i)
            if len(words) == 1:
                continue
            key = f"Lexicode({n},{d})"
            ctx.at(key)
            with ctx.guard(key):
                got = {codes.rev(x, n) for x in ref.row_ints(ref.span_words(komm.Lexicode(n, d).generator_matrix))}
                ctx.ok(got == set(words), key, "the words are those that the greedy choice keeps")
            cw = [0] * (n + 1)
            for x in words:
                cw[x.bit_count()] += 1
            closed(ctx, key, lambda: komm.Lexicode(n, d), dict(minimum_distance=next(w for w in range(1, n + 1) if cw[w]), codeword_weight_distribution=cw))
    for mu in range(1, 11 if th else 10):
        for rho in range(mu):
            key = f"ReedMullerCode({rho},{mu})"
            ctx.at(key)
            n = 2**mu
            want = dict(minimum_distance=2 ** (mu - rho), packing_radius=(2 ** (mu - rho) - 1) // 2)
            if rho == 1 and mu > 1:
                cw = [0] * (n + 1)
                cw[0] = cw[n] = 1
                cw[n // 2] += 2 ** (mu + 1) - 2
                want["codeword_weight_distribution"] = cw
            closed(ctx, key, lambda: komm.ReedMullerCode(rho, mu), want)
    for ext in (False, True):
        cw = [0] * (24 + ext)
        for w, a in {0: 1, 8: 759, 12: 2576, 16: 759, 24: 1}.items() if ext else {0: 1, 7: 253, 8: 506, 11: 1288, 12: 1288, 15: 506, 16: 253, 23: 1}.items():
            cw[w] = a
        cl = [1, 24, 276, 2024, 1771] + [0] * 20 if ext else [1, 23, 253, 1771] + [0] * 20
        closed(ctx, f"GolayCode({ext})", lambda: komm.GolayCode(extended=ext), dict(minimum_distance=7 + ext, codeword_weight_distribution=cw, coset_leader_weight_distribution=cl, packing_radius=3, covering_radius=3 + ext))


def t_histories(ctx, name, make, words, n, k, perms):
    """All call histories of the seven queries on one object."""
    T = Truth(words, n, k)
    ctx.bound("histories", "all 5040 orders of the seven queries" if perms else "all query sequences of length 3")
    orders = itertools.permutations(QUERIES) if perms else itertools.product(QUERIES, repeat=3)
    all_queries(ctx, name, make, T, orders)
    ctx.sample({"code": name, "order": QUERIES})


def tasks(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 6 if T else 5):
        for k in range(1, n + 1):
            if not (n == 5 and k in (3, 4, 5)) and not (n == 4 and k >= 3 and not T):
                out.append((f"G/{k}x{n}", t_matrices, dict(n=n, k=k, how="G")))
            if k < n and n < 5:
                out.append((f"H/{k}x{n}", t_matrices, dict(n=n, k=k, how="H")))
    for k, m in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]:
        out.append((f"systematic/{k}+{m}", t_systematic, dict(k=k, m=m)))
    for n in list(range(2, 11)) + ([11, 12, 13, 14, 15] if T else [15]):
        out.append((f"cyclic/{n}", t_cyclic, dict(n=n)))
    groups = {}
    for s in codes.families(tier):
        groups.setdefault(s["name"].split("(")[0], []).append(s)
    for g, ss in groups.items():
        step = 32 if g == "PolarCode" else 2
        for i in range(0, len(ss), step):
            out.append((f"family/{g}/{i}", t_family, dict(specs=ss[i : i + step])))
    out.append(("closed", t_closed, dict(tier=tier)))

    def ws(c):
        return set(ref.row_ints(ref.span_words(c.generator_matrix)))
    for m, n, where in [(4, 40, [20]), (5, 70, [0, 60]), (6, 140, [128]), (7, 300, [270]), (8, 300, [0, 130, 280]), (9, 520, [505]), (17, 36, [10])] + ([(10, 600, [580]), (11, 1100, [1040]), (19, 40, [15])] if T else []):
        out.append((f"long/{m}/{n}", t_long, dict(m=m, n=n, where=where)))
    H = [
        ("Hamming(3)", lambda: komm.HammingCode(3), 7, 4),
        ("CyclicCode(7,0b10111,nonsys)", lambda: komm.CyclicCode(7, generator_polynomial=0b10111, systematic=False), 7, 3),
        ("RepetitionCode(4)", lambda: komm.RepetitionCode(4), 4, 1),
        ("SingleParityCheckCode(4)", lambda: komm.SingleParityCheckCode(4), 4, 3),
        ("ReedMullerCode(1,3)", lambda: komm.ReedMullerCode(1, 3), 8, 4),
        ("BlockCode(H)", lambda: komm.BlockCode(check_matrix=[[1, 0, 0, 1, 1], [1, 1, 0, 0, 1], [0, 1, 1, 1, 0]]), 5, 2),
        ("TerminatedConvolutionalCode", lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[0b111, 0b101]]), 2, "zero-termination"), 8, 2),
        ("PolarCode(3,[0,1,2])", lambda: komm.PolarCode(3, [0, 1, 2]), 8, 5),
    ]
    for i, (name, mk, n, k) in enumerate(H):
        out.append((f"histories/{name}", t_histories, dict(name=name, make=mk, words=ws(mk()), n=n, k=k, perms=T or i in (2, 3))))
    return out
