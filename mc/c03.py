"""C03: hard-decision decoders correct every error pattern up to half the minimum distance,
and always answer with a message."""

import itertools
import math

import numpy as np

import komm

from . import codes, ref
from .core import short
from .trellis import pattern

ASSUMPTIONS = ["codes outside the enumerated parameters are not covered"]

POP = np.array([bin(i).count("1") for i in range(1 << 16)])


def errors(n, t):
    rows = []
    for w in range(t + 1):
        for pos in itertools.combinations(range(n), w):
            e = np.zeros(n, int)
            e[list(pos)] = 1
            rows.append(e)
    return np.array(rows)


def decode_all(ctx, key, dec, R, k):
    """One call over all words; the shape and alphabet of the answer are part of the property."""
    U = np.array(dec.decode(R))
    ctx.step(len(R))
    if not ctx.eq(U.shape, (len(R), k), key, "shape of the decoded array"):
        return None
    ctx.ok(bool(np.all((U == 0) | (U == 1))), key, "decoded symbols are not bits")
    return U


def bounded_distance(ctx, key, dec, code, n, k, t, msgs=None):
    """Every message x every error pattern of weight <= t."""
    U = ref.words(k) if msgs is None else msgs
    V = U @ np.array(code.generator_matrix) % 2
    for e in errors(n, t):
        R = (V + e) % 2
        got = decode_all(ctx, key, dec, R, k)
        if got is not None and not np.array_equal(got, U):
            i = int(np.flatnonzero(np.any(got != U, axis=1))[0])
            ctx.fail(key, f"r={short(R[i])} (error {short(e)}) decoded to {short(got[i])}, sent {short(U[i])}", got[i])
        ctx.state(len(U))
        ctx.trace(len(U))
        ctx.outcome((key, tuple(e)))


def complete(ctx, key, dec, code, n, k, shapes=True):
    """Every word of the space goes to a message whose codeword is nearest."""
    G = np.array(code.generator_matrix)
    V = ref.span_words(G)
    R = ref.words(n)
    got = decode_all(ctx, key, dec, R, k)
    if got is None:
        return
    vi = np.array(ref.row_ints(V))
    best = np.min(POP[np.arange(1 << n)[:, None] ^ vi[None, :]], axis=1)
    dist = np.sum((got @ G % 2) != R, axis=1)
    if not np.array_equal(dist, best):
        i = int(np.flatnonzero(dist != best)[0])
        ctx.fail(key, f"r={short(R[i])} decoded to {short(got[i])} at distance {dist[i]}, nearest is {best[i]}", got[i])
    ctx.state(len(R))
    ctx.trace(len(R))
    ctx.outcome((key, tuple(best)))
    if shapes:
        for i in range(len(R)):
            ctx.eq(dec.decode(R[i].copy()), got[i], key, f"single word {short(R[i])} vs batch")
            ctx.eq(dec.decode(np.concatenate([R[i], R[-1 - i], R[0]])), np.concatenate([got[i], got[-1 - i], got[0]]), key, "three blocks vs batch")
            ctx.step(2)
        ctx.eq(dec.decode(R.reshape(2, -1, n).tolist()), got.reshape(2, -1, k), key, "nested list of words")


def both(ctx, key, mk, n, k, shapes=True):
    for name, D in (("SyndromeTable", lambda c: komm.SyndromeTableDecoder(c)), ("ExhaustiveSearch", lambda c: komm.ExhaustiveSearchDecoder(c, input_type="hard"))):
        kk = f"{name}/{key}"
        ctx.at(kk)
        with ctx.guard(kk):
            code = mk()
            complete(ctx, kk, D(code), code, n, k, shapes)


def t_matrices(ctx, n, k, how):
    ctx.bound("codes", f"all full-rank {k}x{n} as {how}; every word of the space")
    for M in ref.full_rank_matrices(k, n):
        if how == "G":
            both(ctx, f"BlockCode(G={M.tolist()})", lambda: komm.BlockCode(generator_matrix=M), n, k, shapes=n <= 3)
        else:
            both(ctx, f"BlockCode(H={M.tolist()})", lambda: komm.BlockCode(check_matrix=M), n, n - k, shapes=n <= 3)
    ctx.sample(M)


def t_systematic(ctx, k, m):
    n = k + m
    for p in range(2 ** (k * m)):
        P = np.array(ref.to_bits(p, k * m)).reshape(k, m)
        for inf in [tuple(range(k)), tuple(range(m, n)), tuple(range(k))[::-1], tuple(range(0, 2 * k, 2)) if 2 * k - 1 <= n else tuple(range(k))]:
            both(ctx, f"SystematicBlockCode({P.tolist()},{inf})", lambda: komm.SystematicBlockCode(P, information_set=list(inf)), n, k, shapes=False)
    ctx.sample(P)


def t_cyclic(ctx, n):
    for g in codes.factor_list(n):
        k = n - ref.pdeg(g)
        if k >= 1:
            for s in (True, False):
                both(ctx, f"CyclicCode({n},{g:#b},systematic={s})", lambda: komm.CyclicCode(n, generator_polynomial=g, systematic=s), n, k, shapes=n <= 6)
    ctx.sample(bin(g))


def t_family(ctx, specs):
    for s in specs:
        n, k = s["n"], s["k"]
        if n <= 9:
            both(ctx, s["name"], s["make"], n, k, shapes=n <= 6)
        else:
            with ctx.guard(s["name"]):
                code = s["make"]()
                d = s.get("d") or int(code.minimum_distance())
                t = (d - 1) // 2
                msgs = ref.words(k)
                if k > 7:
                    msgs = msgs[[0, 1, 2**k - 1] + [1 << j for j in range(k)]]
                if n - k <= 12 and k <= 16:
                    bounded_distance(ctx, f"SyndromeTable/{s['name']}", komm.SyndromeTableDecoder(code), code, n, k, min(t, 3), msgs)
                if k <= 7 and n <= 32:
                    bounded_distance(ctx, f"ExhaustiveSearch/{s['name']}", komm.ExhaustiveSearchDecoder(code), code, n, k, min(t, 2), msgs)
    ctx.sample(s["name"])


def t_berlekamp(ctx, mu, delta, shard=0, of=1, maxw=None):
    code = komm.BCHCode(mu, delta)
    n, k = int(code.length), int(code.dimension)
    t = (delta - 1) // 2
    ctx.bound("patterns", f"all messages x all error patterns of weight <= {t}" + (f" (capped {maxw})" if maxw is not None and maxw < t else ""))
    U = ref.words(k)[shard::of] if k <= 7 else ref.words(k)[[0, 1, 2**k - 1] + [1 << j for j in range(k)] + [3 << j for j in range(k - 1)]][shard::of]
    bounded_distance(ctx, f"Berlekamp/BCH({mu},{delta})", komm.BerlekampDecoder(code), code, n, k, min(t, maxw if maxw is not None else t), U)
    ctx.sample({"mu": mu, "delta": delta, "t": t})


def t_berlekamp_total(ctx, mu, delta, shard=0, of=1):
    """Every word of the space gets an answer; within t of a codeword it is that codeword's message."""
    code = komm.BCHCode(mu, delta)
    n, k = int(code.length), int(code.dimension)
    key = f"Berlekamp/BCH({mu},{delta})"
    dec = komm.BerlekampDecoder(code)
    G = np.array(code.generator_matrix)
    vi = np.array(ref.row_ints(ref.span_words(G)))
    t = (delta - 1) // 2
    U = ref.words(k)
    R = ref.words(n)
    for x in range(shard, 1 << n, of):
        ctx.at(key, R[x])
        with ctx.guard(key, f"r={short(R[x])}"):
            got = np.array(dec.decode(R[x]))
            dist = POP[vi ^ x]
            j = int(np.argmin(dist))
            if dist[j] <= t:
                ctx.eq(got, U[j], key, f"r={short(R[x])} at distance {dist[j]} from {short(U[j])}")
            else:
                ctx.ok(got.shape == (k,) and set(got.tolist()) <= {0, 1}, key, f"no message for r={short(R[x])}", got)
            ctx.outcome(int(dist[j]))
        ctx.step()
        ctx.state()
        ctx.trace()
    ctx.sample({"r": R[x]})


def t_reed(ctx, rho, mu, shard=0, of=1):
    code = komm.ReedMullerCode(rho, mu)
    n, k = int(code.length), int(code.dimension)
    t = (2 ** (mu - rho) - 1) // 2
    if k <= 12:
        ctx.bound("messages", "all")
        U = ref.words(k)[shard::of]
    else:
        ctx.bound("messages", "zero, all-one, unit and adjacent-pair messages")
        U = np.vstack([np.zeros((1, k), int), np.ones((1, k), int), np.eye(k, dtype=int), np.eye(k, dtype=int) | np.eye(k, k, 1, dtype=int)])
    V = U @ np.array(code.generator_matrix) % 2
    hard, soft = komm.ReedDecoder(code, input_type="hard"), komm.ReedDecoder(code, input_type="soft")
    for e in errors(n, t):
        R = (V + e) % 2
        for name, dec, X in (("hard", hard, R), ("soft", soft, 1.0 - 2 * R), ("soft x0.5", soft, 0.5 - R)):
            key = f"Reed-{name}/RM({rho},{mu})"
            ctx.at(key, e)
            got = decode_all(ctx, key, dec, X, k)
            if got is not None and not np.array_equal(got, U):
                i = int(np.flatnonzero(np.any(got != U, axis=1))[0])
                ctx.fail(key, f"r={short(R[i])} (error {short(e)}) decoded to {short(got[i])}, sent {short(U[i])}", got[i])
            ctx.trace(len(U))
        ctx.state(len(U))
        ctx.outcome(tuple(e))
    ctx.sample({"rho": rho, "mu": mu, "t": t})


class Majority:
    """The votes of Reed's algorithm, from the rows of the generator matrix alone: a row is the indicator of a subcube of the
    positions (a monomial); its checks are the translates of the subcube spanned by the directions the row fixes."""

    def __init__(self, code):
        self.G = np.array(code.generator_matrix)
        n = self.n = self.G.shape[1]
        idx = np.arange(n)
        self.checks = []
        for row in self.G:
            on = idx[row == 1]
            fixed = (n - 1) & ~int(np.bitwise_or.reduce(on) ^ np.bitwise_and.reduce(on))
            assert len(on) << bin(fixed).count("1") == n
            sub = [p for p in range(n) if p & ~fixed == 0]
            self.checks.append(np.array([[b | s for s in sub] for b in range(n) if b & fixed == 0]))
        self.degree = [int(np.log2(n // r.sum())) for r in self.G]
        self.order = sorted(range(len(self.G)), key=lambda i: -self.degree[i])

    def judge(self, X, got, soft):
        """Index and message bit of the first wrong decision, or None.  X: words (signs decide the bits if soft)."""
        B = (X < 0).astype(int) if soft else X.copy()
        first = None
        for d in sorted(set(self.degree), reverse=True):
            upd = np.zeros_like(B)
            for i in [i for i in self.order if self.degree[i] == d]:
                c = B[:, self.checks[i]].sum(axis=2) % 2
                w = np.abs(X[:, self.checks[i]]).min(axis=2) if soft else 1
                vote = ((1 - 2 * c) * w).sum(axis=1)
                bad = np.flatnonzero(((vote < 0) & (got[:, i] != 1)) | ((vote > 0) & (got[:, i] != 0)))
                if len(bad) and first is None:
                    first = int(bad[0]), i
                upd ^= np.outer(got[:, i], self.G[i])
            if first is not None:
                return first
            B = B ^ upd
        return None


def t_reed_votes(ctx, rho, mu, how):
    """Every decision of the Reed decoders is the (weighted) majority of its check sums; weak errors beyond half the distance."""
    code = komm.ReedMullerCode(rho, mu)
    n, k = int(code.length), int(code.dimension)
    m, d = Majority(code), 2 ** (mu - rho)
    hard, soft = komm.ReedDecoder(code), komm.ReedDecoder(code, input_type="soft")
    key = f"Reed-votes/RM({rho},{mu})"
    with ctx.guard(key):
        cases = []
        if how == "total":
            ctx.bound("words", "all hard words; all soft words over " + str(SOFT[mu]))
            cases = [(False, ref.words(n), None), (True, np.array(list(itertools.product(SOFT[mu], repeat=n))), None)]
        else:
            ctx.bound("words", "every set of t weak positions, t < d (all if few), weak values 0, +-2^-20 and the largest with t + sum < d")
            U = np.array([[(i * i + i * j + j) % 3 == 0 for i in range(k)] for j in range(3)] + [[0] * k]).astype(int)
            V = U @ m.G % 2
            R = np.array([1.0 + (i * i % 7) * 2.0 ** -3 for i in range(n)])
            for t in range(d):
                sets = list(itertools.combinations(range(n), t)) if math.comb(n, t) <= 2000 else [np.flatnonzero(e) for e in layouts(n, t)]
                for e in (0.0, 2.0**-20, (d - t) / t * (1 - 2.0**-12) if t else 0.0):
                    X = np.array([(1.0 - 2 * V[i % 4]) * R for i in range(len(sets))])
                    for i, s in enumerate(sets):
                        X[i, list(s)] = -e * np.sign(X[i, list(s)])
                    cases.append((True, X, U[np.arange(len(sets)) % 4]))
        for is_soft, X, U in cases:
            for part in range(0, len(X), 4096):
                Y = X[part : part + 4096]
                got = decode_all(ctx, key, soft if is_soft else hard, Y, k)
                if got is None:
                    return
                ctx.state(len(Y))
                ctx.trace(len(Y))
                bad = m.judge(Y, got, is_soft)
                if bad:
                    ctx.fail(key + ("/soft" if is_soft else "/hard"), f"r={short(Y[bad[0]])}: message bit {bad[1]} of {short(got[bad[0]])} is against the majority of its check sums", got[bad[0]])
                if U is not None and not np.array_equal(got, U[part : part + 4096]):
                    i = int(np.flatnonzero((got != U[part : part + 4096]).any(axis=1))[0])
                    ctx.fail(key + "/weak errors", f"r={short(Y[i])} decoded to {short(got[i])}, sent {short(U[part + i])}", got[i])
                ctx.outcome((is_soft, part, int(got.sum())))
    ctx.sample({"rho": rho, "mu": mu})


SOFT = {1: (-2.0**20, -3.5, -1.0, 0.0, 2.0**-20, 1.0, 1e6), 2: (-1000.0, -1.5, -(2.0**-20), 0.0, 1.0, 3.0, 2.0**20), 3: (-2.5, -1.0, 0.75, 4.0), 4: ()}


def layouts(n, w):
    """Error patterns of weight w: bursts, cyclic bursts, even and irregular spreads."""
    out = []
    if w == 0:
        return [np.zeros(n, dtype=int)]
    if w == 1 and n <= 128:
        return list(np.eye(n, dtype=int))
    for pos in (range(w), range(n - w, n), [(n - w // 2 + i) % n for i in range(w)], [i * n // w for i in range(w)], [(i * (n // w) + n // w - 1) % n for i in range(w)]):
        out.append(sorted(set(pos)))
    for s in range(3):
        out.append(sorted(np.argsort(pattern(n, s, w, 2**20), kind="stable")[:w].tolist()))
    res = []
    for pos in out:
        if len(pos) == w:
            e = np.zeros(n, dtype=int)
            e[pos] = 1
            res.append(e)
    return res


def t_big(ctx, name, make, decoder, t, weights, modes):
    """Long codes: irregular messages, every listed weight up to the entitlement, several layouts each."""
    code = make()
    n, k = int(code.length), int(code.dimension)
    ctx.bound("patterns", f"{name}: weights {weights} of at most {t}, eight layouts each, four messages")
    key = f"big/{decoder.__name__}/{name}"
    G = np.array(code.generator_matrix)
    decs = {m: decoder(code, **kw) for m, kw in modes.items()}
    no = 0
    for w in weights:
        for e in layouts(n, w):
            no += 1
            u = pattern(k, no, w) if no % 4 else np.zeros(k, dtype=int) if no % 8 else np.ones(k, dtype=int)
            r = (u @ G + e) % 2
            for m, dec in decs.items():
                ctx.at(key, m, w, no)
                with ctx.guard(key, f"error at {np.flatnonzero(e).tolist()}"):
                    x = r if m == "hard" else (1.0 - 2 * r) * 0.75
                    got = np.array(dec.decode(x.copy()))
                    ctx.ok(np.array_equal(got, u), key, f"{m}: message {short(u, 80)} with errors at {np.flatnonzero(e).tolist()} decoded to {short(got, 80)}", got)
                ctx.step()
            ctx.state()
            ctx.trace()
            ctx.outcome((name, tuple(np.flatnonzero(e).tolist())))
    ctx.sample({"name": name, "t": t})


def big(tier):
    T = tier == "thorough"
    H = {"hard": {}}
    R = {"hard": dict(input_type="hard"), "soft": dict(input_type="soft")}
    out = []
    for mu, deltas in ((6, (3, 7, 11, 15, 21, 27, 31)), (7, (5, 11, 21, 31, 55)), (8, (7, 19, 43, 63, 111)), (9, (11, 51))) + (((9, (3, 21, 91, 127, 223)), (10, (5, 41, 101))) if T else ()):
        for d in deltas:
            if codes.bch_spec(mu, d):
                t = (d - 1) // 2
                ws = sorted({0, 1, 2, t // 2, t - 1, t}) if not T else (range(t + 1) if t < 12 else sorted({0, 1, 2, 3, t // 3, t // 2, t - 2, t - 1, t}))
                out.append((f"BCH({mu},{d})", lambda mu=mu, d=d: komm.BCHCode(mu, d), komm.BerlekampDecoder, t, [w for w in ws if 0 <= w <= t], H))
    for rho, mu in ((1, 6), (2, 6), (3, 6), (4, 6), (1, 7), (2, 7), (4, 7), (1, 9), (1, 10)) + (((3, 7), (5, 7), (1, 8), (2, 8)) if T else ()):
        t = (2 ** (mu - rho) - 1) // 2
        out.append((f"RM({rho},{mu})", lambda rho=rho, mu=mu: komm.ReedMullerCode(rho, mu), komm.ReedDecoder, t, sorted({0, 1, t // 2, t - 1, t} & set(range(t + 1))), R))
    for nm, mk, t in [("Golay", lambda: komm.GolayCode(), 3), ("Golay-ext", lambda: komm.GolayCode(extended=True), 3), ("Hamming(5)", lambda: komm.HammingCode(5), 1), ("Hamming(8)", lambda: komm.HammingCode(8), 1), ("Hamming(7,ext)", lambda: komm.HammingCode(7, extended=True), 1), ("BCH(5,5)", lambda: komm.BCHCode(5, 5), 2), ("Repetition(15)", lambda: komm.RepetitionCode(15), 7), ("RM(4,6)", lambda: komm.ReedMullerCode(4, 6), 1), ("Repetition(19)", lambda: komm.RepetitionCode(19), 9), ("BCH(6,7)", lambda: komm.BCHCode(6, 7), 3), ("cyclic(73)", lambda: komm.CyclicCode(63, generator_polynomial=0b1010100111001), 2)]:
        out.append((nm, mk, komm.SyndromeTableDecoder, t, list(range(t + 1)), H))
    return out


def tasks(tier):
    T = tier == "thorough"
    out = []
    for n in range(1, 5):
        for k in range(1, n + 1):
            if n == 4 and k >= 3 and not T:
                continue
            out.append((f"G/{k}x{n}", t_matrices, dict(n=n, k=k, how="G")))
            if k < n:
                out.append((f"H/{k}x{n}", t_matrices, dict(n=n, k=k, how="H")))
    out += [(f"G/1x{n}", t_matrices, dict(n=n, k=1, how="G")) for n in (5, 6)]
    out.append(("G/2x5", t_matrices, dict(n=5, k=2, how="G")))
    for k, m in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)] + ([(3, 3), (2, 4)] if T else []):
        out.append((f"systematic/{k}+{m}", t_systematic, dict(k=k, m=m)))
    for n in range(2, 10 if T else 10):
        out.append((f"cyclic/{n}", t_cyclic, dict(n=n)))
    groups = {}
    for s in codes.families(tier):
        groups.setdefault(s["name"].split("(")[0], []).append(s)
    for g, ss in groups.items():
        step = 40 if g == "PolarCode" else 1
        for i in range(0, len(ss), step):
            out.append((f"family/{ss[i]['name'] if step == 1 else g + '/' + str(i)}", t_family, dict(specs=ss[i : i + step])))
    for mu in (2, 3):
        for delta in range(2, 2**mu):
            if codes.bch_spec(mu, delta):
                out.append((f"berlekamp/total/{mu},{delta}", t_berlekamp_total, dict(mu=mu, delta=delta)))
    for delta in (3, 5, 7, 15):
        if T:
            out += [(f"berlekamp/total/4,{delta}/{i}", t_berlekamp_total, dict(mu=4, delta=delta, shard=i, of=4)) for i in range(4)]
        out += [(f"berlekamp/4,{delta}/{i}", t_berlekamp, dict(mu=4, delta=delta, shard=i, of=8)) for i in range(8 if delta == 7 or delta == 5 else 2)] if delta != 15 else [
            (f"berlekamp/4,15", t_berlekamp, dict(mu=4, delta=15, maxw=7 if T else 4))]
    for delta in (5, 7, 11, 15):
        if codes.bch_spec(5, delta):
            out.append((f"berlekamp/5,{delta}", t_berlekamp, dict(mu=5, delta=delta, of=1 if T else 24, maxw=2)))
    for name, mk, dec, t, ws, modes in big(tier):
        out.append((f"big/{dec.__name__}/{name}", t_big, dict(name=name, make=mk, decoder=dec, t=t, weights=list(ws), modes=modes)))
    for mu in (1, 2, 3, 4):
        for rho in range(mu):
            for i in range(4 if mu == 4 and rho == 1 else 1):
                out.append((f"reed/{rho},{mu}/{i}", t_reed, dict(rho=rho, mu=mu, shard=i, of=4 if mu == 4 and rho == 1 else 1)))
    for mu in (1, 2, 3, 4, 5):
        for rho in range(mu):
            if mu <= 3:
                out.append((f"reed-votes/all/{rho},{mu}", t_reed_votes, dict(rho=rho, mu=mu, how="total")))
            out.append((f"reed-votes/weak/{rho},{mu}", t_reed_votes, dict(rho=rho, mu=mu, how="weak")))
    out += [(f"reed/{r},5", t_reed, dict(rho=r, mu=5)) for r in ((3, 2) if T else (3,))]
    return out
