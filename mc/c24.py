"""C24: stationary laws, visit counts and absorption of Markov chains are the exact ones, and simulated paths and
memoryless symbols have exactly the law of the chain or source."""

import itertools
import math
from fractions import Fraction

import numpy as np

import komm

from .c13 import compositions
from .c22 import RARE, T_, law, product_law, rare_law, tup
from .c23 import classes_of_graphs, facts
from .core import short
from .tape import Stream

ASSUMPTIONS = [
    "states index rows and columns of the results in increasing order",
    "one uniform variate is drawn per simulated step (see C22)",
]


def solve(A, B):
    """A X = B over the rationals (A nonsingular)."""
    n, m = len(A), len(B[0])
    M = [list(map(Fraction, A[i])) + list(map(Fraction, B[i])) for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                k = M[r][c]
                M[r] = [x - k * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def judge(ctx, key, W, K):
    """W: integer weights, rows summing to K."""
    n = len(W)
    P = [[Fraction(x, K) for x in r] for r in W]
    g = [sum(1 << j for j in range(n) if r[j]) for r in W]
    f = facts(g)
    F = np.array(W) / K
    ch = komm.MarkovChain(F)
    ctx.state()
    ctx.trace()
    ctx.close(ch.transition_matrix, F, key, "transition matrix", tol=1e-15)
    if len(f["classes"]) == 1:
        A = [[P[j][i] - (i == j) for j in range(n)] for i in range(n)]
        A[-1] = [1] * n
        pi = solve(A, [[0]] * (n - 1) + [[1]])
        got = ch.stationary_distribution()
        ctx.close(got, np.array([float(x[0]) for x in pi]), key, "stationary distribution", tol=1e-9)
        ctx.step()
    else:
        ctx.raises(NotImplementedError, ch.stationary_distribution, key, "stationary distribution of a reducible chain")
    if f["is_absorbing"]:
        T = [i for i in range(n) if i not in f["absorbing"]]
        A = sorted(f["absorbing"])
        I_Q = [[(i == j) - P[i][j] for j in T] for i in T]
        N = solve(I_Q, [[int(i == j) for j in T] for i in T]) if T else []
        want = np.array([[float(x) for x in r] for r in N]).reshape(len(T), len(T))
        ctx.close(ch.mean_number_of_visits(), want, key, "mean number of visits", tol=1e-9)
        ctx.close(ch.mean_time_to_absorption(), want.sum(1), key, "mean time to absorption", tol=1e-9)
        B = [[sum(N[a][b] * P[T[b]][j] for b in range(len(T))) for j in A] for a in range(len(T))]
        ctx.close(ch.absorption_probabilities(), np.array([[float(x) for x in r] for r in B]).reshape(len(T), len(A)), key, "absorption probabilities", tol=1e-9)
        ctx.step(3)
    else:
        for q in ("mean_number_of_visits", "mean_time_to_absorption", "absorption_probabilities"):
            ctx.raises(ValueError, getattr(ch, q), key, f"{q} of a chain that is not absorbing")
        for i in range(n):
            ctx.raises(ValueError, lambda: ch.simulate_until_absorption(i), key, "simulation until absorption of a chain that is not absorbing")
    return f


def t_exact(ctx, n, K, part, parts):
    ctx.bound("chains", f"all {n}-state chains with probabilities in multiples of 1/{K}")
    rows = list(compositions(K, n, 0))
    for no, W in enumerate(itertools.product(rows, repeat=n)):
        if no % parts != part:
            continue
        key = f"chain/{[list(r) for r in W]}/{K}"
        ctx.at(key)
        with ctx.guard(key):
            judge(ctx, key, W, K)


def t_rings(ctx, ns):
    ctx.bound("chains", f"random walks on rings of {ns} states with every set of absorbing states (every set of up to 3, or all but 3, from 11 states on)")
    for n in ns:
        for m in range(1, 2**n):
            if n > 10 and not (m.bit_count() <= 3 or m.bit_count() >= n - 3):
                continue
            W = [[0] * n for _ in range(n)]
            for i in range(n):
                if m >> i & 1:
                    W[i][i] = 3
                else:
                    W[i][(i + 1) % n] += 2
                    W[i][(i - 1) % n] += 1
            key = f"ring/{n}/{m:#b}"
            ctx.at(key)
            T = [i for i in range(n) if not m >> i & 1]
            A = [i for i in range(n) if m >> i & 1]
            P = np.array(W) / 3
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                ch = komm.MarkovChain(P)
                N = np.linalg.solve(np.eye(len(T)) - P[np.ix_(T, T)], np.eye(len(T)))
                ctx.close(ch.mean_number_of_visits(), N, key, "mean number of visits", tol=1e-8)
                ctx.close(ch.mean_time_to_absorption(), N.sum(1), key, "mean time to absorption", tol=1e-8)
                ctx.close(ch.absorption_probabilities(), N @ P[np.ix_(T, A)], key, "absorption probabilities", tol=1e-8)


def t_reps(ctx, n, hi, part, parts):
    ctx.bound("classes", f"one graph of every isomorphism class on {n} states with 1 to {hi} arrows out of every state, two weightings in multiples of 1/12")
    split = {1: [(12,)], 2: [(6, 6), (1, 11)], 3: [(4, 4, 4), (1, 3, 8)], 4: [(3, 3, 3, 3), (1, 2, 4, 5)]}
    for no, g in enumerate(classes_of_graphs(n, hi)):
        if no % parts != part:
            continue
        for v in range(2):
            W = []
            for r in g:
                js = [j for j in range(n) if r >> j & 1]
                s = split[len(js)]
                w = dict(zip(js, s[v % len(s)]))
                W.append([w.get(j, 0) for j in range(n)])
            key = f"chain/{W}/12"
            ctx.at(key)
            with ctx.guard(key):
                judge(ctx, key, W, 12)


def t_slow(ctx, top):
    """Chains that are almost decomposable, almost absorbing, or long; all weights are dyadic, so exact floats."""
    ctx.bound("slow", f"absorption with probability 2^-k a step, k <= {top}; birth-death chains of up to 60 states; gambler's ruin of up to 40 states")
    for k in range(1, top + 1):
        for n in (1, 2, 3):
            # n states that keep their place except with probability 2^-k, absorbed at the end
            K = 2**k
            W = [[0] * (n + 1) for _ in range(n + 1)]
            for i in range(n):
                W[i][i], W[i][i + 1] = K - 1, 1
            W[n][n] = K
            for perm in ([n - i for i in range(n + 1)], list(range(n + 1))):
                V = [[W[a][b] for b in perm] for a in perm]
                key = f"slow/{n}/{k}/{perm}"
                ctx.at(key)
                with ctx.guard(key):
                    ch = komm.MarkovChain(np.array(V, dtype=float) / K)
                    ctx.state()
                    ctx.trace()
                    T = [i for i in range(n + 1) if V[i][i] != K]
                    A = [i for i in range(n + 1) if V[i][i] == K]
                    N = solve([[Fraction((i == j) * K - V[i][j], K) for j in T] for i in T], [[int(i == j) for j in T] for i in T])
                    N = np.array([[float(x) for x in r] for r in N])
                    ctx.ok(ch.is_absorbing() and ch.absorbing_states() == set(A), key, "absorbing")
                    ctx.close(ch.mean_number_of_visits() / K, N / K, key, "mean number of visits", tol=1e-9)
                    ctx.close(ch.mean_time_to_absorption() / K, N.sum(1) / K, key, "mean time to absorption", tol=1e-9)
                    ctx.close(ch.absorption_probabilities(), np.ones((n, 1)), key, "absorption probabilities", tol=1e-9)
                    ctx.step(3)
                    W2 = [[0.0] * 2 for _ in range(2)]
                    a, b = (K - 1) / K, 1 / K
                    ch2 = komm.MarkovChain([[a, b], [2 * b, 1 - 2 * b]])
                    if k <= 22:
                        ctx.close(ch2.stationary_distribution(), [2 / 3, 1 / 3], key, "stationary distribution of a slow chain", tol=1e-7)
    for n in (2, 3, 7, 16, 17, 33, 60):
        for up, down in ((1, 1), (1, 2), (3, 1), (1, 6)):
            W = [[0] * n for _ in range(n)]
            for i in range(n):
                W[i][min(i + 1, n - 1)] += up
                W[i][max(i - 1, 0)] += down
                W[i][i] += 8 - up - down
            key = f"birth-death/{n}/{up}/{down}"
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                pi = [Fraction(up, down) ** i for i in range(n)]
                s = sum(pi)
                ctx.close(komm.MarkovChain(np.array(W) / 8).stationary_distribution(), [float(x / s) for x in pi], key, "stationary distribution", tol=1e-9)
            if n > 40:
                continue
            # gambler's ruin: both ends absorb
            V = [list(r) for r in W]
            V[0] = [8] + [0] * (n - 1)
            V[-1] = [0] * (n - 1) + [8]
            if n < 3:
                continue
            with ctx.guard(key):
                ch = komm.MarkovChain(np.array(V) / 8)
                r = Fraction(down, up)
                win = [Fraction(i, n - 1) if r == 1 else (1 - r**i) / (1 - r ** (n - 1)) for i in range(1, n - 1)]
                ctx.close(ch.absorption_probabilities(), [[float(1 - x), float(x)] for x in win], key, "probability of ruin", tol=1e-9)
                # time in steps, each of which is idle with probability 1 - (up+down)/8
                m = Fraction(8, up + down)
                p, q = Fraction(up, up + down), Fraction(down, up + down)
                t = [i * (n - 1 - i) * m if p == q else (Fraction(i) / (q - p) - Fraction(n - 1) / (q - p) * win[i - 1]) * m for i in range(1, n - 1)]
                ctx.close(ch.mean_time_to_absorption(), [float(x) for x in t], key, "duration", tol=1e-9)


def t_paths(ctx, seeds, length):
    """Long paths: whatever the tape, they start where asked, follow arrows, have the asked length or end at the first
    absorbing state; where there is one arrow only, the path is known."""
    ctx.bound("paths", f"{seeds} tapes each; up to {length} steps; lines of up to 200 states; absorption with probability 2^-k a step, k <= 10")
    for n in (1, 2, 3, 9, 64, 65, 200):
        cyc = np.eye(n)[(np.arange(n) + 1) % n]
        line = np.eye(n)[np.minimum(np.arange(n) + 1, n - 1)]
        for s in sorted({0, n // 2, n - 1}):
            key = f"paths/cycle/{n}/{s}"
            ctx.state()
            for L in (0, 1, 2, n, 255, 256, 257, 1025, length):
                ctx.at(key)
                with ctx.guard(key):
                    p = komm.MarkovChain(cyc, rng=np.random.Generator(np.random.MT19937(n))).simulate(s, L)
                    ctx.ok(np.array_equal(p, (s + np.arange(L)) % n), key, f"path of {L} steps round a cycle")
                    ctx.trace()
            with ctx.guard(key):
                p = komm.MarkovChain(line).simulate_until_absorption(s)
                ctx.ok(list(p) == list(range(s, n)), f"paths/line/{n}/{s}", f"path {short(p)} along a line")
                ctx.trace()
    for k in range(1, 11):
        e = 2.0**-k
        chains = dict(
            stay=([[1 - e, e], [0, 1]], 0),
            ladder=([[1 - e, e, 0, 0], [e, 1 - 2 * e, e, 0], [0, 0, 1, 0], [0, 0.5, 0, 0.5]], 3),
            two=([[e / 2, 1 - e, e / 2], [0, 1, 0], [0, 0, 1]], 0),
            far=([[1, 0, 0, 0], [0.5, 0, 0.5, 0], [0, 0.5, 0.5 - e, e], [0, 0, 0, 1]], 1),
        )
        for name, (P, s) in chains.items():
            key = f"paths/{name}/{k}"
            P = np.array(P)
            ch0 = komm.MarkovChain(P)
            A = {i for i in range(len(P)) if P[i, i] == 1}
            ctx.state()
            for seed in range(seeds if k < 9 else seeds // 4 + 1):
                ctx.at(key, seed)
                with ctx.guard(key):
                    ch = komm.MarkovChain(P, rng=np.random.Generator(np.random.MT19937(seed)))
                    p = np.asarray(ch.simulate_until_absorption(s))
                    ok = p[0] == s and p[-1] in A and not (set(p[:-1].tolist()) & A) and bool(np.all(P[p[:-1], p[1:]] > 0))
                    ctx.ok(ok, key, f"tape {seed}: path of {p.size} states from {p[0]} to {p[-1]}")
                    ctx.step(p.size)
                    q = np.asarray(ch.simulate(s, 300))
                    ctx.ok(q.shape == (300,) and q[0] == s and bool(np.all(P[q[:-1], q[1:]] > 0)), key, f"tape {seed}: simulate")
                    ctx.trace(2)


def t_simulate(ctx, n, K, steps, part, parts):
    ctx.bound("chains", f"all {n}-state chains with probabilities in multiples of 1/{K}, every initial state, paths of up to {steps} states, all random tapes")
    rows = list(compositions(K, n, 0))
    for no, W in enumerate(itertools.product(rows, repeat=n)):
        if no % parts != part:
            continue
        F = np.array(W) / K
        g = [sum(1 << j for j in range(n) if r[j]) for r in W]
        f = facts(g)
        ctx.state()
        for s in range(n):
            key = f"simulate/{[list(r) for r in W]}/{K}/{s}"
            ctx.at(key)
            with ctx.guard(key):
                ctx.eq(np.asarray(komm.MarkovChain(F, rng=T_.doubles([])).simulate(s, 0)), np.zeros(0), key, "no steps")
                want = {}
                for path in itertools.product(range(n), repeat=steps - 1):
                    w, cur = 1, s
                    for y in path:
                        w *= W[cur][y]
                        cur = y
                    if w:
                        want[(s,) + path] = w
                count = {}
                for ks in itertools.product(range(K), repeat=steps - 1):
                    rng = T_.doubles([(k + 0.5) / K for k in ks] + [0.5])
                    p = tup(komm.MarkovChain(F, rng=rng).simulate(s, steps))
                    count[p] = count.get(p, 0) + 1
                    ctx.trace()
                    if T_.consumed < steps - 1 and len(want) > 1:
                        ctx.fail(key, f"{T_.consumed} random words for {steps - 1} transitions")
                ctx.ok(count == want, key, f"law of the path: {short(sorted(count.items()))} instead of {short(sorted(want.items()))}")
                ctx.outcome(sorted(count.items()))
                if f["is_absorbing"]:
                    # weights of prefixes: stop when absorbed, or cut at the depth of the tape
                    want, front = {}, {(s,): 1}
                    for d in range(steps):
                        new = {}
                        for p, w in front.items():
                            if p[-1] in f["absorbing"]:
                                want[p] = w * K ** (steps - d)
                            elif d:
                                new[p] = w
                            else:
                                new[p] = w
                        front = {}
                        for p, w in new.items():
                            for y in range(n):
                                if W[p[-1]][y]:
                                    front[p + (y,)] = front.get(p + (y,), 0) + w * W[p[-1]][y]
                    for p, w in front.items():
                        want[p] = want.get(p, 0) + w
                    count = {}
                    for ks in itertools.product(range(K), repeat=steps):
                        rng = T_.doubles([(k + 0.5) / K for k in ks])
                        p = tup(komm.MarkovChain(F, rng=rng).simulate_until_absorption(s))
                        ctx.trace()
                        ctx.ok(p[-1] in f["absorbing"] and not set(p[:-1]) & f["absorbing"], key, f"path {p} does not end at its first absorbing state")
                        p = p[: steps + 1]
                        count[p] = count.get(p, 0) + 1
                    ctx.ok(count == want, key, f"law of the path until absorption: {short(sorted(count.items()))} instead of {short(sorted(want.items()))}")


def t_source(ctx, K, top, T):
    ctx.bound("sources", f"all pmfs of up to {top} symbols in multiples of 1/{K}; all shapes of up to {T} symbols; all tapes")
    for m in range(1, top + 1):
        for w in compositions(K, m, 0):
            pmf = [x / K for x in w]
            key = f"source/{list(w)}/{K}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                s = komm.DiscreteMemorylessSource(pmf)
                ctx.close(s.pmf, pmf, key, "pmf", tol=1e-15)
                ctx.eq(s.cardinality, m, key, "cardinality")
                big = np.asarray(s.emit((13, 40, 2)))
                ctx.ok(big.shape == (13, 40, 2) and bool(np.all(np.array(w)[big] > 0)), key, "a large array of symbols")
                for base, b in ((2.0, 2.0), ("e", math.e), (3.0, 3.0), (10, 10.0), (0.5, 0.5)):
                    h = math.fsum(-p * math.log(p) for p in pmf if p) / math.log(b)
                    ctx.close(s.entropy_rate(base), h, key, f"entropy rate, base {base}", tol=1e-12)
                for t in range(0, T + 1):
                    for shape in {0: [(0,), 0], 1: [None, 1, (1,), (1, 1)], 2: [2, (2,), (2, 1)], 3: [3, (3,), (1, 3)]}[t]:
                        want = product_law([list(w)] * t, K)
                        full = (1,) if shape is None else (shape,) if isinstance(shape, int) else shape

                        def run(rng):
                            y = komm.DiscreteMemorylessSource(pmf, rng=rng).emit(shape)
                            ctx.step()
                            if np.shape(y) != full:
                                ctx.fail(key, f"emit({shape}) has shape {np.shape(y)}")
                            return tup(y)

                        law(ctx, f"{key}/{shape}", t, K, run, want, trivial=len(want) == 1)
                for u in (0.0, 2**-53, 1 - 2**-53):
                    y = komm.DiscreteMemorylessSource(pmf, rng=T_.doubles([u])).emit()
                    ctx.ok(w[int(y[0])] > 0, key, f"symbol {y} of probability zero at {u}")
    for m in (2, 3, 16, 17, 255, 256, 257, 300):
        # each of the 312 doubles of a tape, at the middle of a cell of size 1/K, emits the symbol of that cell
        for name, w in (("uniform", [1] * m), ("rising", [i % 5 for i in range(m)]), ("two", [3] + [0] * (m - 2) + [2])):
            K = sum(w)
            key = f"source/{name}/{m}"
            ctx.state()
            with ctx.guard(key):
                want = [i for i in range(m) for _ in range(w[i])]
                got = []
                for b in range(0, K, 300):
                    n = min(300, K - b)
                    rng = T_.doubles([(b + i + 0.5) / K for i in range(n)])
                    got += np.asarray(komm.DiscreteMemorylessSource([x / K for x in w], rng=rng).emit(n)).tolist()
                    ctx.trace(n)
                ctx.ok(sorted(got) == want, key, "law of one symbol over a large alphabet")
    for m in range(1, 9):
        s = komm.DiscreteMemorylessSource(m)
        ctx.close(s.pmf, [1 / m] * m, f"source/{m}", "uniform pmf", tol=1e-15)
        ctx.close(s.entropy_rate(), math.log2(m), f"source/{m}", "entropy rate of the uniform source")
    for bad in (0, -1, [0.5, 0.4], [1.5, -0.5], [[0.5, 0.5]], []):
        ctx.raises(ValueError, lambda: komm.DiscreteMemorylessSource(bad), f"source/reject/{bad}", "pmf")


def t_source_long(ctx, tier):
    """Thousands of symbols in one call: constant and periodic tapes."""
    ns = (300, 1025, 4099, 70001 if tier == "thorough" else 20011)
    ctx.bound("long sources", f"8 pmfs, {ns} symbols in one to three dimensions")
    for w in ([1, 1], [3, 5], [1, 0, 2, 5], [0, 4, 0, 4], [1, 2, 3, 4, 6], [7, 1, 0, 0, 0, 0, 0, 8], [1] * 13, [5]):
        K = sum(w)
        pmf = [x / K for x in w]
        cell = np.repeat(np.arange(len(w)), w)
        with ctx.guard(f"source-long/{w}"):
            table = [int(komm.DiscreteMemorylessSource(pmf, rng=T_.doubles([(k + 0.5) / K])).emit(1)[0]) for k in range(K)]
            ctx.eq(sorted(table), cell.tolist(), f"source-long/{w}", "law of one symbol")
        for n in ns:
            for shape in ((n,), (n // 7, 7), (n // 6, 2, 3), (n, 1)):
                key = f"source-long/{w}/{shape}"
                ctx.at(key)
                N = math.prod(shape)
                with ctx.guard(key):
                    s = Stream(doubles=lambda i: (i % K + 0.5) / K)
                    y = np.asarray(komm.DiscreteMemorylessSource(pmf, rng=s.rng).emit(shape))
                    ctx.step()
                    ctx.ok(y.shape == shape and np.issubdtype(y.dtype, np.integer), key, "shape or type")
                    if len([x for x in w if x]) > 1:
                        ctx.ok(s.count >= N, key, f"{s.count} uniforms drawn for {N} symbols")
                    if s.wild or s.count != N:
                        ctx.bound("fallback " + key, "support only")
                        ctx.ok(bool(np.all(np.array(w)[y] > 0)), key, "symbol of probability zero")
                        continue
                    ctx.eq(np.bincount(y.ravel(), minlength=len(w)), np.bincount([table[i % K] for i in range(N)], minlength=len(w)), key, "counts of the symbols")
                    for k in range(0, K, max(1, K // 4)):
                        y = np.asarray(komm.DiscreteMemorylessSource(pmf, rng=Stream(doubles=lambda i: (k + 0.5) / K).rng).emit(shape))
                        ctx.ok(bool(np.all(y == table[k])), key, "constant tape")
                        ctx.step()
                    ctx.state()
                    ctx.trace()
                    ctx.outcome((key, table))


def t_rare(ctx):
    """The law of one symbol and of one step to the last bit of the uniform variate."""
    ctx.bound("rare", f"sources and chains with rare symbols and steps of probability {RARE}; all 2^53 uniforms (by bisection)")
    for e in RARE:
        rows = [[1 - e, e], [e, 1 - e], [e, 0, 1 - e], [0.5 - e, e, 0.5], [e, 0.25, e, 0.5, 0.25 - 2 * e], [1 - 3 * e, e, e, e], [0, 1 - e, e], [0, 0, e, 0, 1 - e, 0], [0, 0, 0, 1]]
        for no, row in enumerate(rows):
            rare_law(ctx, f"rare/source{no}/{e!r}", row, lambda rng: int(komm.DiscreteMemorylessSource(row, rng=rng).emit(1)[0]))
            n = len(row)
            P = np.eye(n)
            P[n - 1 - no % n] = row
            s = n - 1 - no % n
            rare_law(ctx, f"rare/chain{no}/{e!r}", row, lambda rng: int(komm.MarkovChain(P, rng=rng).simulate(s, 2)[1]))


def tasks(tier):
    th = tier == "thorough"
    out = [("exact/1", t_exact, dict(n=1, K=2, part=0, parts=1)), ("exact/2", t_exact, dict(n=2, K=12, part=0, parts=1))]
    for p in range(2):
        out.append((f"exact/3/{p}", t_exact, dict(n=3, K=5 if th else 4, part=p, parts=2)))
    for p in range(8):
        out.append((f"exact/4/{p}", t_exact, dict(n=4, K=3 if th else 2, part=p, parts=8)))
    for p in range(8):
        out.append((f"classes/5/{p}", t_reps, dict(n=5, hi=3 if th else 2, part=p, parts=8)))
    out += [("slow", t_slow, dict(top=40)), ("paths", t_paths, dict(seeds=200 if th else 25, length=20000 if th else 3000))]
    out.append(("rings", t_rings, dict(ns=[3, 8, 9, 10, 11, 17] + ([18, 33] if th else []))))
    out.append(("simulate/2", t_simulate, dict(n=2, K=4, steps=4, part=0, parts=1)))
    for p in range(4):
        out.append((f"simulate/3/{p}", t_simulate, dict(n=3, K=3 if th else 2, steps=4, part=p, parts=4)))
    out.append(("rare", t_rare, {}))
    out.append(("source-long", t_source_long, dict(tier=tier)))
    out.append(("source", t_source, dict(K=6 if th else 4, top=4, T=3)))
    return out
