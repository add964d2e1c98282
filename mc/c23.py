"""C23: the structural answers of Markov chains (accessibility, classes, transience, periods, regularity, absorption)
are right for every transition graph, whatever was asked before."""

import itertools
import math

import numpy as np

import komm

from .core import short

ASSUMPTIONS = ["a state that is never revisited has period 0 (no return times)", "a chain is absorbing iff it has absorbing states and reaches one from every state"]


def graphs(n, lo=1, hi=None):
    rows = [r for r in range(1, 2**n) if lo <= r.bit_count() <= (hi or n)]
    return itertools.product(rows, repeat=n)


def adjacency(g):
    n = len(g)
    return [[g[i] >> j & 1 for j in range(n)] for i in range(n)]


WEIGHTS = ("uniform", "skew", "tiny", "faint", "rounded")


def matrix(g, weights):
    """weights='uniform', 'skew', 'tiny' (all but one arrow of a state have probability 2^-50), 'faint' (the same with
    2^-70: the large one is 1) or 'rounded' (rows fall short of 1 by rounding)"""
    n = len(g)
    P = np.zeros((n, n))
    for i in range(n):
        js = [j for j in range(n) if g[i] >> j & 1]
        w = [1.0 if weights == "uniform" else k + 1.0 for k in range(len(js))]
        if weights == "tiny":
            w = [2.0**-50] * len(js)
            w[i % len(js)] = 1 - (len(js) - 1) * 2.0**-50
        if weights == "faint":
            w = [2.0**-70] * len(js)
            w[i % len(js)] = 1.0
        for j, x in zip(js, w):
            P[i, j] = x / sum(w) * (1 - 2.0**-53 if weights == "rounded" else 1)
    return P


def classes_of_graphs(n, hi):
    """One graph of every isomorphism class of graphs on n states with 1 to hi arrows out of every state."""
    rows = np.array([r for r in range(1, 2**n) if r.bit_count() <= hi])
    grid = np.stack([a.reshape(-1) for a in np.meshgrid(*[rows] * n, indexing="ij")])
    code = sum(grid[i] << n * i for i in range(n))
    for p in itertools.permutations(range(n)):
        T = np.array([sum(1 << p[j] for j in range(n) if r >> j & 1) for r in range(2**n)])
        keep = sum(T[grid[i]] << n * p[i] for i in range(n)) >= code
        grid, code = grid[:, keep], code[keep]
    return [list(map(int, g)) for g in grid.T]


def facts(g):
    """Everything from the definitions, by powers of the relation (bitmask rows)."""
    n = len(g)

    def mul(a, b):
        out = []
        for i in range(n):
            r, x, j = 0, a[i], 0
            while x:
                if x & 1:
                    r |= b[j]
                x >>= 1
                j += 1
            out.append(r)
        return out

    ident = [1 << i for i in range(n)]
    reach = ident
    p = ident
    returns = [0] * n  # gcd of return times
    prim = None
    seen = set()
    horizon = max(3 * n, (n - 1) ** 2 + 1)
    for t in range(1, horizon + 1):
        p = mul(p, g)
        if t <= n:
            reach = [a | b for a, b in zip(reach, p)]
        for i in range(n):
            if p[i] >> i & 1:
                returns[i] = math.gcd(returns[i], t)
        if prim is None and all(r == 2**n - 1 for r in p):
            prim = t
        if t >= 3 * n and (prim is not None or tuple(p) in seen):
            break  # the powers have come full circle
        seen.add(tuple(p))
    S = lambda m: {j for j in range(n) if m >> j & 1}
    acc = [S(r) for r in reach]
    classes = {frozenset(j for j in acc[i] if i in acc[j]) for i in range(n)}
    transient = {i for i in range(n) if any(i not in acc[j] for j in acc[i])}
    absorbing = {i for i in range(n) if g[i] == 1 << i}
    return dict(
        acc=acc, classes=classes, transient=transient, absorbing=absorbing, period=returns, prim=prim,
        is_absorbing=bool(absorbing) and all(absorbing & a for a in acc),
    )


QUERIES = ["accessible", "classes", "irreducible", "transient", "recurrent", "regular", "primitivity", "absorbing", "is_absorbing", "period", "aperiodic"]


def ask(ctx, key, ch, f, q, spoil=False):
    n = len(f["acc"])
    ctx.step()
    if q == "accessible":
        for i in range(n):
            r = ch.accessible_states_from(i)
            ctx.ok(set(r) == f["acc"][i], key, f"accessible from {i}: {r}", r)
            if spoil:
                r.clear()
    elif q == "classes":
        r = ch.communicating_classes()
        ctx.ok(len(r) == len(f["classes"]) and {frozenset(c) for c in r} == f["classes"], key, f"classes {r}", r)
        if spoil:
            for c in r:
                c.add(-1)
            r.clear()
    elif q == "irreducible":
        ctx.ok(ch.is_irreducible() is (len(f["classes"]) == 1), key, f"is_irreducible() = {ch.is_irreducible()}")
    elif q == "transient":
        r = ch.transient_states()
        ctx.ok(set(r) == f["transient"], key, f"transient {r}", r)
        if spoil:
            r.add(-1)
    elif q == "recurrent":
        r = ch.recurrent_states()
        ctx.ok(set(r) == set(range(n)) - f["transient"], key, f"recurrent {r}", r)
        if spoil:
            r.clear()
    elif q == "regular":
        ctx.ok(bool(ch.is_regular()) == (f["prim"] is not None), key, f"is_regular() = {ch.is_regular()}")
    elif q == "primitivity":
        if f["prim"] is None:
            ctx.raises(ValueError, ch.index_of_primitivity, key, "index of primitivity of a chain that is not regular")
        else:
            ctx.eq(ch.index_of_primitivity(), f["prim"], key, "index of primitivity")
    elif q == "absorbing":
        r = ch.absorbing_states()
        ctx.ok(set(r) == f["absorbing"], key, f"absorbing {r}", r)
        if spoil:
            r.add(-1)
    elif q == "is_absorbing":
        ctx.ok(bool(ch.is_absorbing()) == f["is_absorbing"], key, f"is_absorbing() = {ch.is_absorbing()}")
    elif q == "period":
        r = [ch.period(i) for i in range(n)]
        ctx.ok(r == f["period"], key, f"periods {r} instead of {f['period']}", r)
    elif q == "aperiodic":
        ctx.ok(bool(ch.is_aperiodic()) == all(d == 1 for d in f["period"]), key, f"is_aperiodic() = {ch.is_aperiodic()}")


def t_graphs(ctx, n, lo, hi, part, parts):
    ctx.bound("graphs", f"all graphs on {n} states with {lo} to {hi or n} arrows out of every state; weightings {WEIGHTS}")
    for no, g in enumerate(graphs(n, lo, hi)):
        if no % parts != part:
            continue
        f = facts(g)
        ctx.state()
        for w in WEIGHTS if n < 4 else (WEIGHTS[no // parts % 5],):
            key = f"graph/{n}/{list(g)}/{w}"
            ctx.at(key)
            ctx.trace()
            with ctx.guard(key):
                ch = komm.MarkovChain(matrix(g, w))
                ctx.eq(ch.num_states, n, key, "num_states")
                for q in QUERIES:
                    ask(ctx, key, ch, f, q)
        ctx.outcome((sorted(map(len, f["classes"])), sorted(f["period"]), f["prim"], len(f["absorbing"])))


def t_reps(ctx, n, hi, part, parts):
    ctx.bound("graphs", f"one graph of every isomorphism class on {n} states with 1 to {hi} arrows out of every state")
    for no, g in enumerate(classes_of_graphs(n, hi)):
        if no % parts != part:
            continue
        f = facts(g)
        ctx.state()
        w = WEIGHTS[no // parts % 5]
        key = f"graph/{n}/{g}/{w}"
        ctx.at(key)
        ctx.trace()
        with ctx.guard(key):
            ch = komm.MarkovChain(matrix(g, w))
            for q in QUERIES:
                ask(ctx, key, ch, f, q)


def t_huge(ctx, sizes):
    """Sizes beyond machine words and recursion limits."""
    ctx.bound("huge", f"lines, cycles with chords, ladders of classes and stars of {sizes} states")
    for n in sizes:
        line = [1 << min(i + 1, n - 1) for i in range(n)]
        back = [1 << max(i - 1, 0) for i in range(n)]
        walk = [1 << min(i + 1, n - 1) | 1 << max(i - 1, 0) for i in range(n)]
        even = [1 << (i + 1) % n | 1 << (i - 1) % n for i in range(n)]
        ladder = [1 << (i ^ 1 if (i ^ 1) < n else i) | 1 << min(i + 2, n - 1) for i in range(n)]
        both_ends = [1 << i if i in (0, n - 1) else 1 << i - 1 | 1 << i + 1 for i in range(n)]
        frozen = [1 << i for i in range(n)]
        chord = [1 << (i + 1) % n for i in range(n)]
        chord[n - 1] |= 1 << n // 3
        full = [2**n - 1] * n
        shift = [(1 << (2 * i) % n) | (1 << (2 * i + 1) % n) for i in range(n)]
        for name, g in dict(line=line, back=back, walk=walk, even=even, ladder=ladder, both=both_ends, frozen=frozen, chord=chord, full=full, shift=shift).items():
            key = f"huge/{n}/{name}"
            ctx.at(key)
            f = facts(g)
            for w in ("uniform", "tiny"):
                if w == "tiny" and name == "full":
                    continue
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    ch = komm.MarkovChain(matrix(g, w))
                    for q in QUERIES:
                        ask(ctx, key, ch, f, q)


def blow_up(g, m):
    """Every state replaced by m copies, with all arrows between copies of joined states."""
    n = len(g)
    block = (1 << m) - 1
    return [sum(block << m * j for j in range(n) if g[i] >> j & 1) for i in range(n) for _ in range(m)]


def t_blowups(ctx, sizes, wielandt):
    """Many paths between the same two states: their numbers pass every word size."""
    ctx.bound("blow-ups", f"all base graphs on 1 to 3 states with every state replaced by m copies, m in {sizes}; Wielandt graphs on {wielandt} states with 16 copies")
    for m in sizes:
        bases = [g for n in (1, 2, 3) for g in graphs(n)]
        if m == 16:
            bases += [tuple(1 << (i + 1) % n | (2 * (i == n - 1)) for i in range(n)) for n in wielandt]
        for no, base in enumerate(bases):
            g = blow_up(base, m)
            key = f"blowup/{m}/{list(base)}"
            ctx.at(key)
            f = facts(g)
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                ch = komm.MarkovChain(matrix(g, ("uniform", "skew")[no % 2]))
                for q in QUERIES:
                    ask(ctx, key, ch, f, q)


def t_orders(ctx, n, depth):
    ctx.bound("histories", f"all graphs on {n} states, all sequences of {depth} queries whose results the caller overwrites, then all queries")
    for g in graphs(n):
        f = facts(g)
        P = matrix(g, "uniform")
        for hist in itertools.product(QUERIES, repeat=depth):
            key = f"order/{n}/{list(g)}/{'-'.join(hist)}"
            ctx.at(key)
            with ctx.guard(key):
                ch = komm.MarkovChain(P)
                for q in hist:
                    ask(ctx, key, ch, f, q, spoil=True)
                for q in QUERIES:
                    ask(ctx, key, ch, f, q)
            ctx.trace()
        ctx.state()


def t_large(ctx, top):
    """Cycles with one chord, chains of classes, and all absorbing subsets of a ring, beyond nine states."""
    ctx.bound("graphs", f"cycles of up to {top} states with every chord; two cycles joined by an arrow; primitivity at the Wielandt bound")
    for n in range(5, top + 1):
        cyc = [1 << (i + 1) % n for i in range(n)]
        cases = [("cycle", cyc)]
        for j in range(n):
            g = list(cyc)
            g[0] |= 1 << j
            cases.append((f"chord{j}", g))
        for a in range(1, n):
            g = [1 << ((i + 1) % a) if i < a else 1 << (a + (i - a + 1) % (n - a)) for i in range(n)]
            g2 = list(g)
            g2[0] |= 1 << (n - 1)
            cases += [(f"two{a}", g), (f"joined{a}", g2)]
        star = [(1 << n) - 1] + [1 << 0] * (n - 1)
        cases.append(("star", star))
        for name, g in cases:
            key = f"large/{n}/{name}"
            ctx.at(key)
            f = facts(g)
            with ctx.guard(key):
                ch = komm.MarkovChain(matrix(g, "uniform"))
                for q in QUERIES:
                    ask(ctx, key, ch, f, q)
            ctx.state()
            ctx.trace()


def t_reject(ctx):
    ctx.state()
    ctx.trace()
    for bad in ([[0.5, 0.5]], [[1.0], [1.0]], [[0.5, 0.4], [0.5, 0.5]], [[1.5, -0.5], [0.5, 0.5]], [1.0], [[[1.0]]]):
        ctx.raises(ValueError, lambda: komm.MarkovChain(bad), f"reject/{bad}", "transition matrix")


def tasks(tier):
    th = tier == "thorough"
    out = [(f"graphs/{n}", t_graphs, dict(n=n, lo=1, hi=None, part=0, parts=1)) for n in (1, 2, 3)]
    for p in range(8):
        out.append((f"graphs/4/{p}", t_graphs, dict(n=4, lo=1, hi=None, part=p, parts=8)))
    if th:
        for p in range(16):
            out.append((f"graphs/5/{p}", t_graphs, dict(n=5, lo=1, hi=2, part=p, parts=16)))
    hi, parts = (3, 24) if th else (2, 4)
    for p in range(parts):
        out.append((f"classes/5/{p}", t_reps, dict(n=5, hi=hi, part=p, parts=parts)))
    for n in (17, 33, 40, 65, 66) + ((100, 130) if th else ()):
        out.append((f"huge/{n}", t_huge, dict(sizes=[n])))
    for m in (2, 4, 16) + ((3, 8, 17, 32) if th else ()):
        out.append((f"blowups/{m}", t_blowups, dict(sizes=[m], wielandt=[4, 5, 6] if th else [4, 5])))
    out += [("orders/2", t_orders, dict(n=2, depth=3)), ("orders/3", t_orders, dict(n=3, depth=2)), ("large", t_large, dict(top=14)), ("reject", t_reject, {})]
    return out
