"""C13: Huffman codes attain the optimum over all prefix codes under either policy; Shannon and Fano codes obey
their definitions; all are complete/lossless prefix codes."""

import functools
import itertools
import math
from fractions import Fraction

import numpy as np

import komm

from .core import short
from .c12 import prefix_free

ASSUMPTIONS = ["probabilities are multiples of 1/2^m (exact in floating point) or of 1/m (checked to 1e-9)"]


@functools.cache
def profiles(m):
    """All multisets of codeword lengths of full binary trees with m leaves (sorted)."""
    if m == 1:
        return frozenset({(0,)})
    out = set()
    for a in range(1, m // 2 + 1):
        for p in profiles(a):
            for q in profiles(m - a):
                out.add(tuple(sorted(x + 1 for x in p + q)))
    return frozenset(out)


def optimum(weights):
    """Least sum of weight*length, with the least max and least total length among the optimal profiles."""
    w = sorted(weights, reverse=True)
    best = None
    for p in profiles(len(w)):
        c = sum(a * b for a, b in zip(w, p))
        t = (c, max(p), sum(p))
        best = t if best is None or t < best else best
    c = best[0]
    return c, best[1], min(sum(p) for p in profiles(len(w)) if sum(a * b for a, b in zip(w, p)) == c)


def huffman_profiles(weights, policy):
    """Every multiset of (weight, length) reachable by merging two least nodes, ties resolved in favour of leaves
    ('high') or of combined nodes ('low'), remaining ties resolved in all ways."""
    W = tuple(sorted((w, 1 if policy == "low" else 0, (0,), (w,)) for w in weights))
    # node: (weight, rank, depths, leaf weights); rank 0 is taken first on ties
    lo, hi = (0, 1)
    memo = set()
    done = set()
    todo = [W]
    while todo:
        nodes = todo.pop()
        if len(nodes) == 1:
            done.add(tuple(sorted(zip(nodes[0][3], nodes[0][2]))))
            continue
        for i in range(len(nodes)):
            if any((n[0], n[1]) < (nodes[i][0], nodes[i][1]) for n in nodes):
                continue
            rest = nodes[:i] + nodes[i + 1 :]
            for j in range(len(rest)):
                if any((n[0], n[1]) < (rest[j][0], rest[j][1]) for n in rest):
                    continue
                a, b = nodes[i], rest[j]
                pair = sorted(zip(a[3] + b[3], [d + 1 for d in a[2] + b[2]]))
                new = (a[0] + b[0], 0 if policy == "low" else 1, tuple(d for _, d in pair), tuple(w for w, _ in pair))
                nx = tuple(sorted(rest[:j] + rest[j + 1 :] + (new,)))
                if nx not in memo:
                    memo.add(nx)
                    todo.append(nx)
    return done


def compositions(total, parts, least=0):
    if parts == 1:
        if total >= least:
            yield (total,)
        return
    for a in range(least, total - least * (parts - 1) + 1):
        for r in compositions(total - a, parts - 1, least):
            yield (a,) + r


def common(ctx, key, code, k, S):
    W = [tuple(w) for w in code.codewords]
    srcs = list(itertools.product(range(S), repeat=k))
    ctx.ok(list(code.enc_mapping) == srcs or set(code.enc_mapping) == set(srcs), key, "domain of the mapping")
    ctx.ok(prefix_free(W) and all(W) and all(b in (0, 1) for w in W for b in w), key, f"not a prefix code: {W}")
    ctx.ok(code.is_prefix_free() and code.is_uniquely_decodable(), key, "flags")
    ctx.eq((code.source_cardinality, code.target_cardinality, code.source_block_size, code.size), (S, 2, k, len(srcs)), key, "parameters")
    ctx.close(code.kraft_parameter(), sum(0.5 ** len(w) for w in W), key, "Kraft parameter")
    x = [s for t in srcs for s in t]
    ctx.ok(np.array(code.decode(code.encode(x))).tolist() == x, key, "round trip of all source words")
    ctx.step(3)
    return [tuple(code.enc_mapping[t]) for t in srcs]


def skewed(top):
    """Weights spread over many orders of magnitude, in every order, over 2^top."""
    out = []
    for tiny in [(1, 1, 2), (1, 3, 2**13), (1, 1, 2, 3), (5, 2, 2**9, 2**17), (1, 2**8, 2**16, 2**24), (1, 2, 2**20, 2**20 + 1), (1, 1, 2**7, 2**top // 3)]:
        w = tiny + (2**top - sum(tiny),)
        out += sorted(set(itertools.permutations(w)))
    return out


def t_huffman(ctx, m, total, k, dyadic, part, parts, tie_check, weights=None):
    ctx.bound("pmfs", f"{'all vectors of ' + str(m) if weights is None else str(len(weights)) + ' skewed vectors of'} weights summing to {total}, over {total}; k={k}; both policies and assignments")
    for n, w in enumerate(compositions(total, m) if weights is None else weights):
        if n % parts != part:
            continue
        m = len(w)
        ext = [math.prod(c) for c in itertools.product(w, repeat=k)]
        key = f"huffman/{w}/{k}"
        ctx.at(key)
        c, mx, tot = optimum(ext)
        best = Fraction(c, total**k * k)
        lens = {}
        pmf = [x / total for x in w]
        for policy in ("high", "low"):
            reach = huffman_profiles(ext, policy) if tie_check else None
            for assign in ("tree", "canonical"):
                with ctx.guard(key):
                    code = komm.HuffmanCode(list(pmf), k, policy, assign)
                    W = common(ctx, key, code, k, m)
                    L = [len(x) for x in W]
                    got = sum(a * b for a, b in zip(ext, L))
                    if dyadic:
                        ctx.ok(got == c, key, f"{policy}/{assign}: expected length {got}/{total**k}, optimum {c}/{total**k}")
                        if policy == "high":
                            ctx.ok(max(L) == mx and sum(L) == tot, key, f"high policy: lengths {L}, but an optimal code has max {mx} and total {tot}")
                        if reach is not None:
                            ctx.ok(tuple(sorted(zip(ext, L))) in reach, key, f"{policy}: lengths {L} cannot arise with this tie rule")
                    else:
                        ctx.ok(abs(got - c) <= 1e-9 * c, key, f"{policy}/{assign}: expected length {got}, optimum {c}")
                    ctx.ok(sum(2 ** (max(L) - l) for l in L) == 2 ** max(L), key, f"tree not full: {L}")
                    ctx.close(code.rate(pmf), float(best), key, "rate")
                    lens[policy, assign] = L
                    if assign == "canonical":
                        ctx.ok(sorted(W, key=lambda x: (len(x), W.index(x))) == sorted(W), key, f"canonical words out of order: {W}")
                    ctx.step(2)
            ctx.ok(lens.get((policy, "tree")) == lens.get((policy, "canonical")), key, f"assignment changed the lengths {lens}")
        if dyadic and len(lens) == 4:
            ctx.ok(sum(x * l * l for x, l in zip(ext, lens["high", "tree"])) <= sum(x * l * l for x, l in zip(ext, lens["low", "tree"])), key, "high policy has larger variance than low")
        ctx.state()
        ctx.trace()
        ctx.outcome((tuple(sorted(map(tuple, lens.values()))),))
    ctx.sample(w)


def fano_ok(p, L):
    """Are the lengths L producible by recursive splitting into two groups 'as equal as possible' (any order of equal
    probabilities, any best split)?"""

    @functools.cache
    def go(items):  # items: tuple of weights sorted in descending order -> set of length tuples (per item)
        if len(items) == 1:
            return frozenset({(0,)})
        tot = sum(items)
        diffs = [abs(2 * sum(items[: i + 1]) - tot) for i in range(len(items) - 1)]
        out = set()
        for i, d in enumerate(diffs):
            if d == min(diffs):
                for a in go(items[: i + 1]):
                    for b in go(items[i + 1 :]):
                        out.add(tuple(x + 1 for x in a + b))
        return frozenset(out)

    s = tuple(sorted(p, reverse=True))
    want = sorted(zip(p, L))
    return any(sorted(zip(s, t)) == want for t in go(s))


def t_fano_shannon(ctx, m, total, k, part, parts, weights=None):
    ctx.bound("pmfs", f"{'all vectors of ' + str(m) if weights is None else str(len(weights)) + ' skewed vectors of'} weights summing to {total}, over {total}; k={k}")
    for n, w in enumerate(compositions(total, m) if weights is None else weights):
        if n % parts != part:
            continue
        m = len(w)
        ext = [math.prod(c) for c in itertools.product(w, repeat=k)]
        pmf = [x / total for x in w]
        key = f"fano/{w}/{k}"
        ctx.at(key)
        with ctx.guard(key):
            W = common(ctx, key, komm.FanoCode(list(pmf), k), k, m)
            L = [len(x) for x in W]
            ctx.ok(fano_ok(tuple(ext), L), key, f"lengths {L} do not come from any most even recursive split")
            ctx.ok(sum(2 ** (max(L) - l) for l in L) == 2 ** max(L), key, f"tree not full: {L}")
            ctx.close(komm.FanoCode(list(pmf), k).rate(pmf), float(sum(Fraction(a, total**k) * b for a, b in zip(ext, L)) / k), key, "rate")
        key = f"shannon/{w}/{k}"
        if min(w) == 0:
            ctx.raises(ValueError, lambda: komm.ShannonCode(list(pmf), k), key, "a zero probability")
        else:
            with ctx.guard(key):
                code = komm.ShannonCode(list(pmf), k)
                W = common(ctx, key, code, k, m)
                L = [len(x) for x in W]
                want = [next(l for l in itertools.count(1) if 2**l * e >= total**k) for e in ext]
                ctx.ok(L == want, key, f"lengths {L}, ceil(log2 1/p) = {want}")
                H = -sum(x * math.log2(x) for x in pmf)
                r = code.rate(pmf)
                ctx.ok(H - 1e-9 <= r < H + 1 / k + 1e-9, key, f"rate {r} outside [H, H+1/k), H={H}")
        ctx.step(3)
        ctx.state()
        ctx.trace()
        ctx.outcome((w, tuple(L)))
    ctx.sample(w)


def t_shannon_edges(ctx, top):
    """Probabilities just beside the powers of two, and as small as doubles get."""
    ctx.bound("pmfs", f"[2^-j +- 2^-t, rest] for j <= 8, t <= 46; [2^-t, rest] for t to {top}; blocks of 1 and 2")
    cases = []
    for j in range(1, 9):
        for t in range(j + 1, 47):
            cases += [(2.0**-j + s * 2.0**-t, 1 - 2.0**-j - s * 2.0**-t) for s in (1, -1)]
            cases += [(2.0**-j + s * 2.0**-t, 2.0**-j - s * 2.0**-t, 1 - 2.0 ** (1 - j)) for s in (1, -1) if j > 1]
    cases += [(2.0**-t, 1 - 2.0**-t) for t in range(1, top + 1, 1 if top < 400 else 7)] + [(2.0**-top, 1.0)]
    for p in cases:
        for k in (1, 2):
            key = f"shannon-edge/{p}/{k}"
            ctx.at(key)
            with ctx.guard(key):
                L = [len(c) for c in komm.ShannonCode(list(p), k).enc_mapping.values()]
                for l, c in zip(L, itertools.product(p, repeat=k)):
                    e = Fraction(math.prod(c))
                    if e == 0:
                        continue
                    want = next(n for n in itertools.count(1) if 2**n * e >= 1)
                    near = abs(Fraction(2) ** (want - 1) * e - 1) < Fraction(1, 2**45)  # the logarithm rounds to an integer
                    ctx.ok(l == want or near and abs(l - want) <= 1, key, f"lengths {L}, expected {want} for {float(e)}")
            ctx.step()
            ctx.state()
            ctx.trace()
            ctx.outcome(tuple(L))


def t_reject(ctx):
    for name in ("HuffmanCode", "ShannonCode", "FanoCode"):
        C = getattr(komm, name)
        for what, args in [("sum not one", ([0.5, 0.4],)), ("negative", ([1.5, -0.5],)), ("two-dimensional", ([[0.5, 0.5]],)), ("block size 0", ([0.5, 0.5], 0)), ("one symbol", ([1.0],))]:
            ctx.raises(ValueError, lambda: C(*args), f"reject/{name}/{what}", what)
            ctx.state()
            ctx.trace()
            ctx.outcome((name, what))
    ctx.raises(ValueError, lambda: komm.HuffmanCode([0.5, 0.5], 1, "middle"), "reject/policy", "policy")
    ctx.raises(ValueError, lambda: komm.HuffmanCode([0.5, 0.5], 1, "low", "x"), "reject/assignment", "assignment")
    ctx.step(17)
    ctx.sample("reject")


def two_queues(weights):
    """Huffman's algorithm over exact integers with two queues, leaves first on ties: (cost, longest, total length). For any
    tie rule the cost is the same; this one gives the least longest word and the least total length (compared with the
    exhaustive optimum in t_large_self)."""
    leaves = [(w, 0, 0, 1) for w in sorted(weights)]  # weight, height, total depth, number of leaves
    nodes, i, j, cost = [], 0, 0, 0

    def take():
        nonlocal i, j
        if j >= len(nodes) or i < len(leaves) and leaves[i][0] <= nodes[j][0]:
            i += 1
            return leaves[i - 1]
        j += 1
        return nodes[j - 1]

    for _ in range(len(leaves) - 1):
        a, b = take(), take()
        cost += a[0] + b[0]
        nodes.append((a[0] + b[0], max(a[1], b[1]) + 1, a[2] + b[2] + a[3] + b[3], a[3] + b[3]))
    return cost, nodes[-1][1], nodes[-1][2]


def t_large_self(ctx):
    ctx.bound("self-test", "two queues against the exhaustive optimum: all vectors of 2 to 6 weights summing to 10 to 14")
    for m in range(2, 7):
        for total in range(10, 15):
            for w in compositions(total, m):
                ctx.ok(two_queues(w) == optimum(w), f"self/{w}", f"model {two_queues(w)}, exhaustive {optimum(w)}")
                ctx.state()
                ctx.trace()


def fano_unique(weights):
    """Lengths (by descending weight) of the recursive most even splits, or None where two splits are equally even."""
    s = sorted(weights, reverse=True)
    cum = [0] + list(itertools.accumulate(s))
    L = [0] * len(s)
    todo = [(0, len(s), 0)]
    while todo:
        lo, hi, d = todo.pop()
        if hi - lo == 1:
            L[lo] = d
            continue
        diffs = [abs(2 * cum[i] - cum[lo] - cum[hi]) for i in range(lo + 1, hi)]
        if diffs.count(min(diffs)) > 1:
            return None
        mid = lo + 1 + diffs.index(min(diffs))
        todo += [(lo, mid, d + 1), (mid, hi, d + 1)]
    return list(zip(s, L))


def complete_prefix(W):
    """No word is a prefix of another (neighbours in lexicographic order decide), and the Kraft sum."""
    s = sorted(W)
    return all(b[: len(a)] != a for a, b in zip(s, s[1:])), sum(Fraction(1, 2 ** len(w)) for w in W)


def large_weights(n):
    """Families of n positive weights over a power of two that fits a double exactly."""
    fib = [1, 1]
    while len(fib) < n:
        fib.append(fib[-1] + fib[-2])
    x, irr = 12345, []
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2**31
        irr.append(1 + (x >> 9) % 4093)
    fams = {
        "equal": [1] * n,
        "ramp": list(range(1, n + 1)),
        "irregular": irr,
        "zipf": [2**20 // (i + 1) + 1 for i in range(n)],
        "two levels": [1] * (n - n // 3) + [37] * (n // 3),
    }
    if n <= 72:
        fams["fibonacci"] = fib[:n]
    if n <= 50:
        fams["doubling"] = [2**i for i in range(n)]
        fams["doubling twice"] = [2 ** (i // 2) for i in range(n)]
    for name, w in fams.items():
        w = list(w)
        t = max((sum(w) - 1).bit_length(), 1)
        if t <= 52:
            w[-1] += 2**t - sum(w)  # exact total
            yield name + "/up", w, 2**t
            yield name + "/down", w[::-1], 2**t
            yield name + "/mixed", [w[i * 7 % n] if n % 7 else w[(i * 5 + 1) % n] if n % 5 else w[(i * 11 + 1) % n] for i in range(n)], 2**t


def t_large(ctx, sizes, blocks):
    """Large alphabets and long blocks, with exact weights: cost, longest word, total length, lengths of Shannon and Fano."""
    ctx.bound("large", f"alphabets of {sizes} symbols, blocks {blocks}")
    cases = [(f"{name}/{n}", w, tot, 1) for n in sizes for name, w, tot in large_weights(n)]
    cases += [(f"blocks/{w}/{k}", list(w), sum(w), k) for w, k in blocks]
    for name, w, tot, k in cases:
        key = f"large/{name}"
        ctx.at(key)
        if sorted(w) != sorted(w, key=abs) or sum(w) != tot:
            raise RuntimeError(key)
        m = len(w)
        ext = [math.prod(c) for c in itertools.product(w, repeat=k)]
        pmf = [x / tot for x in w]
        cost, longest, total = two_queues(ext)
        src = list(itertools.product(range(m), repeat=k))
        x = [s for t in src for s in t]
        seen = {}
        makes = [((p, a), lambda p=p, a=a: komm.HuffmanCode(pmf, k, p, a)) for p in ("high", "low") for a in ("tree", "canonical")]
        makes += [("fano", lambda: komm.FanoCode(pmf, k)), ("shannon", lambda: komm.ShannonCode(pmf, k))]
        for kind, make in makes:
            with ctx.guard(f"{key}/{kind}"):
                code = make()
                W = [tuple(code.enc_mapping[t]) for t in src]
                L = [len(v) for v in W]
                seen[kind] = L
                free, kraft = complete_prefix(W)
                ctx.ok(free, key, f"{kind}: not a prefix code")
                got = sum(a * b for a, b in zip(ext, L))
                if kind == "shannon":
                    ctx.eq(L, [max(1, next(l for l in itertools.count(0) if 2**l * e >= tot**k)) for e in ext], key, "Shannon lengths")
                    ctx.ok(kraft <= 1, key, "Kraft sum")
                else:
                    ctx.ok(kraft == 1, key, f"{kind}: tree not full")
                    if kind == "fano":
                        u = fano_unique(ext)
                        if u is not None:
                            ctx.eq(sorted(zip(ext, L)), sorted(u), key, "Fano lengths")
                    else:
                        ctx.ok(got == cost, key, f"{kind}: expected length {got}/{tot**k}, optimum {cost}/{tot**k}")
                        if kind[0] == "high":
                            ctx.eq((max(L), sum(L)), (longest, total), key, f"{kind}: longest word, total length")
                ctx.close(code.rate(pmf), float(Fraction(got, tot**k * k)), key, f"{kind}: rate")
                y = np.array(code.encode(x))
                ctx.ok(len(y) == sum(L), key, f"{kind}: encoded length")
                ctx.eq(code.decode(y), x, key, f"{kind}: round trip of all source words")
                ctx.eq(code.decode(code.encode(x[::-1])), x[::-1], key, f"{kind}: round trip, reversed")
                ctx.step(4)
                ctx.trace()
        for p in ("high", "low"):
            ctx.ok(seen.get((p, "tree")) == seen.get((p, "canonical")), key, f"{p}: assignment changed the lengths")
        ctx.state()
        ctx.outcome((key, tuple(sorted(seen.get(("high", "tree"), [])))))


def tasks(tier):
    T = tier == "thorough"
    out = [("reject", t_reject, {}), ("shannon-edges", t_shannon_edges, dict(top=1074 if T else 535))]
    hs = [(2, 16, 1, True, 1, True), (3, 32, 1, True, 1, True), (4, 16, 1, True, 2, True), (5, 16, 1, True, 6, True), (6, 8, 1, True, 2, True), (2, 8, 2, True, 1, True), (2, 8, 3, True, 1, True), (3, 8, 2, True, 2, False), (4, 10, 1, False, 1, False), (5, 7, 1, False, 1, False), (3, 7, 2, False, 2, False)]
    if T:
        hs = [(3, 64, 1, True, 4, True), (4, 32, 1, True, 16, True), (5, 16, 1, True, 16, True), (6, 16, 1, True, 32, True), (7, 8, 1, True, 8, True), (8, 8, 1, True, 16, True), (2, 16, 3, True, 2, True), (2, 8, 4, True, 2, False), (3, 16, 2, True, 4, True), (4, 20, 1, False, 4, False), (5, 15, 1, False, 8, False), (3, 15, 2, False, 4, False), (9, 7, 1, False, 8, False)]
    for m, tot, k, d, parts, tie in hs:
        for j in range(parts):
            out.append((f"huffman/{m}/{tot}/{k}/{j}", t_huffman, dict(m=m, total=tot, k=k, dyadic=d, part=j, parts=parts, tie_check=tie)))
    fs = [(2, 16, 1, 1), (3, 16, 1, 1), (4, 16, 1, 2), (5, 8, 1, 1), (2, 16, 2, 1), (2, 8, 3, 1), (3, 8, 2, 1)]
    if T:
        fs = [(2, 64, 1, 1), (3, 64, 1, 2), (4, 32, 1, 8), (5, 16, 1, 8), (6, 16, 1, 16), (2, 32, 2, 1), (2, 16, 3, 1), (3, 16, 2, 4), (2, 8, 4, 2)]
    for m, tot, k, parts in fs:
        for j in range(parts):
            out.append((f"fano-shannon/{m}/{tot}/{k}/{j}", t_fano_shannon, dict(m=m, total=tot, k=k, part=j, parts=parts)))
    out.append(("large/self-test", t_large_self, {}))
    for ns in ([7, 8, 9, 16, 17, 33], [50, 64, 65, 70, 72], [100, 128, 129], [255, 256, 257], [600]) + (([1000], [1024, 1025], [3000]) if T else ()):
        out.append((f"large/{ns[0]}", t_large, dict(sizes=ns, blocks=[])))
    out.append(("large/blocks", t_large, dict(sizes=[], blocks=[((3, 1), 6), ((5, 11), 8), ((1, 15), 9), ((1, 2, 5), 4), ((7, 4, 3, 2), 4), ((1, 31), 10), ((2, 3, 3, 4, 20), 3)] + ([((1, 3), 12), ((5, 3), 12), ((1, 1, 6), 7)] if T else []))))
    for top in (30, 50):
        W = skewed(top)
        out.append((f"huffman/skewed/{top}", t_huffman, dict(m=0, total=2**top, k=1, dyadic=True, part=0, parts=1, tie_check=True, weights=W)))
        out.append((f"fano-shannon/skewed/{top}", t_fano_shannon, dict(m=0, total=2**top, k=1, part=0, parts=1, weights=W)))
    W = [w for t in (1, 2, 3, 2**9) for w in ((t, 2**24 - t), (2**24 - t, t), (t, 1, 2**24 - 1 - t), (t, 2**24 - t - 1, 1))]
    for k in (1, 2):
        out.append((f"huffman/skewed-blocks/{k}", t_huffman, dict(m=0, total=2**24, k=k, dyadic=True, part=0, parts=1, tie_check=False, weights=W)))
        out.append((f"fano-shannon/skewed-blocks/{k}", t_fano_shannon, dict(m=0, total=2**24, k=k, part=0, parts=1, weights=W)))
    return out
