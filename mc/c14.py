"""C14: variable-to-fixed codes: classification is exact and coding is lossless up to completion of the last word;
Tunstall codes attain the optimum."""

import functools
import itertools
import math
from fractions import Fraction

import numpy as np

import komm

from . import ref
from .c12 import ambiguous, few_words, prefix_free
from .c13 import compositions
from .core import short

ASSUMPTIONS = ["encode() of codes that are not prefix-free may refuse with NotImplementedError"]


def covering(words, q):
    """Every sequence of length max|w| has a word as a prefix (so every infinite sequence has)."""
    M = max(map(len, words))
    S = set(words)
    return all(any(x[:l] in S for l in range(1, M + 1)) for x in itertools.product(range(q), repeat=M))


def judge(ctx, key, code, words, tgts, q, calY, n, slen, tblocks):
    ud, pf, cov = not ambiguous(words), prefix_free(words), covering(words, q)
    ctx.eq((code.source_cardinality, code.target_cardinality, code.target_block_size, code.size), (q, calY, n, len(words)), key, "parameters")
    ctx.ok(code.dec_mapping == dict(zip(tgts, words)), key, f"dec_mapping {code.dec_mapping}")
    ctx.ok([tuple(w) for w in code.sourcewords] == list(words) and list(code.lengths) == [len(w) for w in words], key, "sourcewords or lengths")
    for name, want in (("is_uniquely_encodable", ud), ("is_prefix_free", pf), ("is_fully_covering", cov)):
        ctx.ok(bool(getattr(code, name)()) == want, key, f"{words}: {name}() = {not want}")
    ctx.step(3)
    if not (ud and cov):
        ctx.raises(ValueError, lambda: code.encode(list(words[0])), key, f"{words}: encode")
        ctx.raises(ValueError, lambda: code.decode(list(tgts[0])), key, f"{words}: decode")
        return (ud, pf, cov)
    M = max(map(len, words))
    inv = dict(zip(words, tgts))
    dec = dict(zip(tgts, words))
    for x in ref.seqs(range(q), slen):
        try:
            y = np.array(code.encode(np.array(x, dtype=int)))
            ctx.ok(y.dtype.kind in "iub", key, f"{words}: encode({x}) = {y!r} are no integers")
            y = y.tolist()
        except NotImplementedError:
            ctx.ok(not pf, key, "encode of a prefix-free code refused")
            continue
        want, i = [], 0
        for j in range(1, len(x) + 1):
            if x[i:j] in inv:
                want += inv[x[i:j]]
                i = j
        if i == len(x):
            ctx.ok(y == want, key, f"{words}: encode({x}) = {y}, expected {want}")
        else:
            last = tuple(y[len(want) :])
            ctx.ok(y[: len(want)] == want and last in dec and dec[last][: len(x) - i] == x[i:], key, f"{words}: encode({x}) = {y}: last word is no completion of {x[i:]}")
        z = np.array(code.decode(np.array(y, dtype=int))).tolist()
        ctx.ok(z[: len(x)] == list(x) and len(z) - len(x) < M and (i < len(x) or len(z) == len(x)), key, f"{words}: decode(encode({x})) = {z}")
        ctx.step(2)
    if pf:
        ctx.raises(ValueError, lambda: code.encode([0] * M + [q]), key, "source symbol out of range")
    for y in [()] + list(itertools.product(itertools.product(range(calY), repeat=n), repeat=tblocks)):
        flat = [s for b in y for s in b]
        if all(b in dec for b in y):
            z = np.array(code.decode(np.array(flat, dtype=int)))
            ctx.ok(z.dtype.kind in "iub", key, f"{words}: decode({flat}) = {z!r} are no integers")
            z = z.tolist()
            ctx.ok(z == [s for b in y for s in dec[b]], key, f"{words}: decode({flat}) = {z}")
        else:
            ctx.raises(ValueError, lambda: code.decode(flat), key, f"{words}: decode({flat}) of an unused target word")
        ctx.step()
    if n > 1:
        ctx.raises(ValueError, lambda: code.decode(list(tgts[0]) + [0]), key, "target length not a multiple of the block size")
    pm = [(i + 1) / (q * (q + 1) / 2) for i in range(q)]
    ctx.close(code.rate(pm), n / sum(len(w) * float(np.prod([pm[s] for s in w])) for w in words), key, "rate")
    return (ud, pf, cov)


def t_codes(ctx, m, q, L, calY, part, parts, ordered, slen, tblocks):
    ctx.bound("codes", f"all {'lists' if ordered else 'multisets'} of {m} source words of length 1..{L} over {q} symbols, {calY}-ary targets; all sources up to {slen}; all target strings of {tblocks} blocks")
    W = list(ref.seqs(range(q), L, 1))
    n = next(n for n in itertools.count(1) if calY**n >= m)
    tgts = list(itertools.product(range(calY), repeat=n))[:m]
    for i, words in enumerate(itertools.product(W, repeat=m) if ordered else itertools.combinations_with_replacement(W, m)):
        if i % parts != part or max(max(w) for w in words) + 1 < q:
            continue
        key = f"v2f/{words}/{calY}"
        ctx.at(key)
        with ctx.guard(key):
            code = komm.VariableToFixedCode.from_sourcewords(list(words), target_cardinality=calY)
            r = judge(ctx, key, code, words, tgts, q, calY, n, slen, tblocks)
            if i % 8 == part % 8:
                dm = dict(zip(tgts, words))
                if max(max(t) for t in tgts) + 1 == calY:
                    c2 = komm.VariableToFixedCode.from_dec_mapping(dict(dm))
                    judge(ctx, key, c2, words, tgts, q, calY, n, min(slen, 4), 1)
                # sparse: the same words filed at the end of a larger target alphabet
                T2 = list(itertools.product(range(calY + 1), repeat=n))[::-1][:m]
                c3 = komm.VariableToFixedCode(calY + 1, q, n, dict(zip(T2, words)))
                judge(ctx, key, c3, words, T2, q, calY + 1, n, min(slen, 4), 1)
            ctx.outcome((r, tuple(sorted(map(len, words)))))
        ctx.state()
        ctx.trace()
    ctx.sample(words)


@functools.cache
def trees(q, leaves):
    """All complete q-ary trees with the given number of leaves, as frozensets of leaf words."""
    if leaves == 1:
        return [((),)]
    out = []
    for split in compositions(leaves, q, 1):
        for subs in itertools.product(*(trees(q, s) for s in split)):
            out.append(tuple((i,) + w for i, t in enumerate(subs) for w in t))
    return out


@functools.cache
def best_mean(w, total, leaves):
    """Greatest expected source word length over complete trees with at most `leaves` leaves (exact)."""
    q = len(w)
    # the internal nodes of a best tree are the most probable words (the root included)
    top, heap = Fraction(0), [Fraction(1)]
    for _ in range((leaves - 1) // (q - 1)):
        heap.sort()
        p = heap.pop()
        top += p
        heap += [p * Fraction(x, total) for x in w]
    if leaves > 8:
        return top

    # F(j): maximum over trees with j leaves of sum over internal nodes of P(node); brute force over trees
    best = Fraction(0)
    for j in range(q, leaves + 1, q - 1):
        for t in trees(q, j):
            s = Fraction(0)
            for word in t:
                p = Fraction(1)
                for c in word:
                    p *= Fraction(w[c], total)
                s += p * len(word)
            best = max(best, s)
    assert best == top
    return best


def t_tunstall(ctx, q, total, n, part, parts):
    ctx.bound("pmfs", f"all vectors of {q} weights summing to {total} over {total}; target block size {n}; optimum over all complete trees with up to {2**n} leaves")
    for i, w in enumerate(compositions(total, q)):
        if i % parts != part:
            continue
        key = f"tunstall/{w}/{n}"
        ctx.at(key)
        pmf = [x / total for x in w]
        with ctx.guard(key):
            code = komm.TunstallCode(list(pmf), n)
            W = [tuple(x) for x in code.sourcewords]
            ctx.ok(prefix_free(W) and sum(Fraction(1, q ** len(x)) for x in W) == 1 and len(W) <= 2**n, key, f"not a complete tree within the block: {W}")
            ctx.ok(code.is_prefix_free() and code.is_fully_covering() and code.is_uniquely_encodable(), key, "flags")
            ctx.eq((code.source_cardinality, code.target_cardinality, code.target_block_size, code.size), (q, 2, n, len(W)), key, "parameters")
            ctx.ok(set(code.dec_mapping) == set(list(itertools.product((0, 1), repeat=n))[: len(W)]) and list(code.dec_mapping.values()) == sorted(W), key, "target words or their order")
            best = best_mean(w, total, 2**n)
            got = sum(Fraction(math.prod(w[c] for c in x), total ** len(x)) * len(x) for x in W)
            ctx.ok(got == best, key, f"expected source word length {float(got)}, optimum {float(best)}")
            ctx.close(code.rate(pmf), n / float(best), key, "rate")
            for x in ref.seqs(range(q), 4 if q < 5 else 3):
                z = np.array(code.decode(code.encode(np.array(x, dtype=int)))).tolist()
                ctx.ok(z[: len(x)] == list(x), key, f"decode(encode({x})) = {z}")
                ctx.step(2)
            if n == max(1, (q - 1).bit_length()):
                d = komm.TunstallCode(list(pmf))
                ctx.ok(d.target_block_size == n and d.dec_mapping == code.dec_mapping, key, "default block size")
        ctx.state()
        ctx.trace()
        ctx.outcome((tuple(sorted(map(len, W))),))
    if 2 ** (n - 1) < q and n > 1:
        ctx.raises(ValueError, lambda: komm.TunstallCode([1 / q] * q, n - 1), "tunstall/low", "target block size too low")
    ctx.sample(w)


def t_reject(ctx):
    V = komm.VariableToFixedCode
    good = {(0,): (0,), (1,): (1,)}
    bad = [
        ("target word of wrong length", (2, 2, 2, good)),
        ("target symbol too large", (2, 2, 1, {(0,): (0,), (2,): (1,)})),
        ("source symbol too large", (2, 2, 1, {(0,): (0,), (1,): (2,)})),
        ("negative source symbol", (2, 2, 1, {(0,): (0,), (1,): (-1,)})),
        ("empty source word", (2, 2, 1, {(0,): (), (1,): (1,)})),
        ("source cardinality 1", (2, 1, 1, {(0,): (0,)})),
        ("target cardinality 1", (1, 2, 1, {(0,): (0,)})),
        ("block size 0", (2, 2, 0, {(): (0,)})),
    ]
    for what, args in bad:
        ctx.raises(ValueError, lambda: V(*args), f"reject/{what}", what)
        ctx.state()
        ctx.trace()
        ctx.outcome(what)
    ctx.raises(ValueError, lambda: V.from_sourcewords([(0,), ()]), "reject/empty", "empty source word")
    ctx.raises(ValueError, lambda: V.from_sourcewords([(0,), (1,)], target_cardinality=1), "reject/card", "target cardinality 1")
    ctx.raises(ValueError, lambda: komm.TunstallCode([0.5, 0.4], 2), "reject/sum", "pmf sum")
    ctx.raises((ValueError, ZeroDivisionError), lambda: komm.TunstallCode([1.0], 2), "reject/one", "one source symbol")
    ctx.step(12)
    ctx.sample([b[0] for b in bad])


def t_deep(ctx, m, q, top, part, parts):
    """Few but long source words: flags against the automata."""
    ctx.bound("codes", f"all multisets of {m} source words over {q} symbols of total length up to {top}; flags")
    n = 0
    for total in range(m + 1, top + 1):
        for words in few_words(m, q, total):
            n += 1
            if n % parts != part or max(max(w) for w in words) == 0:
                continue
            key = f"v2f/{words}"
            ctx.at(key)
            ctx.state()
            ctx.trace()
            words = words if n % 2 else words[::-1]
            with ctx.guard(key):
                code = komm.VariableToFixedCode.from_sourcewords(list(words))
                qq = max(max(w) for w in words) + 1
                for name, want in (("is_uniquely_encodable", not ambiguous(words)), ("is_prefix_free", prefix_free(words)), ("is_fully_covering", kraft_covering(words, qq))):
                    ctx.ok(bool(getattr(code, name)()) == want, key, f"{words}: {name}() = {not want}")
                ctx.step(3)


def kraft_covering(words, q):
    """Covering iff the words that have no other word as a proper prefix fill the unit interval."""
    S = set(words)
    return sum(Fraction(1, q ** len(w)) for w in S if not any(w[:i] in S for i in range(1, len(w)))) == 1


def t_big_tunstall(ctx, q, total, n, part, parts, weights=None):
    """Large blocks: the tree is complete, fills the block, and no leaf is more probable than an inner node, which is
    what makes it optimal (to a rounding error in the products)."""
    ctx.bound("pmfs", f"all vectors of {q} weights over {total} (zeros excluded); target block size {n}" if weights is None else f"{len(weights)} skewed or long pmfs; target block size {n}")
    for i, w in enumerate(compositions(total, q, 1) if weights is None else weights):
        if i % parts != part:
            continue
        key = f"tunstall/{w}/{n}"
        ctx.at(key)
        ctx.state()
        ctx.trace()
        q, total = len(w), sum(w)
        pmf = [x / total for x in w]
        with ctx.guard(key):
            code = komm.TunstallCode(list(pmf), n)
            W = [tuple(x) for x in code.sourcewords]
            size = (2**n - 1) // (q - 1) * (q - 1) + 1
            ctx.ok(len(W) == len(set(W)) == size == code.size, key, f"{len(W)} words instead of {size}")
            inner = {x[:i] for x in W for i in range(len(x))}
            ctx.ok(not inner & set(W) and len(inner) * (q - 1) + 1 == size, key, "not a complete tree")
            P = lambda x: Fraction(math.prod(w[s] ** x.count(s) for s in set(x)), total ** len(x))
            low, high = min(map(P, inner)), max(map(P, W))
            ctx.ok(high <= low * Fraction(10**12 + 1, 10**12), key, f"a leaf of probability {float(high)} beside an inner node of probability {float(low)}")
            ctx.ok(code.target_block_size == n and list(code.dec_mapping) == list(itertools.islice(itertools.product((0, 1), repeat=n), size)) and W == sorted(W), key, "target words or their order")
            ctx.close(code.rate(pmf), n / sum(float(P(x)) * len(x) for x in W), key, "rate")
            ctx.step(4)
            x = [s for t in W for s in t] + [q - 1, 0] * 3
            y = np.array(code.encode(np.array(x)))
            z = np.array(code.decode(y)).tolist()
            ctx.ok(z[: len(x)] == x and y.size % n == 0, key, "round trip")


def t_long(ctx, tier):
    V = komm.VariableToFixedCode
    ctx.bound("alphabets", "runs of up to 300 symbols, source alphabets of up to 300 symbols, target alphabets of 2 to 17 symbols, sources of up to 20000 symbols")
    fams = []
    for m in (2, 3, 5, 16, 17, 64, 65, 66, 128, 129, 257, 300):
        fams.append((f"runs/{m}", [(0,) * i + (1,) for i in range(m - 1)] + [(0,) * (m - 1)], True, True))
        fams.append((f"cut/{m}", [(0,) * i + (1,) for i in range(m)], True, False))
        fams.append((f"letters/{m}", [(i,) for i in reversed(range(m))], True, True))
        fams.append((f"gap/{m}", [(i,) for i in range(m) if i != m // 2] + [(m,), (m // 2, m)], True, False))
        fams.append((f"tail/{m}", [(1,) + (0,) * i for i in range(m)], False, False))
    for name, words, pf, cov in fams:
        for calY in (2, 3, 17):
            key = f"long/{name}/{calY}"
            ctx.at(key)
            ctx.state()
            ctx.trace()
            with ctx.guard(key):
                c = V.from_sourcewords(list(words), target_cardinality=calY)
                q = max(max(w) for w in words) + 1
                if q < 2:
                    continue
                n = next(n for n in itertools.count(1) if calY**n >= len(words))
                ctx.eq((c.source_cardinality, c.target_cardinality, c.target_block_size, c.size), (q, calY, n, len(words)), key, "parameters")
                ctx.ok((c.is_prefix_free(), c.is_fully_covering(), c.is_uniquely_encodable()) == (pf, cov, True), key, f"flags {c.is_prefix_free()}, {c.is_fully_covering()}, {c.is_uniquely_encodable()}")
                ctx.step(3)
                if not (pf and cov):
                    ctx.raises((ValueError, NotImplementedError), lambda: c.encode([0, 1]), key, "encode")
                    continue
                T = list(itertools.islice(itertools.product(range(calY), repeat=n), len(words)))
                ctx.ok(c.dec_mapping == dict(zip(T, words)), key, "dec_mapping")
                for reps in (1, len(words), 1000):
                    if sum(map(len, words)) / len(words) * reps > 20000:
                        continue
                    msg = [(r * r + r // 7) % len(words) for r in range(reps)]
                    x = [s for i in msg for s in words[i]]
                    y = np.array(c.encode(np.array(x))).tolist()
                    ctx.ok(y == [s for i in msg for s in T[i]], key, f"encode of {reps} words")
                    ctx.ok(np.array(c.decode(y)).tolist() == x, key, f"decode of {reps} words")
                    ctx.step(2)
                if len(words[-1]) > 2:
                    x = list(words[0]) + list(words[-1][:-1])
                    z = np.array(c.decode(c.encode(x))).tolist()
                    ctx.ok(z[: len(x)] == x, key, "incomplete last word")


def t_sizes(ctx, tier):
    """The least block size that numbers all source words: around every power of the target cardinality."""
    top = 70000 if tier == "thorough" else 10000
    ctx.bound("numbers of words", f"around every power of every target cardinality up to 40, to {top}")
    for calY in range(2, 41):
        n, p = 1, calY
        while p <= top:
            for size, want in ((p - 1, n), (p, n), (p + 1, n + 1)):
                key = f"sizes/{calY}/{size}"
                ctx.at(key)
                ctx.state()
                ctx.trace()
                with ctx.guard(key):
                    words = [(i, 1) for i in range(size)]
                    c = komm.VariableToFixedCode.from_sourcewords(words, target_cardinality=calY)
                    ctx.eq((c.target_block_size, c.size, c.target_cardinality), (want, size, calY), key, "block size, number of words, cardinality")
                    last, r = [], size - 1
                    for _ in range(want):
                        r, d = divmod(r, calY)
                        last.append(d)
                    ctx.ok(c.dec_mapping.get(tuple(last[::-1])) == words[-1], key, "last word")
                    ctx.step(2)
                    ctx.outcome((calY, want))
            n, p = n + 1, p * calY
    ctx.sample({"calY": calY})


def t_alphabets(ctx, q, n):
    """Alphabets of more symbols than one or two bytes count."""
    ctx.bound("alphabets", f"Tunstall codes of {q} symbols, blocks of {n} bits; target alphabets of {q} symbols")
    w = 1.0 + np.arange(q) % 97
    w[q - 2] = 200.0
    w /= w.sum()
    x = np.unique(np.concatenate([np.arange(12), q - 1 - np.arange(12), [i for b in (8, 15, 16) for i in (2**b - 1, 2**b, 2**b + 1) if i < q], np.arange(0, q, 997)]))
    x = x[np.argsort(x * 7919 % 10007, kind="stable")]
    key = f"alphabets/tunstall/{q}/{n}"
    ctx.at(key)
    with ctx.guard(key):
        c = komm.TunstallCode(w, n)
        K = (2**n - q) // (q - 1)
        ctx.eq(c.size, q + K * (q - 1), key, "number of words")
        parse = {v: k for k, v in c.dec_mapping.items()}
        y, t = np.array(c.encode(x)).tolist(), []
        cur = ()
        for s in x.tolist():
            cur += (s,)
            if cur in parse:
                t += parse[cur]
                cur = ()
        ctx.ok(y[: len(t)] == t and len(y) == len(t) + (n if cur else 0), key, "encode")
        z = np.array(c.decode(y)).tolist()
        ctx.ok(z[: len(x)] == x.tolist(), key, "decode")
        ctx.state()
        ctx.step(2)
        ctx.trace()
    key = f"alphabets/targets/{q}"
    with ctx.guard(key):
        words = [(0,) * i + (1,) for i in range(4)] + [(0,) * 4]
        T = [(q - 1,), (0,), (q // 2,), (255,), (q - 2,)]
        c = komm.VariableToFixedCode(q, 2, 1, dict(zip(T, words)))
        x = [s for i in range(40) for s in words[i * i % 5]]
        y = np.array(c.encode(x)).tolist()
        ctx.ok(y == [T[i * i % 5][0] for i in range(40)], key, "encode")
        ctx.ok(np.array(c.decode(y)).tolist() == x, key, "decode")
        ctx.raises(ValueError, lambda: c.decode([1]), key, "decode of a symbol that stands for no word")
        ctx.state()
        ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    out = [("reject", t_reject, {}), ("long", t_long, dict(tier=tier)), ("sizes", t_sizes, dict(tier=tier))]
    for q, n in ((300, 9), (300, 12), (70000, 17), (70000, 18)):
        out.append((f"alphabets/{q}/{n}", t_alphabets, dict(q=q, n=n)))
    ds = [(2, 2, 12, 2), (3, 2, 11, 4), (4, 2, 11, 4), (5, 2, 10, 2), (3, 3, 8, 4)]
    bs = [(2, 10, 8, 1), (2, 5, 10, 1), (2, 3, 12, 1), (3, 5, 8, 1), (3, 4, 11, 1), (4, 5, 8, 1), (5, 7, 7, 1), (17, 18, 9, 1)]
    if T:
        ds = [(2, 2, 16, 16), (3, 2, 13, 16), (4, 2, 13, 32), (5, 2, 12, 16), (3, 3, 9, 16)]
        bs = [(2, 20, 8, 1), (2, 16, 10, 4), (2, 10, 12, 4), (2, 10, 14, 8), (3, 8, 8, 2), (3, 8, 11, 4), (3, 8, 13, 16), (4, 7, 9, 4), (5, 8, 8, 4), (17, 19, 10, 8)]
    for m, q, top, parts in ds:
        for j in range(parts):
            out.append((f"deep/{m}x{q}/{j}", t_deep, dict(m=m, q=q, top=top, part=j, parts=parts)))
    for q, tot, n, parts in bs:
        for j in range(parts):
            out.append((f"blocks/{q}/{tot}/{n}/{j}", t_big_tunstall, dict(q=q, total=tot, n=n, part=j, parts=parts)))
    cs = [(2, 2, 3, 2, 1, True, 6, 3), (3, 2, 3, 2, 4, True, 6, 2), (3, 2, 3, 3, 2, True, 5, 2), (4, 2, 3, 2, 4, False, 6, 2), (3, 3, 2, 2, 1, True, 4, 2), (5, 2, 3, 2, 4, False, 6, 2), (5, 3, 2, 2, 4, False, 5, 2), (4, 2, 4, 2, 6, False, 6, 1)]
    if T:
        cs = [(2, 2, 4, 2, 2, True, 9, 4), (3, 2, 4, 2, 16, True, 8, 3), (4, 2, 3, 2, 16, True, 7, 2), (4, 2, 4, 2, 16, False, 8, 2), (5, 2, 4, 2, 32, False, 7, 1), (5, 3, 2, 2, 16, False, 6, 2), (6, 2, 3, 3, 16, False, 7, 2), (4, 4, 2, 2, 8, False, 4, 2)]
    sk = [(1, 2**20 - 1), (2**20 - 1, 1), (1, 999), (2**30 - 7, 7), (1, 1, 2**20 - 2), (3, 2**16 - 4, 1), (1, 2**10, 2**20, 2**10)]
    near = [(2**30, 2**30 - 3, 2**29 + 1), (2**30 - 3, 2**30, 2**29), (2**40, 2**40 - 1, 2**40 + 1, 2**40 - 2), (10**9 + 1, 10**9), (10**9, 10**9 + 1), (3 * 10**9, 10**9, 10**9 - 1, 10**9 + 1)]
    wide = [tuple(range(1, 101)), (1,) * 127, (1,) * 128, tuple(1 + i * i % 97 for i in range(120)), (1,) * 99 + (10**6,), (10**6,) + tuple(range(1, 65))]
    for n in (8, 10) + ((12,) if T else ()):
        out.append((f"blocks/skewed/{n}", t_big_tunstall, dict(q=0, total=0, n=n, part=0, parts=1, weights=sk if n == 8 else sk[2:3] + sk[5:])))
    for n in (2, 3, 4, 5, 6, 7, 9):
        out.append((f"blocks/near/{n}", t_big_tunstall, dict(q=0, total=0, n=n, part=0, parts=1, weights=[w for w in near if len(w) <= 2**n])))
    for n in (7, 9, 12) + ((14, 15) if T else ()):
        out.append((f"blocks/wide/{n}", t_big_tunstall, dict(q=0, total=0, n=n, part=0, parts=1, weights=[w for w in wide if len(w) <= 2**n])))
    for m, q, L, calY, parts, o, s, tb in cs:
        for j in range(parts):
            out.append((f"codes/{m}x{q}x{L}/Y={calY}/{j}", t_codes, dict(m=m, q=q, L=L, calY=calY, part=j, parts=parts, ordered=o, slen=s, tblocks=tb)))
    ts = [(2, 16, 1, 1), (2, 16, 2, 1), (2, 16, 3, 2), (3, 8, 2, 1), (3, 8, 3, 2), (4, 6, 2, 1), (4, 6, 3, 2), (5, 5, 3, 1), (7, 3, 3, 1), (8, 2, 3, 1), (2, 16, 4, 2), (3, 8, 4, 2), (2, 16, 5, 2), (5, 5, 4, 2)]
    if T:
        ts += [(2, 32, 3, 2), (3, 16, 3, 8), (4, 8, 3, 8), (5, 8, 3, 8), (2, 32, 6, 4), (3, 12, 5, 4), (4, 8, 4, 4)]
    for q, tot, n, parts in ts:
        for j in range(parts):
            out.append((f"tunstall/{q}/{tot}/{n}/{j}", t_tunstall, dict(q=q, total=tot, n=n, part=j, parts=parts)))
    return out
