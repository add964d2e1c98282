"""C12: fixed-to-variable codes: classification is exact and coding is lossless, for every small code."""

import itertools

import numpy as np

import komm

from . import ref
from .core import short

ASSUMPTIONS = ["decode() of uniquely decodable codes that are not prefix-free may refuse with NotImplementedError"]


def ambiguous(words):
    """Two different factorisations of one string exist iff the product of the flower automaton with itself has a
    path from (root, root) back to it that leaves the diagonal.  Independent of dangling suffixes."""
    if len(set(words)) < len(words):
        return True
    W = [tuple(w) for w in words]
    # state: (word index, position) pairs; root is None
    start = [((i, 0), (j, 0)) for i in range(len(W)) for j in range(len(W)) if i < j]
    seen, todo = set(start), list(start)
    while todo:
        (i, a), (j, b) = todo.pop()
        if W[i][a] != W[j][b]:
            continue
        ea, eb = a + 1 == len(W[i]), b + 1 == len(W[j])
        if ea and eb:
            return True
        nxt_i = [(x, 0) for x in range(len(W))] if ea else [(i, a + 1)]
        nxt_j = [(x, 0) for x in range(len(W))] if eb else [(j, b + 1)]
        for p in nxt_i:
            for q in nxt_j:
                if (p, q) not in seen:
                    seen.add((p, q))
                    todo.append((p, q))
    return False


def prefix_free(words):
    return not any(i != j and u == v[: len(u)] for i, u in enumerate(words) for j, v in enumerate(words))


def factor(words, y):
    """All factorisations of y into words (as index tuples), by dynamic programming over positions."""
    F = [[()]] + [[] for _ in y]
    for j in range(1, len(y) + 1):
        for i, w in enumerate(words):
            if len(w) <= j and tuple(y[j - len(w) : j]) == w:
                F[j] += [f + (i,) for f in F[j - len(w)]]
    return F[-1]


def judge(ctx, key, code, words, calX, calY, k, blocks, ylen):
    srcs = list(itertools.product(range(calX), repeat=k))
    ud, pf = not ambiguous(words), prefix_free(words)
    ctx.eq((code.source_cardinality, code.target_cardinality, code.source_block_size, code.size), (calX, calY, k, len(words)), key, "parameters")
    ctx.ok(code.enc_mapping == dict(zip(srcs, words)), key, f"enc_mapping {code.enc_mapping}")
    ctx.ok([tuple(w) for w in code.codewords] == list(words) and list(code.lengths) == [len(w) for w in words], key, "codewords or lengths")
    ctx.ok(code.is_uniquely_decodable() == ud, key, f"{words}: is_uniquely_decodable() = {code.is_uniquely_decodable()}")
    ctx.ok(code.is_prefix_free() == pf, key, f"{words}: is_prefix_free() = {code.is_prefix_free()}")
    kp = sum(calY ** -len(w) for w in words)
    ctx.close(code.kraft_parameter(), kp, key, "Kraft parameter")
    ctx.step(3)
    if not ud:
        ctx.raises(ValueError, lambda: code.encode(list(srcs[0])), key, f"{words}: encode of an ambiguous code")
        ctx.raises(ValueError, lambda: code.decode(list(words[0])), key, f"{words}: decode of an ambiguous code")
        return ud
    for msg in ref.seqs(range(len(words)), blocks):
        x = [s for m in msg for s in srcs[m]]
        want = [s for m in msg for s in words[m]]
        y = np.array(code.encode(np.array(x, dtype=int)))
        ctx.ok(y.tolist() == want and y.dtype.kind in "iub", key, f"{words}: encode({x}) = {short(y)}, expected {want}")
        try:
            z = np.array(code.decode(np.array(want, dtype=int)))
            ctx.ok(z.tolist() == x and z.dtype.kind in "iub", key, f"{words}: decode({want}) = {short(z)}, expected {x}")
        except NotImplementedError:
            ctx.ok(not pf, key, "decode of a prefix-free code refused")
        ctx.step(2)
    if pf:
        for y in ref.seqs(range(calY), ylen):
            F = factor(words, y)
            if F:
                x = [s for m in F[0] for s in srcs[m]]
                z = np.array(code.decode(np.array(y, dtype=int)))
                ctx.ok(z.tolist() == x and z.dtype.kind in "iub", key, f"{words}: decode({y}) = {short(z)}, expected {x}")
            else:
                ctx.raises(ValueError, lambda: code.decode(np.array(y, dtype=int)), key, f"{words}: decode({y}) of no concatenation of codewords")
            ctx.step()
    if k > 1:
        ctx.raises(ValueError, lambda: code.encode([0] * (k + 1)), key, "source length not a multiple of the block size")
    ctx.raises(ValueError, lambda: code.encode([calX] * k), key, "source symbol out of range")
    return ud


def t_codes(ctx, m, q, L, k, part, parts, ordered, blocks, ylen):
    calX = round(m ** (1 / k))
    W = [w for w in ref.seqs(range(q), L, 1)]
    ctx.bound("codes", f"{'all lists' if ordered else 'all multisets'} of {m} words of length 1..{L} over {q} symbols, k={k}; all messages up to {blocks} blocks; all target strings up to {ylen}")
    it = itertools.product(W, repeat=m) if ordered else itertools.combinations_with_replacement(W, m)
    for n, words in enumerate(it):
        if n % parts != part or max(max(w) for w in words) + 1 < 2:
            continue
        key = f"f2v/{words}/k={k}"
        calY = max(max(w) for w in words) + 1
        ctx.at(key)
        with ctx.guard(key):
            code = komm.FixedToVariableCode.from_codewords(list(words), source_cardinality=calX)
            ud = judge(ctx, key, code, words, calX, calY, k, blocks, ylen)
            if n % 16 == part % 16:
                em = dict(zip(itertools.product(range(calX), repeat=k), words))
                for c2 in (komm.FixedToVariableCode.from_enc_mapping(dict(em)), komm.FixedToVariableCode(calX, calY + 1, k, dict(em))):
                    ctx.ok(c2.enc_mapping == em and c2.is_uniquely_decodable() == ud and c2.source_block_size == k, key, "other constructors")
                # the order in which the mapping lists its words must not matter
                rev = dict(reversed(list(em.items())))
                c3 = komm.FixedToVariableCode.from_enc_mapping(rev)
                if ud:
                    x = [s for w in em for s in w]
                    ctx.ok(np.array(c3.encode(x)).tolist() == [s for w in em.values() for s in w], key, "mapping listed in reverse order")
                orders = itertools.permutations(em.items()) if m <= 4 else [list(em.items())[::-1]]
                for order in orders:
                    c4 = komm.FixedToVariableCode.from_enc_mapping(dict(order))
                    pm = [(i + 1) / (calX * (calX + 1) / 2) for i in range(calX)]
                    want = sum(len(w) * float(np.prod([pm[s] for s in x])) for x, w in em.items()) / k
                    ctx.close(c4.rate(pm), want, key, f"rate of the mapping listed as {order}")
                    ctx.ok(c4.is_uniquely_decodable() == ud and abs(c4.kraft_parameter() - code.kraft_parameter()) < 1e-12, key, "listing order")
                    if ud:
                        ctx.ok(np.array(c4.encode(x_all := [s for w in em for s in w])).tolist() == [s for w in em.values() for s in w], key, f"encode({x_all}), listing order {order}")
                    ctx.step()
                pm = [(i + 1) / (calX * (calX + 1) / 2) for i in range(calX)]
                want = sum(len(w) * float(np.prod([pm[s] for s in x])) for x, w in em.items()) / k
                ctx.close(code.rate(pm), want, key, "rate")
            ctx.outcome((ud, len(set(words)), tuple(sorted(map(len, words)))))
        ctx.state()
        ctx.trace()
    ctx.sample(words)


def t_lengths(ctx, q, m, L, k):
    calX = round(m ** (1 / k))
    ctx.bound("lengths", f"all vectors of {m} lengths 1..{L} over {q} target symbols, k={k}")
    for lens in itertools.product(range(1, L + 1), repeat=m):
        key = f"from_lengths/{q}/{lens}/k={k}"
        ctx.at(key)
        kraft = sum(q ** (L - l) for l in lens) <= q**L
        if not kraft:
            ctx.raises(ValueError, lambda: komm.FixedToVariableCode.from_lengths(list(lens), source_cardinality=calX, target_cardinality=q), key, "lengths violating the Kraft inequality")
        else:
            with ctx.guard(key):
                c = komm.FixedToVariableCode.from_lengths(list(lens), source_cardinality=calX, target_cardinality=q)
                W = [tuple(w) for w in c.codewords]
                ctx.ok([len(w) for w in W] == list(lens) and all(0 <= s < q for w in W for s in w), key, f"codewords {W}")
                ctx.ok(prefix_free(W) and c.is_prefix_free() and c.is_uniquely_decodable(), key, f"not prefix-free: {W}")
                # canonical: sorted by (length, index), the words are consecutive in lexicographic order, least first
                order = sorted(range(m), key=lambda i: (lens[i], i))
                val, prev = 0, 0
                for i in order:
                    val *= q ** (lens[i] - prev)
                    prev = lens[i]
                    ctx.ok(sum(s * q ** (prev - 1 - t) for t, s in enumerate(W[i])) == val, key, f"not the canonical code: {W}")
                    val += 1
                x = list(range(calX)) * k
                ctx.ok(np.array(c.decode(c.encode(x))).tolist() == x, key, "round trip")
        ctx.step(2)
        ctx.state()
        ctx.trace()
        ctx.outcome((kraft, tuple(sorted(lens))))
    with ctx.guard("zero"):
        for pos in range(m):
            z = [m] * m
            z[pos] = 0
            ctx.raises(ValueError, lambda: komm.FixedToVariableCode.from_lengths(z, source_cardinality=calX, target_cardinality=q), f"zero/{z}", "a zero length")
    ctx.sample(lens)


def t_reject(ctx):
    F = komm.FixedToVariableCode
    good = {(0,): (0,), (1,): (1,)}
    bad = [
        ("missing source word", (3, 2, 1, good)),
        ("extra source word", (2, 2, 1, {**good, (2,): (1, 1)})),
        ("wrong block size", (2, 2, 2, good)),
        ("target symbol too large", (2, 2, 1, {(0,): (0,), (1,): (2,)})),
        ("negative target symbol", (2, 2, 1, {(0,): (0,), (1,): (-1,)})),
        ("empty codeword", (2, 2, 1, {(0,): (), (1,): (1,)})),
        ("empty codewords", (2, 2, 1, {(0,): (), (1,): ()})),
        ("empty last codeword", (2, 2, 1, {(0,): (0,), (1,): ()})),
        ("source cardinality 1", (1, 2, 1, {(0,): (0,)})),
        ("target cardinality 1", (2, 1, 1, {(0,): (0,), (1,): (0, 0)})),
        ("block size 0", (2, 2, 0, {(): (0,)})),
    ]
    for what, args in bad:
        ctx.raises(ValueError, lambda: F(*args), f"reject/{what}", what)
        ctx.state()
        ctx.trace()
        ctx.outcome(what)
    for n in range(1, 10):
        for X in range(2, 5):
            power = any(X**k == n for k in range(1, 5))
            words = [tuple([1] * i + [0]) for i in range(n)]
            if power:
                with ctx.guard(f"size/{n}/{X}"):
                    c = F.from_codewords(words, source_cardinality=X)
                    ctx.ok(X**c.source_block_size == n, f"size/{n}/{X}", "block size")
            elif n > 1:
                ctx.raises(ValueError, lambda: F.from_codewords(words, source_cardinality=X), f"size/{n}/{X}", "number of codewords is no power of the cardinality")
                ctx.raises(ValueError, lambda: F.from_lengths([len(w) for w in words], source_cardinality=X), f"size/{n}/{X}", "number of lengths is no power of the cardinality")
            ctx.step()
            ctx.state()
    ctx.sample([b[0] for b in bad])


def few_words(m, q, total):
    """All multisets of m words over q symbols (as sorted tuples) of the given total length."""
    for lens in itertools.product(range(1, total), repeat=m):
        if sum(lens) != total or list(lens) != sorted(lens):
            continue
        for words in itertools.product(*(itertools.product(range(q), repeat=l) for l in lens)):
            if all(u <= v for u, v in zip(words, words[1:]) if len(u) == len(v)):
                yield words


def t_deep(ctx, m, q, top, part, parts):
    """Few but long words: the rounds that Sardinas and Patterson need grow with the lengths, not with the number."""
    ctx.bound("codes", f"all multisets of {m} words over {q} symbols of total length up to {top}; flags, and a round trip of every pair of messages")
    n = 0
    for total in range(m + 1, top + 1):
        for words in few_words(m, q, total):
            n += 1
            if n % parts != part or max(max(w) for w in words) == 0:
                continue
            key = f"f2v/{words}"
            ctx.at(key)
            ctx.state()
            ctx.trace()
            words = words if n % 2 else words[::-1]
            with ctx.guard(key):
                ud, pf = not ambiguous(words), prefix_free(words)
                code = komm.FixedToVariableCode.from_codewords(list(words))
                ctx.ok(code.is_uniquely_decodable() == ud, key, f"{words}: is_uniquely_decodable() = {code.is_uniquely_decodable()}")
                ctx.ok(code.is_prefix_free() == pf, key, f"{words}: is_prefix_free() = {code.is_prefix_free()}")
                ctx.step(2)
                if ud:
                    x = [s for p in itertools.product(range(m), repeat=2) for s in p]
                    y = np.array(code.encode(np.array(x)))
                    ctx.ok(y.tolist() == [s for i in x for s in words[i]], key, f"{words}: encode({x}) = {short(y)}")
                    if pf:
                        z = np.array(code.decode(y)).tolist()
                        ctx.ok(z == x, key, f"{words}: decode(encode({x})) = {z}")


def t_long(ctx, tier):
    """Alphabets, words and messages beyond the sizes of bytes and of machine words."""
    F = komm.FixedToVariableCode
    th = tier == "thorough"
    ctx.bound("alphabets", "unary, fixed-length, comb and reversed-comb codes of up to 300 source words, target alphabets of up to 300 symbols, messages of up to 20000 symbols")
    fams = []
    for m in (2, 3, 5, 16, 17, 63, 64, 65, 66, 100) + ((129, 257, 300) if th else (129,)):
        fams.append((f"unary/{m}", [(1,) * i + (0,) for i in range(m - 1)] + [(1,) * (m - 1)], True))
        fams.append((f"suffix/{m}", [(0,) + (1,) * i for i in range(m)], False))
    for m in (2, 9, 128, 256, 257, 300):
        w = (m - 1).bit_length()
        fams.append((f"fixed/{m}", [tuple(i >> t & 1 for t in reversed(range(w))) for i in range(m)], True))
        fams.append((f"letters/{m}", [(i,) for i in reversed(range(m))], True))
        fams.append((f"pairs/{m}", [(m - 1 - i, i // 2) for i in range(m)], True))
    for name, words, pf in fams:
        key = f"long/{name}"
        ctx.at(key)
        ctx.state()
        with ctx.guard(key):
            m = len(words)
            c = F.from_codewords(list(words))
            calY = max(max(w) for w in words) + 1
            ctx.eq((c.source_cardinality, c.target_cardinality, c.source_block_size), (m, calY, 1), key, "parameters")
            ctx.ok(c.is_prefix_free() == pf and c.is_uniquely_decodable(), key, f"flags {c.is_prefix_free()}, {c.is_uniquely_decodable()}")
            ctx.close(c.kraft_parameter(), sum(float(calY) ** -len(w) for w in words), key, "Kraft parameter")
            pm = [(i + 1) / (m * (m + 1) / 2) for i in range(m)]
            ctx.close(c.rate(pm), sum(p * len(w) for p, w in zip(pm, words)), key, "rate")
            x = [i for i in range(m)] + [i * i % m for i in range(300)] + [m - 1 - i for i in range(m)]
            y = np.array(c.encode(np.array(x)))
            want = [s for i in x for s in words[i]]
            ctx.ok(y.tolist() == want, key, "encode")
            ctx.step(5)
            ctx.trace()
            try:
                z = np.array(c.decode(np.array(want)))
                ctx.ok(z.tolist() == x, key, "decode")
                ctx.raises(ValueError, lambda: c.decode(want + [calY]), key, "target symbol out of range")
            except NotImplementedError:
                ctx.ok(not pf, key, "decode refused")
    for k, top in ((1, 14), (2, 7), (3, 4)):
        # every source word of a larger block, and messages of many of them
        for X in (2, 3, 4):
            if X**k > 300:
                continue
            key = f"long/block/{X}/{k}"
            with ctx.guard(key):
                ws = [(1,) * i + (0,) for i in range(X**k)]
                c = F.from_codewords(ws, source_cardinality=X)
                for reps in (1, 10, 1000, 20000 // (X**k)):
                    srcs = list(itertools.product(range(X), repeat=k))
                    x = [s for r in range(reps) for s in srcs[r * r % len(srcs)]]
                    y = np.array(c.encode(x))
                    ctx.ok(y.tolist() == [s for r in range(reps) for s in ws[r * r % len(srcs)]], key, f"encode of {reps} blocks")
                    ctx.ok(np.array(c.decode(y)).tolist() == x, key, f"decode of {reps} blocks")
                    ctx.step(2)
                    ctx.trace()
            ctx.state()
    for lens in ([1, 2, 64, 64], [1, 3, 65, 65, 2], [70, 70, 1], [2, 2, 2, 63, 64, 65, 66], [100] * 5, list(range(1, 70)), list(range(69, 0, -1))):
        for q in (2, 3, 10):
            key = f"long/lengths/{q}/{lens}"
            ctx.state()
            with ctx.guard(key):
                W = [tuple(map(int, w)) for w in F.from_lengths(lens, target_cardinality=q).codewords]
                ctx.ok([len(w) for w in W] == lens and prefix_free(W), key, f"codewords {short(W)}")
                val = prev = 0
                for i in sorted(range(len(lens)), key=lambda i: (lens[i], i)):
                    val *= q ** (lens[i] - prev)
                    prev = lens[i]
                    ctx.ok(sum(s * q ** (prev - 1 - t) for t, s in enumerate(W[i])) == val, key, "not the canonical code")
                    val += 1
                ctx.trace()
    for lens in ([1, 1, 70], [1, 2, 64, 64, 65, 65, 2, 90], [1, 2, 3, 3, 80]):
        ctx.raises(ValueError, lambda: F.from_lengths(lens), f"long/kraft/{lens}", "lengths violating the Kraft inequality by a tiny amount")


def t_alphabets(ctx, n):
    """Alphabets of more symbols than two bytes count."""
    ctx.bound("alphabets", f"sources of {n} symbols, target symbols up to {n}")
    w = 1.0 + np.arange(n) % 97
    w /= w.sum()
    x = np.unique(np.concatenate([np.arange(12), n - 1 - np.arange(12), [i for b in (8, 15, 16) for i in (2**b - 1, 2**b, 2**b + 1) if i < n], np.arange(0, n, 997)]))
    x = x[np.argsort(x * 7919 % 10007, kind="stable")]
    for cls in (komm.HuffmanCode, komm.ShannonCode, komm.FanoCode):
        key = f"alphabets/{cls.__name__}/{n}"
        ctx.at(key)
        with ctx.guard(key):
            c = cls(w)
            y = np.array(c.encode(x))
            want = [s for i in x.tolist() for s in c.enc_mapping[(i,)]]
            ctx.ok(y.tolist() == want, key, "encode")
            ctx.ok(np.array(c.decode(y)).tolist() == x.tolist(), key, "decode")
            ctx.state()
            ctx.step(2)
            ctx.trace()
            ctx.outcome((key, len(want)))
    key = f"alphabets/targets/{n}"
    with ctx.guard(key):
        words = [(n - 1,), (n - 2, 0), (n - 2, n - 1), (0,), (n - 2, 1), (n - 65536, n - 256) if n > 65537 else (1, 1), (255,), (256,), (n // 2,)]
        c = komm.FixedToVariableCode.from_codewords(words)
        ctx.eq((c.target_cardinality, c.is_prefix_free(), c.is_uniquely_decodable()), (n, True, True), key, "parameters")
        x = [i * i % 9 for i in range(60)] + list(range(9))
        y = np.array(c.encode(x)).tolist()
        ctx.ok(y == [s for i in x for s in words[i]], key, "encode")
        ctx.ok(np.array(c.decode(y)).tolist() == x, key, "decode")
        bad = komm.FixedToVariableCode.from_codewords([(n - 1,), (n - 1 - 65536 if n > 65537 else 3, 1), (n - 1, 1)])
        ctx.ok(not bad.is_prefix_free() and bad.is_uniquely_decodable(), key, "flags of a code with a word and its extension")
        ctx.state()
        ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    out = [("reject", t_reject, {}), ("long", t_long, dict(tier=tier))]
    for n in (300, 33000, 70000):
        out.append((f"alphabets/{n}", t_alphabets, dict(n=n)))
    ds = [(2, 2, 13, 3), (3, 2, 12, 8), (4, 2, 11, 4), (5, 2, 10, 2), (3, 3, 8, 4)]
    if T:
        ds = [(2, 2, 16, 16), (3, 2, 14, 32), (4, 2, 13, 32), (5, 2, 13, 32), (6, 2, 13, 32), (3, 3, 9, 16), (4, 3, 9, 16)]
    for m, q, top, parts in ds:
        for j in range(parts):
            out.append((f"deep/{m}x{q}/{j}", t_deep, dict(m=m, q=q, top=top, part=j, parts=parts)))
    cs = [(2, 2, 4, 1, 1, True, 4, 9), (3, 2, 3, 1, 4, True, 3, 8), (3, 3, 2, 1, 3, True, 3, 6), (4, 2, 3, 1, 3, False, 3, 8), (4, 2, 3, 2, 3, False, 2, 7), (5, 2, 3, 1, 6, False, 2, 6), (3, 2, 4, 1, 4, False, 3, 8)]
    if T:
        cs = [(2, 2, 5, 1, 2, True, 5, 11), (3, 2, 4, 1, 16, True, 3, 9), (3, 3, 2, 1, 4, True, 4, 7), (4, 2, 3, 1, 16, True, 3, 8), (4, 2, 4, 2, 16, False, 2, 8), (5, 2, 3, 1, 8, False, 3, 8), (4, 3, 2, 1, 8, False, 3, 6), (6, 2, 3, 1, 16, False, 2, 6)]
    for m, q, L, k, parts, o, b, y in cs:
        for j in range(parts):
            out.append((f"codes/{m}x{q}x{L}/k={k}/{j}", t_codes, dict(m=m, q=q, L=L, k=k, part=j, parts=parts, ordered=o, blocks=b, ylen=y)))
    for q, m, L, k in [(2, 2, 6, 1), (2, 3, 6, 1), (2, 4, 5, 1), (2, 4, 4, 2), (2, 5, 4, 1), (3, 3, 4, 1), (3, 4, 4, 1), (3, 5, 3, 1), (2, 6, 3 + T, 1)] + ([(2, 8, 4, 3), (3, 9, 2, 2), (4, 5, 3, 1)] if T else []):
        out.append((f"lengths/{q}/{m}/{L}/{k}", t_lengths, dict(q=q, m=m, L=L, k=k)))
    return out
