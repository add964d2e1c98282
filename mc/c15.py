"""C15: the Lempel-Ziv codes are lossless for every source sequence and parameter set, and their tokens follow the
published parsings."""

import itertools

import numpy as np

import komm

from . import ref
from .core import short


def ceil_log(x, b):
    e = 0
    while b**e < x:
        e += 1
    return e


def digits(x, b, w):
    return [(x // b ** (w - 1 - i)) % b for i in range(w)]


# ------------------------------------------------------------------ reference parsings


def lz77_tokens(buf, x, S, L):
    """Longest match (at most L-1, leaving one symbol) starting in the last S symbols, overlapping allowed; all
    admissible pointers are returned: [(set of p, l, next)]."""
    b = list(buf) + list(x)
    i, out = S, []
    while i < len(b):
        lmax = min(L, len(b) - i) - 1
        best, ps = 0, set(range(S))
        for p in range(S):
            l = 0
            while l < lmax and b[i - S + p + l] == b[i + l]:
                l += 1
            if l > best:
                best, ps = l, {p}
            elif l == best and l:
                ps.add(p)
        out.append((ps, best, b[i + best]))
        i += best + 1
    return out


def lzss_tokens(buf, x, S, L, brk):
    b = list(buf) + list(x)
    i, out = S, []
    while i < len(b):
        lmax = min(L, len(b) - i)
        best, ps = 0, set()
        for p in range(1, S + 1):
            l = 0
            while l < lmax and b[i - p + l] == b[i + l]:
                l += 1
            if l > best:
                best, ps = l, {p}
            elif l == best and l:
                ps.add(p)
        if best >= brk:
            out.append((ps, best))
            i += best
        else:
            out.append((None, b[i]))
            i += 1
    return out


def lz78_tokens(x):
    D, out, i = [()], [], 0
    x = tuple(x)
    while i < len(x):
        l = max((len(d) for d in D if x[i : i + len(d)] == d))
        p = D.index(x[i : i + l])
        if i + l == len(x):
            out.append((p, None))
            break
        out.append((p, x[i + l]))
        D.append(x[i : i + l + 1])
        i += l + 1
    return out


def lzw_pointers(x, X):
    """(pointer, dictionary size known to both sides) for each emission."""
    D, out, i = [(s,) for s in range(X)], [], 0
    x = tuple(x)
    while i < len(x):
        l = max(len(d) for d in D if x[i : i + len(d)] == d)
        out.append((D.index(x[i : i + l]), len(D)))
        if i + l < len(x):
            D.append(x[i : i + l + 1])
        i += l
    return out


# ------------------------------------------------------------------ judging one source


def window(ctx, key, kind, code, x, buf, S, L, X, Y):
    x = list(x)
    pw, lw, xw = ceil_log(S, Y), ceil_log(L, Y), ceil_log(X, Y)
    tok = code.source_to_tokens(np.array(x, dtype=int))
    want = []
    if kind == "77":
        R = lz77_tokens(buf, x, S, L)
        good = len(tok) == len(R) and all(len(t) == 3 and t[0] in r[0] and tuple(t[1:]) == r[1:] for t, r in zip(tok, R))
        for t in tok:
            want += digits(t[0], Y, pw) + digits(t[1], Y, lw) + digits(t[2], Y, xw)
    else:
        brk = -(-(1 + pw + lw) // (1 + xw))
        ctx.eq(code.break_even, brk, key, "break even")
        R = lzss_tokens(buf, x, S, L, brk)
        good = len(tok) == len(R) and all((t[0] == 1 and r[0] is not None and t[1] in r[0] and t[2] == r[1]) if len(t) == 3 else (t[0] == 0 and r[0] is None and t[1] == r[1]) for t, r in zip(tok, R))
        for t in tok:
            want += [1] + digits(t[1] - 1, Y, pw) + digits(t[2] - 1, Y, lw) if t[0] == 1 else [0] + digits(t[1], Y, xw)
    ctx.ok(good, key, f"source_to_tokens({x}) = {tok}, longest-match parsing {R}")
    ctx.ok(np.array(code.tokens_to_source(list(tok))).tolist() == x, key, f"tokens_to_source({tok}) is not {x}")
    y = np.array(code.encode(np.array(x, dtype=int)))
    ctx.ok(y.tolist() == want, key, f"encode({x}) = {short(y)}, tokens {tok} give {want}")
    ctx.ok(np.array(code.tokens_to_target(list(tok))).tolist() == want, key, f"tokens_to_target({tok})")
    ctx.ok([tuple(t) for t in code.target_to_tokens(np.array(want, dtype=int))] == [tuple(t) for t in tok], key, f"target_to_tokens({want})")
    z = np.array(code.decode(y))
    ctx.ok(z.tolist() == x, key, f"decode(encode({x})) = {short(z)}")
    ctx.step(6)
    return tuple(want)


def t_window(ctx, kind, X, Y, S, L, T):
    cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
    bufs = [None] + [b for b in itertools.product(range(X), repeat=S)][:: max(1, X**S // 4)] + [(X - 1,) * S]
    ctx.bound("sources", f"LZ{kind}: all sources up to length {T} over {X} symbols, {Y}-ary target, search {S}, lookahead {L}, {len(bufs)} initial buffers")
    for buf in bufs:
        key = f"LZ{kind}/X={X}/Y={Y}/S={S}/L={L}/buf={buf}"
        code = None
        with ctx.guard(key):
            code = cls(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y, search_buffer=None if buf is None else list(buf))
            ctx.eq(code.window_size, S + L, key, "window size")
        if code is None:
            return
        for x in ref.seqs(range(X), T if buf in (None, bufs[-1]) else T - 2):
            ctx.at(key, x)
            with ctx.guard(key, f"source {x}"):
                y = window(ctx, key, kind, code, x, (0,) * S if buf is None else buf, S, L, X, Y)
                ctx.outcome((key, y) if len(x) == T else None)
            ctx.state()
            ctx.trace()
    ctx.sample(key)


def dic(ctx, key, kind, code, x, X, Y):
    x = list(x)
    want = []
    if kind == "78":
        R = lz78_tokens(x)
        M = ceil_log(X, Y)
        for i, (p, s) in enumerate(R):
            want += digits(p, Y, ceil_log(i + 1, Y)) + ([] if s is None else digits(s, Y, M))
        tok = [tuple(t) for t in code.source_to_tokens(np.array(x, dtype=int))]
        ctx.ok(tok == [(p, -1 if s is None else s) for p, s in R], key, f"source_to_tokens({x}) = {tok}, parsing {R}")
        ctx.ok(np.array(code.tokens_to_source(tok)).tolist() == x, key, f"tokens_to_source({tok})")
        ctx.ok([tuple(t) for t in code.target_to_tokens(np.array(want, dtype=int))] == tok, key, f"target_to_tokens({want})")
        ctx.step(3)
    else:
        for p, size in lzw_pointers(x, X):
            want += digits(p, Y, ceil_log(size, Y))
    y = np.array(code.encode(np.array(x, dtype=int)))
    ctx.ok(y.tolist() == want, key, f"encode({x}) = {short(y)}, expected {want}")
    z = np.array(code.decode(y))
    ctx.ok(z.tolist() == x, key, f"decode(encode({x})) = {short(z)}")
    ctx.step(2)
    return tuple(want)


def t_dict(ctx, kind, X, Y, T):
    cls = komm.LempelZiv78Code if kind == "78" else komm.LempelZivWelchCode
    key = f"LZ{kind}/X={X}/Y={Y}"
    ctx.bound("sources", f"LZ{kind}: all sources up to length {T} over {X} symbols, {Y}-ary target")
    code = cls(X, Y)
    for x in ref.seqs(range(X), T):
        ctx.at(key, x)
        with ctx.guard(key, f"source {x}"):
            y = dic(ctx, key, kind, code, x, X, Y)
            ctx.outcome(y if len(x) == T else None)
        ctx.state()
        ctx.trace()
    ctx.sample(key)


def t_long(ctx, kind, part):
    """Structured long sources: enough dictionary growth to pass several width changes; large alphabets."""
    pats = []
    for X in (2, 3, 5, 256, 257, 1000, 70000):
        for per in (1, 2, 3, 7):
            pats.append((X, [(i // per) % X for i in range(200)]))
        pats.append((X, [X - 1] * 300))
        pats.append((X, [(i * i + i // 3) % X for i in range(250)]))
        pats.append((X, [min(X - 1, (i & -i)) for i in range(1, 200)]))
    ctx.bound("sources", f"{len(pats)} structured sources of up to 300 symbols, alphabets up to 70000, targets 2 to 70000")
    for n, (X, x) in enumerate(pats):
        if n % 4 != part:
            continue
        for Y in (2, 3, 5, 10, 256, 257, 70000):
            key = f"long/LZ{kind}/X={X}/Y={Y}/{n}"
            ctx.at(key)
            with ctx.guard(key):
                if kind in ("78", "W"):
                    dic(ctx, key, kind, (komm.LempelZiv78Code if kind == "78" else komm.LempelZivWelchCode)(X, Y), x, X, Y)
                else:
                    for S, L in ((1, 1), (4, 3), (25, 125), (125, 27), (64, 16)):
                        cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
                        window(ctx, key, kind, cls(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y), x, (0,) * S, S, L, X, Y)
                ctx.state()
                ctx.trace()
                ctx.outcome(key)
    ctx.sample(pats[0])


def fast_dict(kind, x, X):
    """Same parsings as lz78_tokens and lzw_pointers, by a trie."""
    child, out, size = {}, [], 1 if kind == "78" else X
    if kind == "78":
        node = 0
        for s in x:
            if (node, s) in child:
                node = child[node, s]
            else:
                out.append((node, s))
                child[node, s] = size
                size += 1
                node = 0
        if node:
            out.append((node, None))
        return out
    node = None
    for s in x:
        if node is None:
            node = s
        elif (node, s) in child:
            node = child[node, s]
        else:
            out.append((node, size))
            child[node, s] = size
            size += 1
            node = s
    if node is not None:
        out.append((node, size))
    return out


def fast_window(kind, buf, x, S, L, brk):
    """[(length, next symbol)] of the greedy parsings by doubling on string search."""
    b = "".join(map(chr, list(buf) + list(x)))
    i, out = S, []
    while i < len(b):
        lo, hi = 0, min(L, len(b) - i) - (kind == "77")
        while lo < hi:
            m = (lo + hi + 1) // 2
            lo, hi = (m, hi) if b.find(b[i : i + m], i - S, i - 1 + m) >= 0 else (lo, m - 1)
        if kind == "77":
            out.append((lo, ord(b[i + lo])))
            i += lo + 1
        elif lo >= brk:
            out.append((lo, None))
            i += lo
        else:
            out.append((0, ord(b[i])))
            i += 1
    return out


def t_huge(ctx, kind, part, deep=False):
    """Sources with many thousands of phrases, and windows of thousands of symbols."""
    count = [int(c) for i in range(9000) for c in bin(i)[2:]]
    lcg, s = [], 12345
    for _ in range(20000):
        s = (1103515245 * s + 12345) % 2**31
        lcg.append(s >> 16)
    ramp = list(range(70000))
    S = [("counter", 2, count), ("lcg2", 2, [v & 1 for v in lcg]), ("lcg5", 5, [v % 5 for v in lcg]), ("ramp", 70000, ramp), ("runs", 3, [(i * i // 64) % 3 for i in range(20000)]), ("zeros", 2, [0] * 20000)]
    ctx.bound("huge sources", "six structured sources of up to 120000 symbols (70000 phrases); windows up to 5000 + 400")
    name, X, x = S[part]
    for Y in (2, 16):
        key = f"huge/LZ{kind}/{name}/Y={Y}"
        ctx.at(key)
        with ctx.guard(key):
            if kind in ("78", "W"):
                code = (komm.LempelZiv78Code if kind == "78" else komm.LempelZivWelchCode)(X, Y)
                y = np.array(code.encode(np.array(x)))
                want, M = [], ceil_log(X, Y)
                R = fast_dict(kind, x, X)
                for i, (p, t) in enumerate(R):
                    if kind == "78":
                        want += digits(p, Y, ceil_log(i + 1, Y)) + ([] if t is None else digits(t, Y, M))
                    else:
                        want += digits(p, Y, ceil_log(t, Y))
                ctx.ok(y.tolist() == want, key, f"encoding of the source (length {len(want)}, {len(R)} phrases)")
                ctx.ok(np.array(code.decode(y)).tolist() == x, key, "decode(encode)")
                ctx.state(len(R))
                ctx.step(2)
            else:
                if name == "ramp":
                    x = x[:600] + x[300:600] + x[:3000] + x[1000:3000] + x[2500:2600]
                for W, L, T in ((5000, 400, 9000), (256, 16, 9000), (257, 300, 9000), (1000, 70, 9000)) if deep else ((5000, 12, 6000), (256, 16, 2000), (257, 300, 900), (1000, 30, 2000)):
                    cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
                    code = cls(search_size=W, lookahead_size=L, source_cardinality=X, target_cardinality=Y)
                    tok = code.source_to_tokens(np.array(x[:T]))
                    brk = None if kind == "77" else code.break_even
                    R = fast_window(kind, [0] * W, x[:T], W, L, brk)
                    got = [(t[1], t[2]) for t in tok] if kind == "77" else [(t[2], None) if t[0] == 1 else (0, t[1]) for t in tok]
                    ctx.ok(got == R, key + f"/{W}/{L}", "lengths and literals of the longest-match parsing")
                    y = code.encode(np.array(x[:T]))
                    ctx.ok(np.array(code.decode(y)).tolist() == x[:T], key + f"/{W}/{L}", "decode(encode)")
                    ctx.state(len(R))
                    ctx.step(2)
            ctx.outcome(key)
            ctx.trace()
    ctx.sample(name)


def t_widths(ctx, kind, T):
    """Field widths for cardinalities at and next to every power of the target cardinality, up to 2^62."""
    Ys = (2, 3, 5, 7, 10, 16, 256, 1000, 2**31, 2**40 + 1)
    ctx.bound("cardinalities", f"Y^e - 1, Y^e and Y^e + 1 below 2^62 for Y in {Ys}; all sources up to length {T} over four of their symbols")
    for Y in Ys:
        powers = [Y**e for e in range(1, 62) if Y**e < 2**62]
        for X in sorted({p + d for p in powers for d in (-1, 0, 1) if p + d >= 2}):
            key = f"widths/LZ{kind}/X={X}/Y={Y}"
            ctx.at(key)
            top = X - 1 if kind == "78" else min(X - 1, 0x10FFFF)
            A = sorted({0, 1, top // 2, top})
            with ctx.guard(key):
                if kind == "78":
                    code = komm.LempelZiv78Code(X, Y)
                    for x in ref.seqs(A, T):
                        dic(ctx, key, kind, code, x, X, Y)
                        ctx.state()
                else:
                    cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
                    S, L = 3, 4
                    code = cls(search_size=S, lookahead_size=L, source_cardinality=X, target_cardinality=Y)
                    for x in ref.seqs(A, T - 1):
                        window(ctx, key, kind, code, x, (0,) * S, S, L, X, Y)
                        ctx.state()
            ctx.trace()
            ctx.outcome(key)
        if kind in ("77", "SS"):
            for n in sorted({p + d for p in powers if p < 3000 for d in (-1, 0, 1) if p + d >= 1}):
                for S, L in ((n, 2), (2, n)):
                    key = f"widths/LZ{kind}/S={S}/L={L}/Y={Y}"
                    ctx.at(key)
                    with ctx.guard(key):
                        cls = komm.LempelZiv77Code if kind == "77" else komm.LempelZivSSCode
                        code = cls(search_size=S, lookahead_size=L, source_cardinality=2, target_cardinality=Y)
                        for x in ([1, 1, 0], [0] * (L + 1) + [1], [1] + [0] * S + [1, 0]):
                            window(ctx, key, kind, code, x, (0,) * S, S, L, 2, Y)
                            ctx.state()
                    ctx.trace()
    ctx.sample(key)


def t_reject(ctx):
    for name in ("LempelZiv78Code", "LempelZivWelchCode"):
        C = getattr(komm, name)
        for a in ((1, 2), (2, 1), (0,)):
            ctx.raises(ValueError, lambda: C(*a), f"reject/{name}/{a}", "cardinality below 2")
        for x in ([2], [0, -1], [0, 1, 5]):
            ctx.raises(ValueError, lambda: C(2).encode(x), f"reject/{name}/{x}", "source symbol out of range")
        ctx.state(6)
    for name in ("LempelZiv77Code", "LempelZivSSCode"):
        C = getattr(komm, name)
        ok = dict(search_size=3, lookahead_size=2, source_cardinality=2, target_cardinality=2)
        for k, v in (("search_size", 0), ("lookahead_size", 0), ("source_cardinality", 1), ("target_cardinality", 1), ("search_buffer", [0, 1])):
            ctx.raises(ValueError, lambda: C(**dict(ok, **{k: v})), f"reject/{name}/{k}", k)
        for x in ([2], [0, -1]):
            ctx.raises(ValueError, lambda: C(**ok).encode(x), f"reject/{name}/{x}", "source symbol out of range")
        ctx.state(7)
    ctx.step(26)
    ctx.trace()
    ctx.outcome(1)
    ctx.sample("reject")


def tasks(tier):
    Th = tier == "thorough"
    out = [("reject", t_reject, {})]
    for kind in ("78", "W"):
        for X, Y, T in [(2, 2, 12 + 3 * Th), (2, 3, 10 + 3 * Th), (3, 2, 7 + 2 * Th), (3, 3, 7 + Th), (4, 2, 5 + Th), (5, 3, 4 + Th), (3, 5, 6 + Th)]:
            out.append((f"dict/{kind}/{X}/{Y}", t_dict, dict(kind=kind, X=X, Y=Y, T=T)))
        for p in range(4):
            out.append((f"long/{kind}/{p}", t_long, dict(kind=kind, part=p)))
    for kind in ("78", "77", "SS"):
        out.append((f"widths/{kind}", t_widths, dict(kind=kind, T=3 + Th)))
    for kind in ("78", "W", "77", "SS"):
        for p in range(6):
            out.append((f"huge/{kind}/{p}", t_huge, dict(kind=kind, part=p, deep=Th)))
    for kind in ("77", "SS"):
        for S in range(1, 6 + Th):
            for L in range(1, 5 + Th):
                out.append((f"window/{kind}/2/2/{S}/{L}", t_window, dict(kind=kind, X=2, Y=2, S=S, L=L, T=8 + 3 * Th)))
        for X, Y, S, L, T in [(3, 2, 2, 3, 6), (3, 3, 3, 2, 6), (3, 2, 4, 4, 6), (2, 3, 4, 5, 8), (4, 2, 3, 3, 5), (2, 2, 3, 8, 10), (2, 2, 8, 3, 9)]:
            out.append((f"window/{kind}/{X}/{Y}/{S}/{L}x", t_window, dict(kind=kind, X=X, Y=Y, S=S, L=L, T=T + Th)))
        for p in range(4):
            out.append((f"long/{kind}/{p}", t_long, dict(kind=kind, part=p)))
    return out
