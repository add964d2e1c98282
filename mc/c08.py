"""C08: free distance and catastrophicity are what a complete search of the encoder's state graph says."""

import itertools
from heapq import heappop, heappush

import numpy as np

import komm

from . import conv, ref

ASSUMPTIONS = ["free distances of encoders with more than 2^12 [2^14] states are not covered; catastrophicity up to degree 60 by the gcd of the maximal minors", "is_catastrophic: encoders whose generator matrix is rank deficient are exempt (rejected)"]


def graph(spec, cc):
    """State graph of the encoder from its state-space matrices (tied to the power-series model in C07)."""
    A, B, C, D = (np.array(x) for x in cc.state_space_representation())
    s, k = A.shape[0], B.shape[0]
    st = [np.array(ref.to_bits(i, s), dtype=int) for i in range(2**s)]
    xs = [np.array(ref.to_bits(i, k), dtype=int) for i in range(2**k)]
    edges = [[(ref.to_int((v @ A + x @ B) % 2), int(((v @ C + x @ D) % 2).sum()), i) for i, x in enumerate(xs)] for v in st]
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for b, _, _ in edges[a]:
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return edges, seen


def silent(edges, alive):
    """States from which an endless all-zero output is possible (greatest fixpoint)."""
    Z = set(alive)
    while True:
        Z2 = {s for s in Z if any(w == 0 and t in Z for t, w, _ in edges[s])}
        if Z2 == Z:
            return Z
        Z = Z2


def free_distance(edges, seen):
    """Least positive weight of a finite-weight output from state 0 (Dijkstra with a 'nonzero yet' flag)."""
    Z = silent(edges, seen)
    heap, done = [(0, 0)], {}
    while heap:
        w, s = heappop(heap)
        if (s, w > 0) in done:
            continue
        done[s, w > 0] = w
        if w > 0 and s in Z:
            return w
        for t, x, _ in edges[s]:
            if (t, w + x > 0) not in done:
                heappush(heap, (w + x, t))
    return None


def catastrophic(edges, seen):
    """Is there a reachable cycle with all-zero output and nonzero input?"""
    Z = silent(edges, seen)
    adj = {s: [(t, i) for t, w, i in edges[s] if w == 0 and t in Z] for s in Z}
    for s in Z:
        for t, i in adj[s]:
            if i:  # can t come back to s?
                stack, vis = [t], {t}
                while stack:
                    a = stack.pop()
                    if a == s:
                        return True
                    for b, _ in adj[a]:
                        if b not in vis:
                            vis.add(b)
                            stack.append(b)
    return False


def full_rank(spec):
    """Is there a nonzero input with zero output?  Rank of G over the rational functions via k x k minors."""

    def det(M):
        if len(M) == 1:
            return M[0][0]
        r = 0
        for j in range(len(M)):
            r ^= ref.pmul(M[0][j], det([row[:j] + row[j + 1 :] for row in M[1:]]))
        return r

    num = []
    for a, b in zip(spec.num, spec.den):
        q = 1
        for d in b:
            q = ref.plcm(q, d)
        num.append([ref.pmul(x, ref.pdivmod(q, d)[0]) for x, d in zip(a, b)])
    return spec.k <= spec.n and any(det([[row[j] for j in js] for row in num]) for js in itertools.combinations(range(spec.n), spec.k))


def one(ctx, spec):
    key = f"{spec.name}"
    ctx.at(key)
    with ctx.guard(key):
        cc = spec.make()
        if cc.degree > 7:
            return
        edges, seen = graph(spec, cc)
        d = free_distance(edges, seen)
        ctx.state(len(seen))
        ctx.step(sum(len(edges[s]) for s in seen))
        ctx.trace()
        full = full_rank(spec)
        if d is not None:
            got = spec.make().free_distance()
            ctx.ok(got == d, f"free_distance/{key}", f"free_distance() = {got}, least weight of a nonzero finite-weight output is {d}", int(got))
        if full:
            cat = catastrophic(edges, seen)
            c1 = spec.make()
            got = c1.is_catastrophic()
            ctx.ok(bool(got) == cat, f"is_catastrophic/{key}", f"is_catastrophic() = {got}, state graph says {cat}", bool(got))
            # the two questions do not influence each other
            if d is not None:
                ctx.ok(c1.free_distance() == cc.free_distance(), f"order/{key}", "free distance depends on the order of queries")
            ctx.outcome((d, cat))
        ctx.outcome((d, full))


def controller(spec):
    """State graph of the encoder built from its polynomials alone (controller form: one shift register per input)."""
    mem = [max([ref.pdeg(p) for p in num] + [ref.pdeg(q) for q in den]) for num, den in zip(spec.num, spec.den)]
    S, X = sum(mem), spec.k
    s = np.arange(1 << S)
    edges = [[] for _ in range(1 << S)]
    for x in range(1 << X):
        nxt, out, off = np.zeros_like(s), [np.zeros_like(s) for _ in range(spec.n)], 0
        for i, m in enumerate(mem):
            q = spec.den[i][0]
            assert all(d == q for d in spec.den[i]) and q & 1
            reg = s >> off & ((1 << m) - 1)  # bit j: w(t - 1 - j)
            w = (x >> i & 1) ^ parity(reg & (q >> 1))
            window = reg << 1 | w
            for j in range(spec.n):
                out[j] = out[j] ^ parity(window & spec.num[i][j])
            nxt = nxt | (window & ((1 << m) - 1)) << off
            off += m
        weight = sum(out)
        for a, b, c in zip(edges, nxt.tolist(), weight.tolist()):
            a.append((b, c, x))
    return edges, set(range(1 << S))


def parity(a):
    a = a.copy()
    for sh in (32, 16, 8, 4, 2, 1):
        a ^= a >> sh
    return a & 1


def minors(spec):
    """Greatest common divisor of the k x k minors (polynomial matrices)."""
    g = 0
    for js in itertools.combinations(range(spec.n), spec.k):
        g = ref.pgcd(g, pdet([[row[j] for j in js] for row in spec.num]))
    return g


def pdet(M):
    if len(M) == 1:
        return M[0][0]
    r = 0
    for j in range(len(M)):
        r ^= ref.pmul(M[0][j], pdet([row[:j] + row[j + 1 :] for row in M[1:]]))
    return r


def t_large(ctx, specs):
    """Encoders of many states: the complete state graph built from the polynomials."""
    for spec in specs:
        key = spec.name
        ctx.at(key)
        with ctx.guard(key):
            edges, seen = controller(spec)
            d = free_distance(edges, seen)
            ctx.state(len(seen))
            ctx.step(len(seen) << spec.k)
            ctx.trace()
            got = spec.make().free_distance()
            if d is not None:
                ctx.ok(got == d, f"free_distance/{key}", f"free_distance() = {got}, least weight of a nonzero finite-weight output is {d}", int(got))
            if full_rank(spec):
                cat = catastrophic(edges, seen)
                got = spec.make().is_catastrophic()
                ctx.ok(bool(got) == cat, f"is_catastrophic/{key}", f"is_catastrophic() = {got}, state graph says {cat}", bool(got))
                ctx.outcome((d, cat))
    ctx.bound("encoders", len(specs))
    ctx.sample(specs[0].name)


def t_minors(ctx, specs, bind):
    """is_catastrophic against the gcd of the maximal minors (Massey-Sain).  bind: small encoders, on which the
    criterion is first compared with the complete state graph."""
    for spec in specs:
        key = spec.name
        ctx.at(key)
        with ctx.guard(key):
            g = minors(spec)
            if not g:
                continue
            cat = g & (g - 1) != 0
            if bind:
                assert catastrophic(*controller(spec)) == cat, key
            ctx.state()
            ctx.trace()
            got = spec.make().is_catastrophic()
            ctx.ok(bool(got) == cat, f"is_catastrophic/{key}", f"is_catastrophic() = {got}, gcd of the maximal minors is {g:#b}", bool(got))
            ctx.outcome((spec.k, spec.n, cat))
    ctx.bound("encoders", len(specs))
    ctx.sample(specs[0].name)


PUBLISHED = ["561 753", "1131 1537", "2473 3217", "4325 6747", "10627 16765", "27251 37363", "557 663 711", "1117 1365 1633", "2353 2671 3175", "4767 5723 6265", "473 513 671 765", "1173 1325 1467 1751"]


def large_specs(T):
    out = [conv.low(*(int(x, 8) for x in s.split())) for s in PUBLISHED]
    out = [s for s in out if max(map(ref.pdeg, s.num[0])) <= (14 if T else 12)]
    for m in (8, 9, 10) if T else (8, 9):
        top = 1 << m
        gs = [top | 1] + [top | 1 << i | 1 for i in range(1, m)] + [top | 1 << i | 1 << j | 1 for i in range(1, m) for j in range(i + 1, m)][:: 1 if T else 3]
        out += [conv.low(a, b) for a, b in itertools.combinations(gs, 2)][:: 1 if T else 2]
        # a common factor of every small degree: catastrophic unless the factor is a power of D
        for f in range(1, 16):
            e = m - ref.pdeg(f)
            out += [conv.low(ref.pmul(f, 1 << e | 3), ref.pmul(f, 1 << e | 5)), conv.low(ref.pmul(f, 1 << e | 3), ref.pmul(f, 7), ref.pmul(f, 1 << e))]
            if f & 1:
                out += [conv.fb([[top | 1, ref.pmul(f, 1 << e | 3)]], [ref.pmul(f, 1 << e | 7)])]
        out += [conv.fb([[q, p]], [q]) for q in gs[::4] for p in gs[1::5]]
    # many outputs: path weights of several hundreds
    for reps in (17, 26, 30):
        for ps in ([7, 5], [0b1011011, 0b1111001], [0o23, 0o35], [0b1011011, 3], [1 << 6, 0b1011011]):
            out.append(conv.low(*(ps * reps)))
        out.append(conv.fb([[0b1011, 0b1101] * reps], [0b1101]))
        out.append(conv.ff([5, 7, 1] * (2 * reps // 3), [2, 7, 13] * (2 * reps // 3)))
    # several inputs
    P = [p for p in range(16, 32)]
    for i, (a, b) in enumerate(itertools.product(P, P)):
        if i % (1 if T else 4) == 0:
            out.append(conv.ff([a, b, 5], [3, a ^ 9, b ^ 1]))
            out.append(conv.fb([[a | 1, 0, b], [0, 7, a >> 1 | 1]], [a | 1, 7]))
            out.append(conv.ff([a, 1, b >> 2, 2], [3, b >> 1, 7, 1], [1, 2, 6, a >> 2]))
    return out


def minor_specs(T):
    """Polynomials far beyond any state graph: all shifts of structured ones, with and without common factors."""
    out = []
    for m in range(10, 61, 2 if T else 5):
        P = [1 << m | 1, 1 << m | 3, 1 << m | 5, (1 << m + 1) - 1, 1 << m | 1 << m // 2 | 1, 1 << m, 1 << m - 1 | 1, ref.pmul(1 << m - 2 | 1, 7), ref.pmul(1 << m - 2 | 3, 7), ref.pmul(1 << m - 3 | 1, 13), ref.pmul(1 << m - 3 | 5, 13)]
        out += [conv.ff([a, b]) for a, b in itertools.combinations(P, 2)]
        out += [conv.ff([a, b, c]) for a, b, c in itertools.combinations(P, 3)][::2]
        out += [conv.ff([a, b, c], [b ^ 2, a, c ^ 1]) for a, b, c in itertools.permutations(P, 3)][:: 3 if T else 11]
        out += [conv.ff([a, b, c, 1], [b ^ 2, a, c ^ 1, c], [c, a ^ b, 7, a ^ 1]) for a, b, c in itertools.permutations(P, 3)][:: 9 if T else 47]
    return out


def t_specs(ctx, specs):
    ctx.bound("encoders", len(specs))
    for s in specs:
        one(ctx, s)
    ctx.sample(specs[0].name)


def tasks(tier):
    T = tier == "thorough"
    specs = conv.small_specs(True)
    # all 1/2 encoders of memory up to 4 (5), all 2/3 with memory 1 on each input
    top = 128 if T else 64
    more = [conv.low(a, b) for a in range(1, top) for b in range(a, top)]
    rows = [r for r in itertools.product(range(4), repeat=3) if any(r)]
    more += [conv.ff(a, b) for a, b in itertools.combinations(rows, 2)]
    more += [conv.high(a, b, c) for a, b, c in itertools.product(range(16 if T else 8), range(8), (1, 3, 5, 7))]
    more += [conv.fb([a, b], [q, p]) for a, b in itertools.combinations(rows[::3], 2) for q, p in ((3, 1), (1, 3), (3, 3))]
    r3 = [r for r in itertools.product(range(3), (0, 1, 3), range(2), (1, 2))]
    more += [conv.ff(a, b, c) for a, b, c in itertools.combinations(r3[::3], 3)][:: 1 if T else 2]
    out = []
    allspecs = specs + more + conv.tall_specs()
    m = 48
    for i in range(m):
        out.append((f"graph/{i}", t_specs, dict(specs=allspecs[i::m])))
    big, mins = large_specs(T), minor_specs(T)
    for i in range(16):
        out.append((f"large/{i}", t_large, dict(specs=big[i::16])))
    for i in range(4):
        out.append((f"minors/{i}", t_minors, dict(specs=mins[i::4], bind=False)))
    out.append(("minors/bind", t_minors, dict(specs=[s for s in more if s.polynomial and s.num[0] and all(d == 1 for r in s.den for d in r)][::7], bind=True)))
    for s in conv.named_specs():
        out.append((f"named/{s.name}", t_specs, dict(specs=[s])))
    return out
