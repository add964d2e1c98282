"""The block codes the checks enumerate: (name, factory, n, k, reference codeword set or None)."""

import itertools
import math

import numpy as np

import komm

from . import ref


def factors_of_xn1(n):
    m = (1 << n) ^ 1
    return [g for g in range(1, m + 1) if g & 1 and ref.pdeg(g) <= n and ref.pdivmod(m, g)[1] == 0]


_FACT_CACHE = {}


def factor_list(n):
    """All divisors of X^n + 1, from its irreducible factorisation."""
    if n not in _FACT_CACHE:
        m = (1 << n) ^ 1
        irr = []
        f = 3
        rest = m
        while rest != 1:
            if 2 * ref.pdeg(f) > ref.pdeg(rest):
                irr.append(rest)
                break
            q, r = ref.pdivmod(rest, f)
            if r == 0:
                irr.append(f)
                rest = q
            else:
                f += 2
        divs = {1}
        for p in irr:
            divs |= {ref.pmul(d, p) for d in divs}
        _FACT_CACHE[n] = sorted(divs)
    return _FACT_CACHE[n]


def cyclic_words(n, g):
    """All multiples of g of degree < n."""
    k = n - ref.pdeg(g)
    return {ref.pmul(u, g) for u in range(1 << k)}


def monomial_span(mu, rho):
    """Reed-Muller by definition: evaluations of all Boolean polynomials of degree <= rho."""
    pts = ref.words(mu)
    rows = []
    for w in range(rho + 1):
        for S in itertools.combinations(range(mu), w):
            rows.append(ref.to_int(np.prod(pts[:, list(S)], axis=1) if S else np.ones(len(pts), int)))
    return rows


def gf_exp(mu):
    """exp table of GF(2^mu) for the smallest-weight primitive modulus with the code's convention: any primitive."""
    for m in range((1 << mu) + 1, 1 << (mu + 1), 2):
        if ref.irreducible(m) and ref.x_order(m) == (1 << mu) - 1:
            yield m


def span_set(rows):
    s = {0}
    for r in rows:
        if r not in s:
            s |= {x ^ r for x in s}
    return s


def greedy_lexicode(n, d):
    cw = []
    for i in range(1 << n):
        if all(bin(c ^ i).count("1") >= d for c in cw):
            cw.append(i)
    return cw


def rev(x, n):
    return int(format(x, f"0{n}b")[::-1], 2)


def families(tier):
    """Named families: yields dict(name, make, n, k, words=set of ints or None, d=min distance or None)."""
    T = tier == "thorough"
    for mu in range(2, 6 if T else 5):
        for ext in (False, True):
            n = 2**mu - 1 + ext
            yield dict(name=f"HammingCode({mu},{ext})", make=lambda mu=mu, e=ext: komm.HammingCode(mu, extended=e),
                       n=n, k=2**mu - 1 - mu, d=4 if ext else 3)
    for ka in range(2, 6):
        for ext in (False, True):
            yield dict(name=f"SimplexCode({ka},{ext})", make=lambda ka=ka, e=ext: komm.SimplexCode(ka, extended=e),
                       n=2**ka - 1 + ext, k=ka + ext, d=2 ** (ka - 1))
    for n in range(1, 9 if not T else 12):
        yield dict(name=f"RepetitionCode({n})", make=lambda n=n: komm.RepetitionCode(n), n=n, k=1, d=n,
                   words={0, (1 << n) - 1})
    for n in range(2, 9 if not T else 12):
        yield dict(name=f"SingleParityCheckCode({n})", make=lambda n=n: komm.SingleParityCheckCode(n), n=n, k=n - 1,
                   d=2, words={x for x in range(1 << n) if bin(x).count("1") % 2 == 0})
    for ext in (False, True):
        yield dict(name=f"GolayCode({ext})", make=lambda e=ext: komm.GolayCode(extended=e), n=23 + ext, k=12,
                   d=8 if ext else 7)
    for mu in range(1, 6 if T else 5):
        for rho in range(0, mu):
            k = sum(math.comb(mu, i) for i in range(rho + 1))
            if k <= 16:
                yield dict(name=f"ReedMullerCode({rho},{mu})", make=lambda r=rho, m=mu: komm.ReedMullerCode(r, m),
                           n=2**mu, k=k, d=2 ** (mu - rho), words=span_set(monomial_span(mu, rho)))
    for n in range(2, 11):
        d = math.ceil(2 * n / 3) - 1
        yield dict(name=f"CordaroWagnerCode({n})", make=lambda n=n: komm.CordaroWagnerCode(n), n=n, k=2,
                   d=d if n > 2 else 1)
    for mu in range(2, 6 if T else 5):
        for delta in range(2, 2**mu):
            spec = bch_spec(mu, delta)
            if spec is not None and spec[0] <= 16:
                k, d = spec
                yield dict(name=f"BCHCode({mu},{delta})", make=lambda m=mu, d=delta: komm.BCHCode(m, d),
                           n=2**mu - 1, k=k, d=None)
    for n in range(2, 8):
        for d in range(2, n + 1):
            L = greedy_lexicode(n, d)
            if len(L) > 1:
                yield dict(name=f"Lexicode({n},{d})", make=lambda n=n, d=d: komm.Lexicode(n, d), n=n,
                           k=len(L).bit_length() - 1, d=None, words={rev(x, n) for x in L})
    for mu in (1, 2, 3):
        nn = 2**mu
        for r in range(1, nn):
            for fr in itertools.combinations(range(nn), r):
                yield dict(name=f"PolarCode({mu},{list(fr)})", make=lambda m=mu, f=fr: komm.PolarCode(m, list(f)),
                           n=nn, k=nn - r, d=None, words=span_set(polar_rows(mu, fr)))


def polar_rows(mu, frozen):
    """Row i of the mu-fold Kronecker power of [[1,0],[1,1]]: entry (i, j) is 1 iff j is a submask of i."""
    n = 2**mu
    return [sum(1 << j for j in range(n) if j & ~i == 0) for i in range(n) if i not in frozen]


def bch_spec(mu, delta):
    """(dimension, None) of the narrow-sense primitive BCH code if delta is its Bose distance, else None."""
    n = 2**mu - 1

    def coset(i):
        c, j = set(), i % n
        while j not in c:
            c.add(j)
            j = 2 * j % n
        return frozenset(c)

    roots = set()
    for i in range(1, delta):
        roots |= coset(i)
    if delta < n and delta % n in roots:
        return None
    if delta == n and 0 in roots:
        return None
    return (n - len(roots), None) if n - len(roots) >= 1 else None


def small_matrices(max_n):
    for n in range(1, max_n + 1):
        for k in range(1, n + 1):
            for G in ref.full_rank_matrices(k, n):
                yield n, k, G


def ordered_subsets(n, k):
    return itertools.permutations(range(n), k)
