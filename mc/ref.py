"""Boring reference models, independent of komm: GF(2) vectors and polynomials
as Python ints, brute-force codes, brute-force probability."""

import itertools
import math

import numpy as np

# ---------------------------------------------------------------- bits


def words(n, q=2):
    """All q-ary words of length n as a (q^n, n) array; row i has digits of i, least significant first."""
    a = np.arange(q**n)
    return np.stack([(a // q**j) % q for j in range(n)], axis=1) if n else np.zeros((1, 0), dtype=int)


def to_int(bits):
    return sum(int(b) << i for i, b in enumerate(bits))


def to_bits(x, n):
    return [(x >> i) & 1 for i in range(n)]


def seqs(alphabet, max_len, min_len=0):
    for L in range(min_len, max_len + 1):
        yield from itertools.product(alphabet, repeat=L)


# ---------------------------------------------------------------- GF(2)[X]


def pdeg(a):
    return a.bit_length() - 1


def pmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


def pdivmod(a, b):
    q = 0
    db = pdeg(b)
    while a and pdeg(a) >= db:
        s = pdeg(a) - db
        q ^= 1 << s
        a ^= b << s
    return q, a


def pgcd(a, b):
    while b:
        a, b = b, pdivmod(a, b)[1]
    return a


def plcm(a, b):
    return pdivmod(pmul(a, b), pgcd(a, b))[0] if a and b else 0


def ppow(a, e):
    r = 1
    for _ in range(e):
        r = pmul(r, a)
    return r


def pmulmod(a, b, m):
    return pdivmod(pmul(a, b), m)[1]


def irreducible(a):
    d = pdeg(a)
    return d >= 1 and all(pdivmod(a, f)[1] for f in range(2, 1 << (d // 2 + 1)))


def x_order(m):
    """Multiplicative order of X modulo m (m(0) = 1, deg m >= 1)."""
    x = pdivmod(2, m)[1]
    one = pdivmod(1, m)[1]
    e, cur = 1, x
    while cur != one:
        cur = pmulmod(cur, 2, m)
        e += 1
    return e


# ---------------------------------------------------------------- GF(2) matrices (rows as ints)


def row_ints(M):
    M = np.asarray(M)
    return [to_int(r) for r in M]


def rank_ints(rows):
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)


def rank(M):
    return rank_ints(row_ints(M))


def full_rank_matrices(k, n):
    """All k x n binary matrices of rank k, as arrays."""

    def rec(rows, span):
        if len(rows) == k:
            yield np.array([to_bits(r, n) for r in rows], dtype=int).reshape(k, n)
            return
        for r in range(1, 1 << n):
            if r not in span:
                yield from rec(rows + [r], span | {s ^ r for s in span})

    yield from rec([], {0})


def span_words(G):
    """All codewords, row i = combination of the generator rows picked by the bits of i (LSB first)."""
    G = np.asarray(G, dtype=int)
    return words(G.shape[0]) @ G % 2


# ---------------------------------------------------------------- numbers


def h2(p):
    return -sum(x * math.log2(x) for x in (p, 1 - p) if x > 0)


def entropy(p, base=2.0):
    return -sum(float(x) * math.log(float(x)) for x in p if x > 0) / math.log(base)


def logsumexp(xs):
    m = max(xs)
    return -math.inf if m == -math.inf else m + math.log(sum(math.exp(x - m) for x in xs))
