"""Convolutional encoders the checks enumerate, with an algebraic reference model."""

import itertools

import numpy as np

import komm

from . import ref


class Spec:
    """A k x n matrix of rational functions num/den over GF(2) (den(0) = 1), and how to build the komm object."""

    def __init__(self, name, make, num, den):
        self.name, self.make = name, make
        self.num = [list(map(int, r)) for r in num]
        self.den = [list(map(int, r)) for r in den]
        self.k, self.n = len(num), len(num[0])
        # input memory actually needed by each row
        self.polynomial = all(ref.pdivmod(a, b)[1] == 0 for ra, rb in zip(self.num, self.den) for a, b in zip(ra, rb))

    def encode(self, u):
        """Output blocks (L x n) for input blocks u (L x k) from the zero state, by power series division."""
        L = len(u)
        mask = (1 << L) - 1
        out = np.zeros((L, self.n), dtype=int)
        for i in range(self.k):
            ui = sum(int(u[t][i]) << t for t in range(L))
            for j in range(self.n):
                w = series_div(ref.pmul(ui, self.num[i][j]) & mask, self.den[i][j], L)
                for t in range(L):
                    out[t, j] ^= w >> t & 1
        return out


def series_div(a, d, L):
    """a / d as a power series, first L coefficients; d has constant term 1."""
    assert d & 1
    q = 0
    for t in range(L):
        if a >> t & 1:
            q |= 1 << t
            a ^= d << t
    return q


def ff(*rows):
    rows = [list(r) for r in rows]
    return Spec(f"ConvolutionalCode({rows})", lambda: komm.ConvolutionalCode(rows), rows, [[1] * len(r) for r in rows])


def fb(rows, qs):
    rows = [list(r) for r in rows]
    return Spec(f"ConvolutionalCode({rows},fb={list(qs)})", lambda: komm.ConvolutionalCode(rows, list(qs)), rows, [[q] * len(r) for r, q in zip(rows, qs)])


def low(*g):
    return Spec(f"LowRateConvolutionalCode({list(g)})", lambda: komm.LowRateConvolutionalCode(list(g)), [list(g)], [[1] * len(g)])


def high(*h):
    n = len(h)
    num = [[int(i == j) for j in range(n - 1)] + [h[i]] for i in range(n - 1)]
    den = [[1] * (n - 1) + [h[-1]] for i in range(n - 1)]
    return Spec(f"HighRateConvolutionalCode({list(h)})", lambda: komm.HighRateConvolutionalCode(list(h)), num, den)


def small_specs(thorough=False):
    """Every encoder of the stated shapes (all tap choices up to small memory)."""
    out = []
    top = 16 if thorough else 8
    for a, b in itertools.product(range(1, top), range(0, top)):
        out.append(low(a, b))
        out.append(ff([a, b]))
    for a, b, c in itertools.product(range(1, 4), range(4), range(4)):
        out.append(low(a, b, c))
    for q in (3, 5, 7) + ((9, 11, 13, 15) if thorough else ()):
        for a, b in itertools.product(range(1, 8), range(0, 8)):
            out.append(fb([[a, b]], [q]))
    for h0, h1 in itertools.product(range(8), (1, 3, 5, 7)):
        if max(h0, h1) > 1:
            out.append(high(h0, h1))
    for h0, h1, h2 in itertools.product(range(4), range(4), (1, 3)):
        if max(h0, h1, h2) > 1:
            out.append(high(h0, h1, h2))
    # two inputs
    rows = list(itertools.product(range(4), repeat=3)) if thorough else list(itertools.product((0, 1, 2, 3), (0, 1, 3), (0, 1, 2)))
    rows = [r for r in rows if any(r)]
    for r0, r1 in itertools.product(rows, rows):
        if r0 < r1:
            out.append(ff(r0, r1))
    for q0, q1 in itertools.product((1, 3), repeat=2):
        for r0, r1 in itertools.combinations([(1, 0, 2), (3, 1, 0), (0, 1, 1), (2, 3, 1), (1, 2, 3)], 2):
            out.append(fb([r0, r1], [q0, q1]))
    out.append(fb([[7, 5], [0, 3]], [1, 3]))
    return out


def tall_specs():
    """Feedback of larger degree than the feedforward taps, isolated late taps, mixed memories."""
    out = []
    for q in (9, 11, 13, 15, 17, 19, 21, 25, 31, 33, 37, 47, 61):
        for a, b in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 2), (1, 0), (0, 3)):
            out.append(fb([[a, b]], [q]))
        out.append(fb([[1, 2, 3]], [q]))
        out.append(fb([[1, 0, 3], [0, 1, 2]], [q, 3]))
        out.append(fb([[1, 0], [1, 1]], [3, q]))
        out.append(high(1, q))
        out.append(high(2, 1, q))
        out.append(high(q, 1, 3))
    for i in range(3, 6):
        out += [low(1, 1 << i), ff([1, 1 << i]), ff([1 << i, 1]), ff([1, 0, 1 << i], [0, 1, 2]), ff([1, 2, 0], [0, 1 << i, 1]), high(1 << i, 1), high(1, 1 << i, 3), low(1 << i, 1, 3)]
    return out


def named_specs():
    """Textbook encoders of larger memory and mixed constraint lengths."""
    return [
        ff([0o7, 0o5]), ff([0o15, 0o17]), ff([0b11001, 0b10111, 0], [0, 0b1010, 0b1101]), ff([0b11, 0b10, 0b11], [0b10, 0b1, 0b1]),
        ff([1, 0, 0], [0, 7, 5]), ff([1, 0], [0, 1]), ff([1, 1]), ff([1]), ff([3]), ff([1, 0, 1], [0, 1, 1]),
        fb([[0b10111, 0b11001]], [0b10111]), fb([[0b111, 0b101]], [0b111]), fb([[7, 0, 5], [0, 7, 3]], [7, 7]),
        low(0o7, 0o5), low(0o117, 0o155), low(1, 1), high(0o12, 0o15, 0o13, 0o11), high(0b11, 0b101, 0b111), high(2, 1, 3), high(1, 4, 7),
        ff([1, 0, 0, 6], [0, 1, 0, 5], [0, 0, 1, 3]), ff([1, 0, 0], [0, 1, 0], [0, 0, 1]),
    ]


def message_words(h, k):
    """All (2^(hk), h, k) information block sequences."""
    return ref.words(h * k).reshape(-1, h, k)
