"""Exact dynamic programming over trellises: the reference for streams too long to enumerate path by path.  Each function
is itself compared with enumeration of every path by self_test(), which the checks that use it run."""

import itertools

import numpy as np


def pattern(n, a=7, b=3, mod=2):
    """A deterministic, irregular sequence."""
    out, x = [], 12345 + a
    for i in range(n):
        x = (x * 1103515245 + 12345 + b * i) % 2**31
        out.append((x >> 13) % mod)
    return np.array(out, dtype=int)


class Trellis:
    """T[s, x] next state, O[s, x] output."""

    def __init__(self, T, O):
        self.T, self.O = np.array(T), np.array(O)
        self.S, self.X = self.T.shape

    def run(self, s, xs):
        ys = []
        for x in xs:
            ys.append(int(self.O[s, x]))
            s = int(self.T[s, x])
        return s, ys

    def least(self, init, costs):
        """Least cost of a path into every state, costs[t][y]."""
        m = np.array(init, dtype=float)
        for c in costs:
            new = np.full(self.S, np.inf)
            np.minimum.at(new, self.T, m[:, None] + np.asarray(c)[self.O])
            m = new
        return m

    def cost(self, s, xs, costs):
        total = 0.0
        for x, c in zip(xs, costs):
            total += c[self.O[s, x]]
            s = self.T[s, x]
        return int(s), total

    def windows(self, init, costs, tau, eps):
        """For every t >= tau, the inputs at time t - tau of the best paths up to and including time t."""
        m = np.array(init, dtype=float)
        win = [[] for _ in range(self.S)]  # per state, a set of inputs per time, over all its best paths
        out = []
        for t, c in enumerate(costs):
            cand = m[:, None] + np.asarray(c)[self.O]
            new = np.full(self.S, np.inf)
            np.minimum.at(new, self.T, cand)
            nw = [None] * self.S
            for s in range(self.S):
                for x in range(self.X):
                    v = int(self.T[s, x])
                    if cand[s, x] < np.inf and cand[s, x] <= new[v] + eps:
                        w = win[s][-tau:] + [{x}]
                        nw[v] = w if nw[v] is None else [a | b for a, b in zip(nw[v], w)]
            m, win = new, nw
            if t < tau:
                out.append(None)
            else:
                best = m.min()
                out.append(set().union(*(win[s][0] for s in range(self.S) if m[s] <= best + eps)))
        return out

    def posteriors(self, logw, prior=None, first=None, last=None):
        """P(input at t = x), by scaled sums over the trellis; logw[t][y], log first and log last weights per state."""
        L = len(logw)
        S, X = self.S, self.X
        first = np.zeros(S) if first is None else np.asarray(first, dtype=float)
        last = np.zeros(S) if last is None else np.asarray(last, dtype=float)
        pri = np.zeros((L, X)) if prior is None else prior
        a = [first]
        edge = []
        for t in range(L):
            e = np.asarray(logw[t])[self.O] + pri[t]
            edge.append(e)
            cand = a[-1][:, None] + e
            with np.errstate(invalid="ignore"):
                new = np.array([np.logaddexp.reduce(cand[self.T == v]) if (self.T == v).any() else -np.inf for v in range(S)])
            a.append(new)
        out = np.empty((L, X))
        b = last
        for t in reversed(range(L)):
            tot = edge[t] + b[self.T]
            with np.errstate(invalid="ignore"):
                v = np.logaddexp.reduce(a[t][:, None] + tot, axis=0)
                out[t] = v - np.logaddexp.reduce(v)
                b = np.logaddexp.reduce(tot, axis=1)
        return out  # logarithms


def self_test(ctx):
    """All machines with 2 states and 2 inputs over 2 outputs, paths of length 4: the programs against enumeration."""
    tab = [[0.0, 1.37], [1.113, 0.05]]
    zs = (0, 1, 1, 0)
    for Tf in itertools.product(range(2), repeat=4):
        for Of in itertools.product(range(2), repeat=4):
            tr = Trellis(np.array(Tf).reshape(2, 2), np.array(Of).reshape(2, 2))
            costs = [[tab[y][z] for y in range(2)] for z in zs]
            init = [0.0, 0.3]
            P = []
            for s in range(2):
                for xs in itertools.product(range(2), repeat=4):
                    f, c = tr.cost(s, xs, costs)
                    P.append((xs, f, c + init[s]))
            for f in range(2):
                assert abs(min([c for _, g, c in P if g == f], default=np.inf) - tr.least(init, costs)[f]) < 1e-12 or f not in [g for _, g, _ in P]
            best = min(c for _, _, c in P)
            w = tr.windows(init, costs, 2, 1e-12)
            assert w[3] == {xs[1] for xs, _, c in P if c <= best + 1e-12}, (Tf, Of)
            p = tr.posteriors([[-v for v in c] for c in costs], first=[-v for v in init])
            Z = sum(np.exp(-c) for _, _, c in P)
            for t in range(4):
                assert abs(np.exp(p[t, 1]) - sum(np.exp(-c) for xs, _, c in P if xs[t]) / Z) < 1e-12
            ctx.step()
            ctx.state()
            ctx.trace()
    ctx.outcome("programs agree with enumeration")
    ctx.bound("machines", "all with 2 states, 2 inputs and 2 outputs, paths of length 4")


def noisy(word, every, n):
    """The word with errors at irregular places, about one in `every` positions (0: none; 1: an irregular word)."""
    if every == 0:
        return np.array(word)
    if every == 1:
        return pattern(len(word), 5, n)
    return (np.array(word) + (pattern(len(word), 3, n, every) == 0)) % 2


LEVELS = np.array([0.3, 1.0, 2.75, 0.05, 1.6])


def soft(word, n, scale=1.0):
    """Soft values of the word's bits (positive for 0), irregular magnitudes."""
    return scale * (1.0 - 2.0 * np.array(word)) * LEVELS[pattern(len(word), 11, n, 5)]


EXACT = 2.0**-32  # sums of the values below are exact in double precision: costs differ by nothing or by more than this


def fine(word, n):
    """Soft values that differ in their last bits only: a computation in a narrower type loses the optimum."""
    return (1.0 - 2.0 * np.array(word)) * (1.0 + pattern(len(word), 13, n, 61) * 2.0**-30)


def mixed(word, n):
    """Stretches of strong values followed by stretches of weak ones."""
    L = len(word)
    scale = np.where((np.arange(L) * 4 // max(L, 1)) % 2 == 0, 2.0**17, 2.0**-10)
    return (1.0 - 2.0 * np.array(word)) * scale * (1.0 + pattern(L, 17, n, 5) / 4.0)


def long_specs(conv):
    return [conv.ff([7, 5]), conv.ff([0o15, 0o17]), conv.fb([[7, 5]], [7]), conv.fb([[0b10111, 0b11001]], [0b10111]), conv.low(0o117, 0o155), conv.low(0o7, 0o5, 0o3), conv.ff([1, 0, 0], [0, 7, 5]),
            conv.ff([0b11001, 0b10111, 0], [0, 0b1010, 0b1101]), conv.high(2, 1, 3), conv.high(0o12, 0o15, 0o13, 0o11), conv.ff([1, 0, 0, 6], [0, 1, 0, 5], [0, 0, 1, 3]), conv.ff([3])]


def of_code(cc):
    """Trellis of an encoder from its state-space equations, inputs and outputs as LSB-first integers."""
    from . import ref

    A, B, C, D = (np.array(x) for x in cc.state_space_representation())
    s, k, n = A.shape[0], B.shape[0], D.shape[1]
    st = ref.words(s) if s else np.zeros((1, 0), dtype=int)
    us = ref.words(k)
    pw = lambda m: 1 << np.arange(m)
    # ref.words lists bit 0 first
    T = np.array([[int(((v @ A + u @ B) % 2) @ pw(s)) for u in us] for v in st])
    O = np.array([[int(((v @ C + u @ D) % 2) @ pw(n)) for u in us] for v in st])
    return Trellis(T, O)


def tails(code, tr, h, k, n):
    """The tail the terminated code appends after reaching each state: read off its codewords (empty if no tail)."""
    N = int(code.length)
    back = {0: ()}
    front = [0]
    while front:
        nxt = []
        for s in front:
            for x in range(tr.X):
                v = int(tr.T[s, x])
                if v not in back:
                    back[v] = back[s] + (x,)
                    nxt.append(v)
        front = nxt
    out = {}
    for s, xs in back.items():
        if len(xs) <= h:
            full = (0,) * (h - len(xs)) + xs
            # staying in the zero state with zero inputs holds for every linear encoder
            u = [x >> i & 1 for x in full for i in range(k)]
            out[s] = np.array(code.encode(u))[h * n : N]
    return out
