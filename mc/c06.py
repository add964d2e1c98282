"""C06: successive cancellation decoding follows its definition bit by bit, for every frozen set."""

import itertools
import math

import numpy as np

import komm

from . import ref, trellis
from .core import short

ASSUMPTIONS = ["finite input L-values over the quantised alphabets", "bits whose exact L-value is within 1e-9 of zero may be decided either way, as long as the hard output and the later L-values agree with that decision"]


def kron_matrix(mu):
    """u F^{(x)mu}: entry (i, j) is 1 iff the binary digits of j are a subset of those of i."""
    n = 1 << mu
    return np.array([[int(i & j == j) for j in range(n)] for i in range(n)])


class SC:
    """Exact decision L-values by summing over all completions of the prefix."""

    def __init__(self, mu, y):
        self.n = n = 1 << mu
        U = np.array(list(itertools.product((0, 1), repeat=n)))  # bit 0 most significant
        V = U @ kron_matrix(mu) % 2
        self.ll = (0.5 * (1 - 2 * V) @ np.asarray(y)).reshape((2,) * n)
        self.memo = {}

    def L(self, prefix):
        if prefix not in self.memo:
            t = self.ll[prefix]
            m = t.reshape(2, -1).max(axis=1)
            s = m + np.log(np.exp(t.reshape(2, -1) - m[:, None]).sum(axis=1))
            self.memo[prefix] = float(s[0] - s[1])
        return self.memo[prefix]

    def run(self, frozen, hard):
        """L-values of the active bits, and the bits; at a numerical tie, the decoder's own hard decision is followed."""
        prefix, out, bits = (), [], []
        for i in range(self.n):
            if i in frozen:
                prefix += (0,)
            else:
                v = self.L(prefix)
                out.append(v)
                bits.append(int(hard[len(bits)]) if abs(v) < 1e-9 else int(v < 0))
                prefix += (bits[-1],)
        return out, bits


def frozen_sets(mu):
    n = 1 << mu
    for r in range(n):
        yield from itertools.combinations(range(n), r)


def t_sc(ctx, mu, alphabet, words, sets):
    n = 1 << mu
    ctx.bound("frozen sets", f"{len(sets)} of {2**n - 1}")
    ctx.bound("alphabet", list(alphabet))
    ctx.bound("words", len(words))
    models = [SC(mu, y) for y in words]
    R = np.array(words)
    for F in sets:
        key = f"SC/mu={mu}/frozen={list(F)}"
        ctx.at(key)
        with ctx.guard(key):
            code = komm.PolarCode(mu, list(F))
            got = np.array(komm.SCDecoder(code).decode(R.copy()))
            hard = np.array(komm.SCDecoder(code, output_type="hard").decode(R.copy()))
            ctx.step(2 * len(R))
            if not (ctx.eq(got.shape, (len(R), n - len(F)), key, "shape") and ctx.eq(hard.shape, got.shape, key, "shape of hard outputs")):
                continue
            fs = set(F)
            for i, m in enumerate(models):
                want, bits = m.run(fs, hard[i])
                g = got[i]
                good = all(abs(a - b) <= 1e-8 * (1 + abs(b)) for a, b in zip(g.tolist(), want))
                if not good:
                    ctx.fail(key, f"y={short(R[i])}: L-values {short(g)}, by definition {short(want)}", g)
                elif hard[i].tolist() != bits:
                    ctx.fail(key + "/hard", f"y={short(R[i])}: bits {short(hard[i])}, expected {bits}", hard[i])
                ctx.state()
                ctx.trace()
            ctx.outcome((F, float(np.round(got.sum(), 6))))
            if len(R) >= 2:
                two = komm.SCDecoder(code).decode(np.concatenate([R[1], R[-1]]))
                ctx.close(two, np.concatenate([got[1], got[-1]]), key, "two blocks in one call")
    ctx.sample({"mu": mu, "frozen": list(F), "y": words[-1]})


def t_noiseless(ctx, mu, sets):
    """Every message of every listed code comes back from its noiseless codeword."""
    n = 1 << mu
    K = kron_matrix(mu)
    for F in sets:
        key = f"SC-noiseless/mu={mu}/frozen={list(F)}"
        ctx.at(key)
        with ctx.guard(key):
            code = komm.PolarCode(mu, list(F))
            act = [i for i in range(n) if i not in set(F)]
            U = ref.words(len(act))
            V = U @ K[act] % 2
            ctx.eq(code.encode(U), V, key, "encode")
            for scale in (0.7, 9.0):
                got = np.array(komm.SCDecoder(code, output_type="hard").decode(scale * (1 - 2 * V)))
                ctx.step(len(U))
                ctx.state(len(U))
                ctx.trace(len(U))
                bad = np.nonzero((got != U).any(axis=1))[0] if got.shape == U.shape else [0]
                for i in list(bad)[:2]:
                    ctx.fail(key, f"message {short(U[i])} at scale {scale} decoded as {short(got[i])}", got[i])
            ctx.outcome(F)
    ctx.sample({"mu": mu, "frozen": list(F)})


def split(y, frozen, hard, out):
    """The same decision L-values by channel splitting (compared with the sums over completions by t_split): returns the
    codeword of the decided bits; appends to out the L-values of the active ones.  frozen: one flag per bit."""
    if len(y) == 1:
        if frozen[0]:
            return np.array([0])
        v = float(y[0])
        b = int(hard[len(out)]) if abs(v) < 1e-9 else int(v < 0)
        out.append((v, b))
        return np.array([b])
    h = len(y) // 2
    a, b = y[:h], y[h:]
    f = np.logaddexp(0.0, a + b) - np.logaddexp(a, b)
    v1 = split(f, frozen[:h], hard, out)
    v2 = split(b + (1 - 2 * v1) * a, frozen[h:], hard, out)
    return np.concatenate([v1 ^ v2, v2])


def judge_split(ctx, key, mu, F, R):
    n = 1 << mu
    flag = np.isin(np.arange(n), list(F))
    with ctx.guard(key):
        code = komm.PolarCode(mu, list(F))
        got = np.array(komm.SCDecoder(code).decode(R.copy()))
        hard = np.array(komm.SCDecoder(code, output_type="hard").decode(R.copy()))
        ctx.step(2 * len(R))
        if not (ctx.eq(got.shape, (len(R), n - len(F)), key, "shape") and ctx.eq(hard.shape, got.shape, key, "shape of hard outputs")):
            return
        for i, y in enumerate(R):
            out = []
            split(y, flag, hard[i], out)
            ctx.state()
            ctx.trace()
            want, bits = np.array([v for v, _ in out]), np.array([b for _, b in out])
            bad = np.nonzero(~(np.abs(got[i] - want) <= 1e-7 * (1 + np.abs(want))))[0]
            if len(bad):
                ctx.fail(key, f"word {i}: L-value of active bit {bad[0]} is {got[i][bad[0]]}, by definition {want[bad[0]]}", float(got[i][bad[0]]))
            elif hard[i].tolist() != bits.tolist():
                ctx.fail(key + "/hard", f"word {i}: bits {short(hard[i])}, expected {short(bits)}")
        ctx.outcome((key, float(np.round(np.abs(got).sum(), 4))))
        ctx.eq(np.array(komm.SCDecoder(code, output_type="hard").decode(R.reshape(-1))), hard.ravel(), key, "all blocks in one row")


def t_split_self(ctx):
    """The splitting recursion against the definition: every frozen set of length 4, and 16 words of length 8 and 16."""
    for mu, sets in ((2, list(frozen_sets(2))), (3, list(frozen_sets(3))[::5]), (4, [(0, 1, 2, 4, 8), (0, 1, 2, 3, 4, 5, 6, 8), ()])):
        n = 1 << mu
        for i in range(8):
            y = trellis.soft(trellis.pattern(n, i), i, 0.4 + i)
            m = SC(mu, y)
            for F in sets:
                out = []
                split(y, np.isin(np.arange(n), F), [0] * n, out)
                want, bits = m.run(set(F), [0] * n)
                assert [b for _, b in out] == bits and np.allclose([v for v, _ in out], want, rtol=1e-9, atol=1e-9), (mu, F, i)
                ctx.step()
                ctx.state()
                ctx.trace()
                ctx.outcome((mu, F, i, tuple(bits)))
    ctx.bound("recursion", "equal to the sums over all completions on every case")


def bhatta(mu, z, count):
    """The `count` worst positions of an erasure channel, a usual choice of frozen bits."""
    Z = [z]
    for _ in range(mu):
        Z = [w for p in Z for w in (2 * p - p * p, p * p)]
    return sorted(sorted(range(1 << mu), key=lambda i: -Z[i])[:count])


def t_split(ctx, mu, rates, scales):
    n = 1 << mu
    ctx.bound("length", n)
    ctx.bound("frozen sets", f"erasure-channel, weight-ordered and irregular choices at rates {rates}")
    K = kron_matrix(mu) if mu < 8 else None
    for z in rates:
        k = max(1, int(n * z))
        sets = {"bec": bhatta(mu, 1 - z, n - k), "weight": sorted(sorted(range(n), key=lambda i: (bin(i).count("1"), i))[: n - k]), "irregular": sorted(np.argsort(trellis.pattern(n, 3, k, 9973))[: n - k].tolist())}
        for name, F in sets.items():
            key = f"SC-split/mu={mu}/{name}/k={n - len(F)}"
            ctx.at(key)
            words = []
            act = [i for i in range(n) if i not in set(F)]
            for i, every in enumerate((0, 30, 12, 6, 1)):
                u = np.zeros(n, dtype=int)
                u[act] = trellis.pattern(len(act), i)
                if K is not None:
                    v = u @ K % 2
                else:
                    v = u.copy()
                    for d in range(mu):
                        w = v.reshape(-1, 2, 1 << d)
                        w[:, 0] ^= w[:, 1]
                with ctx.guard(key, "encode"):
                    ctx.eq(np.array(komm.PolarCode(mu, F).encode(u[act])), v, key, "encode")
                for sc in scales:
                    words.append(trellis.soft(trellis.noisy(v, every, i), i, sc))
            judge_split(ctx, key, mu, F, np.array(words))
    ctx.sample({"mu": mu})


def chunks(xs, k):
    return [xs[i::k] for i in range(k)]


def tasks(tier):
    T = tier == "thorough"
    out = []
    A1 = (-1000.0, -42.0, -3.1, -0.7, -0.2, 0.0, 2.0**-30, 0.4, 1.3, 6.0, 38.5, 761.0)
    out.append(("sc/mu1", t_sc, dict(mu=1, alphabet=A1, words=list(itertools.product(A1, repeat=2)), sets=list(frozen_sets(1)))))
    A2 = (-3.1, -0.7, 0.0, 0.4, 1.9, 3.1) if T else (-3.1, -0.7, 0.0, 0.7, 1.9)
    w2 = list(itertools.product(A2, repeat=4))
    out.append(("sc/mu2", t_sc, dict(mu=2, alphabet=A2, words=w2, sets=list(frozen_sets(2)))))
    A4 = (-760.0, -41.0, 2.0**-20, 38.5, 1000.0)
    out.append(("sc/mu2/far", t_sc, dict(mu=2, alphabet=A4, words=list(itertools.product(A4, repeat=4)), sets=list(frozen_sets(2)))))
    base = (1.7, -0.9, 0.33, 2.4, -0.51, 1.1, -1.6, 0.77)
    w3 = [tuple(s * b for s, b in zip(sg, base)) for sg in itertools.product((1, -1), repeat=8)]
    if T:
        w3 += [tuple(s * b for s, b in zip(sg, base[::-1])) for sg in itertools.product((3, -1), repeat=8)]
        w3 += list(itertools.product((0.0, 1.25), repeat=8))
    else:
        w3 += list(itertools.product((0.0, 1.25), repeat=8))[::3]
        w3 += list(itertools.product((0.0, -1.25), repeat=8))[::5]
    w3 += [tuple((40.0 if i % 3 else 900.0) * b for i, b in enumerate(w)) for w in w3[:256:7]]
    fs3 = list(frozen_sets(3))
    for j, part in enumerate(chunks(fs3, 16)):
        out.append((f"sc/mu3/{j}", t_sc, dict(mu=3, alphabet=base, words=w3, sets=part)))
    good4 = (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12)
    sets4 = [good4, good4[:8], (0, 1, 2, 4, 8), (0,), (), (15,), (3, 5, 6, 9, 10, 12), tuple(range(15))]
    b4 = [(1.3 + 0.21 * i) * (-1 if (i * i + i // 3) % 3 == 0 else 1) for i in range(16)]
    w4 = [tuple(b4[(i + r) % 16] * (-0.35 if i == e else 1) for i in range(16)) for r in range(0, 16, 1 if T else 5) for e in (range(16) if T else (0, 5, 11))]
    out.append(("sc/mu4", t_sc, dict(mu=4, alphabet=b4, words=w4, sets=sets4)))
    out.append(("split/self-test", t_split_self, {}))
    for mu in (5, 6, 7, 8) + ((9, 10) if T else ()):
        for j, z in enumerate((0.125, 0.5, 0.8) if not T else (0.03, 0.125, 0.25, 0.5, 0.8, 0.95)):
            out.append((f"split/mu{mu}/{j}", t_split, dict(mu=mu, rates=[z], scales=(1.0, 6.0, 60.0) if not T else (0.01, 0.1, 1.0, 6.0, 40.0, 400.0))))
    out.append(("noiseless/mu2", t_noiseless, dict(mu=2, sets=list(frozen_sets(2)))))
    for j, part in enumerate(chunks(fs3, 4)):
        out.append((f"noiseless/mu3/{j}", t_noiseless, dict(mu=3, sets=part)))
    s4 = [s for s in itertools.combinations(range(16), 14)] + [s for s in itertools.combinations(range(16), 2)][::15]
    out.append(("noiseless/mu4", t_noiseless, dict(mu=4, sets=[s for s in s4 if len(s) > 4] + [good4, good4[:8]])))
    out.append(("noiseless/mu5", t_noiseless, dict(mu=5, sets=[tuple(i for i in range(32) if bin(i).count("1") < w) for w in (3, 4, 5)][1:])))
    return out
