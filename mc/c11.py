"""C11: the stream decoder emits, with a delay of exactly the traceback length, the blocks of a best path from the
given start state, however the stream is cut into calls."""

import itertools

import numpy as np

import komm

from . import conv, ref, trellis
from .core import short

ASSUMPTIONS = ["soft inputs over quantised alphabets", "among equally good paths any may be followed"]


class Paths:
    """All input paths of up to T blocks from a start state."""

    def __init__(self, cc, start, T):
        A, B, C, D = (np.array(x) for x in cc.state_space_representation())
        s, k = A.shape[0], B.shape[0]
        self.k, self.n, self.T = k, D.shape[1], T
        U = ref.words(k * T).reshape(-1, T, k)
        st = np.tile(np.array(ref.to_bits(start, s), dtype=int), (len(U), 1))
        V = np.empty((len(U), T, self.n), dtype=int)
        for t in range(T):
            V[:, t] = (st @ C + U[:, t] @ D) % 2
            st = (st @ A + U[:, t] @ B) % 2
        self.U, self.V = U, V

    def allowed(self, R, soft, tau):
        """For each time t >= tau the set of input blocks x_{t-tau} over all optimal paths up to t."""
        Z = np.asarray(R).reshape(self.T, self.n)
        step = (self.V * Z[None]).sum(axis=2) if soft else (self.V != Z[None]).sum(axis=2)
        cum = np.cumsum(step, axis=1)
        out = []
        for t in range(self.T):
            if t < tau:
                out.append(None)
                continue
            c = cum[:, t]
            out.append({tuple(u) for u in self.U[c <= c.min() + 1e-9 * np.abs(R).max(), t - tau].tolist()})
        return out


def judge(ctx, key, make, P, R, soft, tau, state, cuts):
    k, n, T = P.k, P.n, P.T
    good = P.allowed(R, soft, tau)
    first = None
    for edges in cuts:
        dec = komm.ViterbiStreamDecoder(make(), tau, state, "soft" if soft else "hard")
        out = []
        for a, b in zip(edges, edges[1:]):
            piece = np.array(R[a * n : b * n])
            keep = piece.copy()
            o = np.array(dec.decode(piece))
            ctx.ok(np.array_equal(piece, keep), key, "the input array was modified")
            ctx.ok(o.shape == ((b - a) * k,), key, f"{b - a} blocks in, {o.shape} out")
            out += o.tolist()
            ctx.step()
        if first is None:
            first = out
            for t in range(T):
                blk = tuple(out[t * k : (t + 1) * k])
                if good[t] is not None:
                    ctx.ok(blk in good[t], key, f"r={short(R)}: block {blk} at time {t} is on no best path {sorted(good[t])[:4]}", out)
                else:
                    ctx.ok(not any(blk), key, f"r={short(R)}: filling {blk} before the delay has elapsed", out)
        else:
            ctx.ok(out == first, key, f"r={short(R)}: cut at {edges} gives {out}, in one call {first}", out)
    ctx.state()
    ctx.trace()
    ctx.outcome((key, tuple(first)))


def t_stream(ctx, specs, T, taus, budget, soft_alphabet):
    ctx.bound("blocks", T)
    ctx.bound("traceback lengths", list(taus))
    whole = [[0, T]]
    allcuts = [[0] + [i + 1 for i, c in enumerate(cs) if c] + [T] for cs in itertools.product((0, 1), repeat=T - 1)]
    for spec in specs:
        with ctx.guard(spec.name):
            cc = spec.make()
            if cc.degree > 4:
                continue
            for state in range(2**cc.degree) if cc.degree <= 2 else (0, 1, 2**cc.degree - 1):
                P = Paths(cc, state, T)
                n = spec.n
                if 2 ** (n * T) <= budget:
                    W = ref.words(n * T)
                else:  # every path output with every single bit error
                    V = P.V.reshape(len(P.V), -1)
                    E = np.vstack([np.zeros((1, n * T), int), np.eye(n * T, dtype=int)])
                    W = ((V[:, None] + E[None]) % 2).reshape(-1, n * T)
                    W = W[:: max(1, len(W) // budget)]
                for tau in taus:
                    key = f"stream/{spec.name}/tau={tau}/state={state}"
                    ctx.at(key)
                    for i, R in enumerate(W):
                        judge(ctx, key, spec.make if i % 16 == 0 else lambda: cc, P, R.tolist(), False, tau, state, allcuts if i % 16 == 3 else whole + [[0, 1, T]])
                    if soft_alphabet:
                        for i, R in enumerate(itertools.product(soft_alphabet, repeat=n * T)):
                            if i % max(1, len(soft_alphabet) ** (n * T) // (budget // 4)) == 0:
                                judge(ctx, key + "/soft", lambda: cc, P, list(R), True, tau, state, whole)
                            if i % max(1, len(soft_alphabet) ** (n * T) // (budget // 8)) == 1:
                                judge(ctx, key + "/soft", lambda: cc, P, [1e5 * x for x in R], True, tau, state, whole)
                                judge(ctx, key + "/soft", lambda: cc, P, [1e-4 * x for x in R], True, tau, state, whole)
    ctx.sample(spec.name)


def t_noiseless(ctx, spec, h, factor):
    """All messages through the textbook encoders with the recommended traceback: exact recovery after the delay."""
    with ctx.guard(spec.name):
        cc = spec.make()
        mu, k = int(cc.memory_order), spec.k
        tau = factor * max(mu, 1)
        ctx.bound("messages", f"all of {h} blocks, traceback {tau}")
        for u in conv.message_words(h, k):
            x = np.concatenate([u.ravel(), np.zeros(tau * k, dtype=int)])
            v = np.array(cc.encode(x))
            dec = komm.ViterbiStreamDecoder(cc, tau)
            got = np.array(dec.decode(v))
            ctx.eq(got, np.concatenate([np.zeros(tau * k, dtype=int), u.ravel()]), f"noiseless/{spec.name}", f"message {u.ravel().tolist()} not recovered")
            ctx.step()
            ctx.state()
            ctx.trace()
        ctx.outcome(spec.name)
        ctx.sample(u)


def t_long(ctx, spec, L, taus, states):
    """Streams of hundreds of blocks, several cuttings, against dynamic programming over the sets of best paths."""
    ctx.bound("blocks", L)
    ctx.bound("traceback lengths", list(taus))
    ctx.bound("streams", "codewords of irregular messages with errors in none, 1/12, 1/5, 1/3 of the positions and irregular words, hard and soft (three scales, values that differ in the last bits only, strong stretches followed by weak ones)")
    cc = spec.make()
    tr = trellis.of_code(cc)
    k, n = spec.k, spec.n
    Y = (np.arange(2**n)[:, None] >> np.arange(n)) & 1
    for state in states:
        if state >= tr.S:
            continue
        for i, (every, soft, scale) in enumerate([(0, False, 1), (12, False, 1), (5, True, 1.0), (3, False, 1), (5, True, 1e4), (12, True, 1e-3), (1, False, 1), (1, True, 1.0), (4, True, "fine"), (6, True, "mixed")]):
            xs = [int(v @ (1 << np.arange(k))) for v in trellis.pattern(L * k, i + state).reshape(L, k)]
            v = np.array([y >> b & 1 for y in tr.run(state, xs)[1] for b in range(n)])
            r = trellis.noisy(v, every, i)
            r = getattr(trellis, scale)(r, i) if isinstance(scale, str) else trellis.soft(r, i, scale) if soft else r
            costs = [Y @ r[t * n : (t + 1) * n] if soft else (Y != r[t * n : (t + 1) * n]).sum(axis=1) for t in range(L)]
            for tau in taus:
                key = f"long/{spec.name}/tau={tau}/state={state}/{i}"
                ctx.at(key)
                with ctx.guard(key):
                    good = tr.windows(np.where(np.arange(tr.S) == state, 0.0, np.inf), costs, tau, trellis.EXACT if isinstance(scale, str) else 1e-9 * np.abs(r).sum())
                    whole = None
                    for cut in (L, 1, 10, 64):
                        dec = komm.ViterbiStreamDecoder(cc, tau, state, "soft" if soft else "hard")
                        out = []
                        for a in range(0, L, cut):
                            out += np.array(dec.decode(np.array(r[a * n : (a + cut) * n]))).tolist()
                        ctx.step()
                        if not ctx.ok(len(out) == L * k, key, f"{L} blocks in, {len(out)} bits out"):
                            continue
                        if whole is None:
                            whole = out
                        ctx.ok(out == whole, key, f"calls of {cut} blocks change the output")
                    if whole is None:
                        continue
                    ctx.ok(not any(whole[: tau * k]), key, "filling before the delay has elapsed")
                    for t in range(tau, L):
                        x = int(np.array(whole[t * k : (t + 1) * k]) @ (1 << np.arange(k)))
                        if not ctx.ok(x in good[t], key, f"block {x} at time {t} is on no best path {sorted(good[t])}"):
                            break
                    ctx.state()
                    ctx.trace()
                    ctx.outcome((key, sum(whole)))
    ctx.sample(spec.name)


def t_endless(ctx, spec, L, tau):
    """Very long streams with isolated single errors, which every window of that length corrects."""
    ctx.bound("endless", f"{L} blocks, traceback {tau}, one wrong bit every 4 tau blocks, hard and soft, calls of 1000 blocks and of all")
    cc = spec.make()
    tr = trellis.of_code(cc)
    k, n = spec.k, spec.n
    u = trellis.pattern(L * k, 5)
    v = np.array([y >> b & 1 for y in tr.run(0, [int(x @ (1 << np.arange(k))) for x in u.reshape(L, k)])[1] for b in range(n)])
    r = v.copy()
    at = np.arange(3, L * n, 4 * tau * n + 1)
    r[at] ^= 1
    for name, w, soft in (("hard", r, False), ("soft", (1 - 2.0 * r) * np.where(r != v, 0.75, 1.0 + (np.arange(L * n) % 7) / 8), True), ("strong", (1 - 2.0 * r) * 1e6, True)):
        whole = {}
        for cut in (L, 1000):
            key = f"endless/{spec.name}/{name}/{cut}"
            ctx.at(key)
            ctx.state()
            with ctx.guard(key):
                dec = komm.ViterbiStreamDecoder(cc, tau, 0, "soft" if soft else "hard")
                out = np.concatenate([np.array(dec.decode(w[a * n : (a + cut) * n])) for a in range(0, L, cut)])
                ctx.eq(out[tau * k :], u[: (L - tau) * k], key, "message, delayed")
                ctx.trace(L)
                ctx.step(L)
                ctx.outcome(key)


def tasks(tier):
    Th = tier == "thorough"
    specs = conv.small_specs(False)
    one = [s for s in specs if s.k == 1][:: 1 if Th else 5]
    two = [s for s in specs if s.k == 2][:: 4 if Th else 24]
    out = []
    for i in range(16):
        out.append((f"k1/{i}", t_stream, dict(specs=one[i::16], T=4, taus=(1, 2, 3), budget=256 if Th else 64, soft_alphabet=(-1.0, 0.5, 2.0))))
        out.append((f"k2/{i}", t_stream, dict(specs=two[i::16], T=3, taus=(1, 2), budget=128 if Th else 48, soft_alphabet=(-1.0, 0.5))))
    out.append(("long/self-test", trellis.self_test, {}))
    for s in trellis.long_specs(conv):
        big = s.name.startswith(("LowRateConvolutionalCode([79", "HighRateConvolutionalCode([10"))
        out.append((f"long/{s.name}", t_long, dict(spec=s, L=(60 if big else 150) if not Th else (150 if big else 700), taus=(5, 32) if not Th else (1, 7, 15, 16, 31, 32, 33, 64, 100), states=(0, 1) if not Th or big else (0, 1, 2, 3, 5, 7))))
    n1 = [conv.ff([7, 5]), conv.fb([[7, 5]], [7]), conv.low(1, 3), conv.ff([3, 2]), conv.high(2, 3)]
    for s in n1:
        out.append((f"full/{s.name}", t_stream, dict(specs=[s], T=5 if Th else 4, taus=(1, 2, 3, 4) if Th else (1, 2, 3), budget=1024 if Th else 256, soft_alphabet=(-1.0, 0.5, 2.0))))
    for s in [conv.ff([7, 5]), conv.ff([0o15, 0o17]), conv.fb([[7, 5]], [7]), conv.ff([3, 2, 3], [2, 1, 1]), conv.ff([1, 0, 0], [0, 7, 5]), conv.high(2, 1, 3), conv.ff([1, 1])]:
        out.append((f"noiseless/{s.name}", t_noiseless, dict(spec=s, h=6 // s.k if not Th else 8 // s.k, factor=5)))
    for s in (conv.ff([7, 5]), conv.fb([[7, 5]], [7])):
        out.append((f"endless/{s.name}", t_endless, dict(spec=s, L=200000 if Th else 20000, tau=20)))
    return out
