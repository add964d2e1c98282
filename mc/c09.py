"""C09: terminated convolutional codes are the code of their encoder's paths: from state zero (direct truncation),
from zero to zero (zero termination), or closing on themselves (tail-biting)."""

import itertools

import numpy as np

import komm

from . import conv, ref, trellis
from .core import short

ASSUMPTIONS = ["tail-biting with a feedback encoder whose state matrix admits no unique closing state must be refused"]
MODES = ("direct-truncation", "zero-termination", "tail-biting")


class Graph:
    def __init__(self, cc):
        A, B, C, D = (np.array(x) for x in cc.state_space_representation())
        self.s, self.k, self.n = A.shape[0], B.shape[0], D.shape[1]
        xs = [np.array(ref.to_bits(x, self.k), dtype=int) for x in range(2**self.k)]
        self.step = []
        for i in range(2**self.s):
            v = np.array(ref.to_bits(i, self.s), dtype=int)
            self.step.append([(ref.to_int((v @ A + x @ B) % 2), tuple(((v @ C + x @ D) % 2).tolist())) for x in xs])
        # backward: states from which zero is reachable in exactly j steps
        self.back = [{0}]

    def run(self, s, xs):
        out = ()
        for x in xs:
            s, v = self.step[s][x]
            out += v
        return s, out

    def can(self, j):
        while len(self.back) <= j:
            prev = self.back[-1]
            self.back.append({s for s in range(len(self.step)) if any(t in prev for t, _ in self.step[s])})
        return self.back[j]

    def zero_tails(self, s, mu):
        """Outputs of all ways of reaching state zero from s in mu steps."""
        cur = {(s, ())}
        for j in range(mu):
            ok = self.can(mu - 1 - j)
            cur = {(t, o + v) for s0, o in cur for t, v in self.step[s0] if t in ok}
        return {o for t, o in cur if t == 0}


def one(ctx, spec, h, mode):
    key = f"{spec.name}/h={h}/{mode}"
    ctx.at(key)
    with ctx.guard(key):
        cc = spec.make()
        if cc.degree > 7:
            return
        g = Graph(cc)
        k, n, mu = spec.k, spec.n, int(cc.memory_order)
        msgs = conv.message_words(h, k)
        if mode == "tail-biting":
            ids = range(2**g.s)
            closing = {}
            for i, u in enumerate(msgs):
                xs = [ref.to_int(b) for b in u]
                closing[i] = [s for s in ids if g.run(s, xs)[0] == s]
            if any(len(c) != 1 for c in closing.values()):  # not a tail-biting code
                ctx.raises(ValueError, lambda: komm.TerminatedConvolutionalCode(cc, h, mode).encode(msgs[-1].ravel()), key, "no unique closing state, yet encoded")
                ctx.state()
                ctx.step()
                ctx.trace()
                return
        code = komm.TerminatedConvolutionalCode(cc, h, mode)
        N = (h + mu if mode == "zero-termination" else h) * n
        ctx.eq((code.length, code.dimension, code.redundancy), (N, h * k, N - h * k), key, "parameters")
        ctx.ok(abs(code.rate - h * k / N) < 1e-12, key, "rate")
        words = []
        for i, u in enumerate(msgs):
            xs = [ref.to_int(b) for b in u]
            before = u.ravel().copy()
            got = np.array(code.encode(u.ravel()))
            ctx.step()
            ctx.state()
            ctx.trace()
            ctx.ok(np.array_equal(before, u.ravel()), key, "the message array was modified")
            if got.shape != (N,):
                ctx.fail(key, f"encode({before.tolist()}) has shape {got.shape}, expected ({N},)")
                return
            t = tuple(got.tolist())
            if mode == "tail-biting":
                want = g.run(closing[i][0], xs)[1]
                ctx.ok(t == want, key, f"encode({before.tolist()}) = {short(t)}, closing path gives {short(want)}", got)
            else:
                series = tuple(spec.encode(u).ravel().tolist())
                ctx.ok(t[: h * n] == series, key, f"encode({before.tolist()}) starts {short(t[: h * n])}, expected {short(series)}", got)
                if mode == "zero-termination":
                    s, _ = g.run(0, xs)
                    tails = g.zero_tails(s, mu)
                    ctx.ok(t[h * n :] in tails, key, f"encode({before.tolist()}): tail {short(t[h * n:])} does not drive the encoder to state zero (possible tails {short(sorted(tails)[:4])})", got)
                else:
                    ctx.ok(len(t) == h * n, key, "length")
            words.append(t)
        W = np.array(words)
        K = h * k
        # linear over all messages, and the generator matrix is its matrix
        G = np.array(code.generator_matrix)
        U = msgs.reshape(-1, K)
        ctx.eq((U @ G) % 2, W, key, "encoding is not the linear map of the generator matrix")
        ctx.eq(code.encode(U), W, key, "encoding all messages as rows")
        if len(U) > 1:
            ctx.eq(code.encode(U.ravel()), W.ravel(), key, "encoding all messages in one row")
        ctx.step(3)
        if ref.rank(G) == K:
            H = np.array(code.check_matrix)
            ctx.ok(H.shape == (N - K, N) and not (G @ H.T % 2).any() and ref.rank(H) == N - K, key, f"check matrix {short(H)}")
            ctx.eq(code.inverse_encode(W), U, key, "inverse encoding")
            ctx.eq({tuple(w) for w in np.array(code.codewords()).tolist()}, set(words), key, "codeword list")
            d = min(sum(w) for w in words[1:]) if K else 0
            ctx.eq(int(code.minimum_distance()), d, key, "minimum distance")
            ctx.step(3)
            ctx.outcome((spec.name, h, mode, d))


def t_specs(ctx, specs, hs):
    ctx.bound("h", list(hs))
    ctx.bound("encoders", len(specs))
    for spec in specs:
        for h in hs:
            for mode in MODES:
                if h * spec.k <= 10:
                    one(ctx, spec, h, mode)
    ctx.sample(specs[0].name)


def t_long(ctx, spec, hs):
    """Frames of hundreds of blocks: power series from state zero, a tail that reaches state zero, the closing state."""
    ctx.bound("h", list(hs))
    ctx.bound("messages", "first, last and middle unit messages, irregular messages, the all-one message")
    cc = spec.make()
    tr = trellis.of_code(cc)
    k, n, mu = spec.k, spec.n, int(cc.memory_order)
    for h in hs:
        K = h * k
        U = [trellis.pattern(K, i) for i in range(3)] + [np.ones(K, dtype=int), np.zeros(K, dtype=int)]
        for j in {0, 1, K // 2, K - 1}:
            U.append(np.eye(1, K, j, dtype=int)[0])
        U = np.array(U)
        for mode in MODES:
            key = f"long/{spec.name}/h={h}/{mode}"
            ctx.at(key)
            with ctx.guard(key):
                code = komm.TerminatedConvolutionalCode(cc, h, mode)
                N = (h + mu if mode == "zero-termination" else h) * n
                if mode == "tail-biting":  # the map start -> end state of the zero message decides whether a closing state is unique
                    ends = [tr.run(s, [0] * h)[0] for s in range(tr.S)]
                    if sum(e == s for s, e in enumerate(ends)) != 1:
                        ctx.raises(ValueError, lambda: code.encode(U[0]), key, "no unique closing state, yet encoded")
                        ctx.step()
                        ctx.state()
                        ctx.trace()
                        continue
                ctx.eq((code.length, code.dimension), (N, K), key, "parameters")
                W = np.array(code.encode(U))
                if not ctx.eq(W.shape, (len(U), N), key, "shape"):
                    continue
                ctx.eq(np.array(code.encode(U[0].copy())), W[0], key, "one message alone and as first row")
                for u, w in zip(U, W):
                    ctx.step()
                    ctx.state()
                    ctx.trace()
                    if mode == "tail-biting":
                        xs = [int(v @ (1 << np.arange(k))) for v in u.reshape(h, k)]
                        close = [s for s in range(tr.S) if tr.run(s, xs)[0] == s]
                        ctx.eq(len(close), 1, key, "closing states")
                        y = tr.run(close[0], xs)[1]
                        want = np.array([v >> b & 1 for v in y for b in range(n)])
                        ctx.eq(w, want, key, f"encode({short(u, 60)}) is not the closing path")
                    else:
                        ctx.eq(w[: h * n], spec.encode(u.reshape(h, k)).ravel(), key, f"encode({short(u, 60)})")
                        if mode == "zero-termination":
                            s = tr.run(0, [int(v @ (1 << np.arange(k))) for v in u.reshape(h, k)])[0]
                            alive = {s}
                            for t in range(h, h + mu):
                                y = int(w[t * n : (t + 1) * n] @ (1 << np.arange(n)))
                                alive = {int(tr.T[a, x]) for a in alive for x in range(tr.X) if tr.O[a, x] == y}
                            ctx.ok(0 in alive, key, f"encode({short(u, 60)}): the tail does not drive the encoder to state zero")
                if K <= 300:
                    ctx.eq(U @ np.array(code.generator_matrix) % 2, W, key, "generator matrix")
                ctx.eq(np.array(code.inverse_encode(W)), U, key, "inverse encoding") if mode != "tail-biting" and K <= 130 else None
                ctx.outcome((key, int(W.sum())))
    ctx.sample(spec.name)


def t_orders(ctx, degrees, part, parts, beyond):
    """Every feedback polynomial: numbers of blocks through all residues of the order of the state matrix, and beyond 2^degree."""
    polys = [f for d in degrees for f in range(2**d + 1, 2 ** (d + 1), 2)][part::parts]
    ctx.bound("feedback polynomials", f"all of degree {degrees} with constant term; 1 to 2^degree + {beyond} blocks")
    for f in polys:
        d = ref.pdeg(f)
        spec = conv.fb([[f ^ 2 if d > 1 else 1, 2**d | 1 | (4 if d > 2 else 0)]], [f])
        cc = spec.make()
        tr = trellis.of_code(cc)
        n, mu = spec.n, int(cc.memory_order)
        for h in range(1, 2**d + beyond + 1):
            U = np.array([np.eye(1, h, 0, dtype=int)[0], trellis.pattern(h, f, h), np.eye(1, h, h - 1, dtype=int)[0]])
            for mode in ("tail-biting", "zero-termination"):
                key = f"orders/f={bin(f)}/h={h}/{mode}"
                ctx.at(key)
                with ctx.guard(key):
                    code = komm.TerminatedConvolutionalCode(cc, h, mode)
                    ctx.step()
                    ctx.state()
                    ctx.trace()
                    every = np.arange(tr.S)
                    if mode == "tail-biting":
                        ends = every
                        for _ in range(h):
                            ends = tr.T[ends, 0]
                        if (ends == every).sum() != 1:
                            ctx.raises(ValueError, lambda: code.encode(U[0]), key, "no unique closing state, yet encoded")
                            ctx.outcome((f, h % 7, False))
                            continue
                    W = np.array(code.encode(U))
                    if not ctx.eq(W.shape, (3, (h + mu if mode == "zero-termination" else h) * n), key, "shape"):
                        continue
                    for u, w in zip(U, W):
                        y = w.reshape(-1, n) @ (1 << np.arange(n))
                        if mode == "tail-biting":
                            cur, good = every, np.ones(tr.S, dtype=bool)
                            for t in range(h):
                                good &= tr.O[cur, u[t]] == y[t]
                                cur = tr.T[cur, u[t]]
                            ctx.ok((good & (cur == every)).sum() == 1, key, f"encode({short(u, 60)}) is not the closing path")
                        else:
                            s = 0
                            for t in range(h):
                                ctx.ok(tr.O[s, u[t]] == y[t], key, f"encode({short(u, 60)}) leaves the path at time {t}")
                                s = int(tr.T[s, u[t]])
                            alive = {s}
                            for t in range(h, h + mu):
                                alive = {int(tr.T[a, x]) for a in alive for x in range(tr.X) if tr.O[a, x] == y[t]}
                            ctx.ok(0 in alive, key, f"encode({short(u, 60)}): the tail does not drive the encoder to state zero")
                    ctx.outcome((f, h % 7, int(W.sum())))
    ctx.sample({"f": bin(f)})


def solve(M, y):
    """The s with s M = y over GF(2) for square M, or None if M is singular."""
    n = len(M)
    A = np.hstack([M.T, y[:, None]]) % 2
    for c in range(n):
        p = c + np.flatnonzero(A[c:, c])
        if not len(p):
            return None
        A[[c, p[0]]] = A[[p[0], c]]
        rows = np.flatnonzero(A[:, c])
        rows = rows[rows != c]
        A[rows] ^= A[c]
    return A[:, n]


def t_wide(ctx, degrees, hs):
    """Encoders with tens of delay elements and dense feedback: the closing state comes from exact algebra over GF(2)."""
    ctx.bound("encoders", f"rate 1/2 and 2/3 with dense and sparse feedback, {degrees} delay elements an input; {hs} blocks and around the number of delay elements")
    for d in degrees:
        lcg, fs = d, []
        for i in range(3):
            lcg = (6364136223846793005 * lcg + 1442695040888963407) % 2**64
            fs.append((lcg >> 1 | 1) % 2**d | 1 | 1 << d)
        fs += [1 << d | 1, (2 << d) - 1]
        specs = [conv.fb([[f ^ 2, f >> 1 | 1]], [f]) for f in fs]
        if d <= 31:
            specs.append(conv.fb([[fs[0] ^ 2, 4, 1], [2, fs[1] ^ 4, fs[2]]], [fs[0], fs[1]]))
        for spec in specs:
            cc = spec.make()
            A, B, C, D = (np.array(m, dtype=int) for m in cc.state_space_representation())
            s0, k, n, mu = len(A), spec.k, spec.n, int(cc.memory_order)
            power = {0: np.eye(s0, dtype=int)}
            for h in range(1, max(hs) + s0 + 2):
                power[h] = power[h - 1] @ A % 2
            for h in sorted({*hs, s0 - 1, s0, s0 + 1}):
                U = [trellis.pattern(h * k, d, h), np.eye(1, h * k, 0, dtype=int)[0], np.eye(1, h * k, h * k - 1, dtype=int)[0]]
                for mode in ("tail-biting", "zero-termination", "direct-truncation"):
                    key = f"wide/{spec.name}/h={h}/{mode}"
                    ctx.at(key)
                    with ctx.guard(key):
                        code = komm.TerminatedConvolutionalCode(cc, h, mode)
                        ctx.eq((int(code.length), int(code.dimension)), (n * (h + (mu if mode == "zero-termination" else 0)), h * k), key, "length and dimension")

                        def run(s, u):
                            out = []
                            for x in u.reshape(-1, k):
                                out.append((s @ C + x @ D) % 2)
                                s = (s @ A + x @ B) % 2
                            return np.ravel(out), s

                        for u in U:
                            ctx.step()
                            if mode == "tail-biting":
                                s = solve((power[h] + np.eye(s0, dtype=int)) % 2, run(np.zeros(s0, dtype=int), u)[1])
                                if s is None:
                                    ctx.raises(ValueError, lambda: code.encode(u), key, "no unique closing state, yet encoded")
                                    ctx.outcome((spec.name, h, False))
                                    break
                                want, e = run(s, u)
                                assert np.array_equal(s, e)
                                ctx.eq(code.encode(u), want, key, f"encode({short(u, 60)}) is not the closing path")
                            else:
                                v = np.array(code.encode(u))
                                want, s = run(np.zeros(s0, dtype=int), u)
                                ctx.eq(v[: h * n], want, key, f"encode({short(u, 60)}) leaves the path")
                                if mode == "zero-termination":
                                    # some inputs of the tail give these outputs and lead to state zero (outputs determine the inputs of each block here)
                                    for t in range(h, h + mu):
                                        y = (v[t * n : (t + 1) * n] - s @ C) % 2
                                        xs = [np.array(x) for x in np.ndindex(*(2,) * k) if np.array_equal(np.array(x) @ D % 2, y)]
                                        if not ctx.ok(len(xs) == 1, key, f"tail of encode({short(u, 60)}) leaves the trellis at {t}"):
                                            break
                                        s = (s @ A + xs[0] @ B) % 2
                                    else:
                                        ctx.ok(not s.any(), key, f"the tail of encode({short(u, 60)}) does not end in state zero")
                            ctx.outcome((spec.name, h, mode))
                            ctx.state()
                        ctx.trace()
    ctx.sample(key)


def t_reject(ctx):
    ctx.raises(ValueError, lambda: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3, "no-such-mode"), "reject/mode", "unknown mode accepted")
    ctx.state()
    ctx.step()
    ctx.trace()


def tasks(tier):
    T = tier == "thorough"
    specs = conv.small_specs(T)
    if T:
        one_, two = [s for s in specs if s.k == 1], [s for s in specs if s.k == 2][::3]
        specs = one_ + two
    out = [("reject", t_reject, {})]
    m = 40
    tall = conv.tall_specs()
    for i in range(10):
        out.append((f"tall/{i}", t_specs, dict(specs=tall[i::10] if T else tall[i::30], hs=(1, 2, 3, 6) if T else (1, 3))))
    for i in range(m):
        out.append((f"small/{i}", t_specs, dict(specs=specs[i::m], hs=(1, 2, 3, 4, 5) if T else (1, 2, 3))))
    for s in trellis.long_specs(conv):
        out.append((f"long/{s.name}", t_long, dict(spec=s, hs=(20, 33, 64, 65, 128, 130) if not T else (9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300))))
    for i in range(4):
        out.append((f"orders/{i}", t_orders, dict(degrees=(1, 2, 3, 4, 5) if not T else (1, 2, 3, 4, 5, 6), part=i, parts=4, beyond=4 if not T else 40)))
    for d in (13, 20, 31, 45, 58, 62):
        out.append((f"wide/{d}", t_wide, dict(degrees=(d,), hs=(1, 2, 7, 100, 101) if not T else (1, 2, 3, 5, 7, 50, 63, 64, 65, 100, 101, 127, 150))))
    for s in conv.named_specs() + [conv.high(1, 1), conv.high(1, 1, 1)]:
        out.append((f"named/{s.name}", t_specs, dict(specs=[s], hs=range(1, 9) if T else range(1, 7))))
    return out
