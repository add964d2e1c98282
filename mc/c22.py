"""C22: channels act on every symbol independently by exactly their transition law, and only on it: decided by running
the real transmit() on every random tape of a given resolution."""

import itertools
import math

import numpy as np

import komm
from komm import global_rng

from . import tape
from .c13 import compositions
from .core import short

ASSUMPTIONS = [
    "discrete channels draw one uniform variate of 53 bits per symbol (if an implementation consumes more, the exact "
    "count is replaced by a check of the support)",
    "tapes are the K^T combinations of K equally spaced uniforms; for the Gaussian channel, the stratified ziggurat words",
]

T_ = tape.Tape()


def law(ctx, key, T, K, run, want, trivial=False):
    """want: {outcome: number of tapes out of K^T}."""
    count = {}
    exact = True
    mids = [(k + 0.5) / K for k in range(K)]
    for us in itertools.product(mids, repeat=T):
        rng = T_.doubles(us)
        out = run(rng)
        used = T_.consumed
        if used < T and not trivial and T > 0:
            ctx.fail(key, f"{used} random words drawn for {T} symbols", used)
            return
        exact &= used == 2 * T or trivial
        count[out] = count.get(out, 0) + 1
        ctx.trace()
    if not exact:
        ctx.bound("fallback " + key, "support only")
        ctx.ok(set(count) <= set(want), key, f"impossible outcomes {short(sorted(set(count) - set(want)))}")
        return
    ctx.ok(count == want, key, f"law: {short(sorted(count.items()))} instead of {short(sorted(want.items()))}", sorted(count.items()))
    ctx.outcome(sorted(count.items()))


def product_law(rows, K, T=None):
    """rows: one list of integer weights (out of K) per symbol."""
    want = {}
    for ys in itertools.product(*(range(len(r)) for r in rows)):
        w = math.prod(r[y] for r, y in zip(rows, ys))
        if w:
            want[ys] = w
    return want


BINARY = {
    "BSC": (komm.BinarySymmetricChannel, lambda w, K: [[K - w, w], [w, K - w]]),
    "BEC": (komm.BinaryErasureChannel, lambda w, K: [[K - w, 0, w], [0, K - w, w]]),
    "Z": (komm.ZChannel, lambda w, K: [[K, 0], [w, K - w]]),
}
SHAPES = {1: [(1,)], 2: [(2,), (2, 1), (1, 2)], 3: [(3,), (1, 3), (3, 1)], 4: [(4,), (2, 2)]}


def tup(y):
    return tuple(int(v) for v in np.ravel(y))


def channels(tier, kind):
    """(name, factory(rng), integer rows, K)"""
    th = tier == "thorough"
    out = []
    if kind in BINARY:
        cls, rows = BINARY[kind]
        for K in (8, 5) if th else (6,):
            for w in range(K + 1):
                out.append((f"{kind}({w}/{K})", lambda rng, w=w, K=K, cls=cls: cls(w / K, rng=rng) if rng is not None else cls(w / K), rows(w, K), K))
    else:
        nin, nout, K = kind
        rws = list(compositions(K, nout, 0))
        for m in itertools.product(rws, repeat=nin):
            M = np.array(m) / K
            out.append((f"DMC({[list(r) for r in m]}/{K})", lambda rng, M=M: komm.DiscreteMemorylessChannel(M, rng=rng), [list(r) for r in m], K))
    return out


def t_law(ctx, tier, kind, T):
    chans = channels(tier, kind)
    ctx.bound("channels", f"{kind}: {len(chans)} parameter sets, resolution 1/{chans[0][3]}; all inputs of up to {T} symbols, all shapes, all tapes")
    for name, make, rows, K in chans:
        for t in range(1, T + 1):
            for x in itertools.product(range(len(rows)), repeat=t):
                want = product_law([rows[s] for s in x], K)
                for shape in SHAPES[t]:
                    key = f"{name}/{x}/{shape}"
                    ctx.at(key)
                    ctx.state()
                    X = np.array(x).reshape(shape)
                    orig = X.copy()

                    def run(rng):
                        Y = make(rng).transmit(X)
                        ctx.step()
                        if Y.shape != shape or not np.issubdtype(np.asarray(Y).dtype, np.integer):
                            ctx.fail(key, f"shape {Y.shape}, dtype {Y.dtype}", Y)
                        if np.shares_memory(Y, X):
                            ctx.fail(key, "output shares memory with the input")
                        return tup(Y)

                    with ctx.guard(key):
                        law(ctx, key, t, K, run, want, trivial=len(want) == 1)
                        ctx.ok(np.array_equal(X, orig), key, "input changed")
                if t == 2:
                    key = f"{name}/{x}/two calls"

                    def run2(rng):
                        c = make(rng)
                        a = tup(c.transmit([x[0]]))
                        return a + tup(c.transmit([x[1]]))

                    with ctx.guard(key):
                        law(ctx, key, 2, K, run2, want, trivial=len(want) == 1)


def t_long(ctx, tier, kind):
    """Arrays of thousands of symbols: every uniform of the grid at every position, and periodic tapes with exact counts."""
    ns = (300, 1025, 4099) + ((70001,) if tier == "thorough" else (20011,)) + ((140001,) if kind in BINARY else ())
    chans = channels(tier, kind)
    chans = chans[1 : -1 if len(chans) > 2 else None][:: max(1, len(chans) // 6)]
    ctx.bound("long", f"{kind}: {len(chans)} parameter sets, arrays of {ns} symbols in one, two and three dimensions")
    for name, make, rows, K in chans:
        q = len(rows)
        key0 = f"long/{name}"
        with ctx.guard(key0):
            table = np.array([[int(np.ravel(make(T_.doubles([(k + 0.5) / K])).transmit([x]))[0]) for k in range(K)] for x in range(q)])
        for n in ns:
            for shape in ((n,), (n // 7, 7), (n // 6, 2, 3), (1, n), (n, 1)):
                if n > 5000 and len(shape) > 1 and (n > 10**5 or shape != (n // 7, 7)):
                    continue
                key = f"{key0}/{shape}"
                ctx.at(key)
                N = math.prod(shape)
                with ctx.guard(key):
                    x = (np.arange(N) * 5 // 3 + np.arange(N) // 11) % q
                    X = x.reshape(shape)
                    for k in range(K):
                        s = tape.Stream(doubles=lambda i: (k + 0.5) / K)
                        Y = np.array(make(s.rng).transmit(X))
                        ctx.step()
                        if not ctx.ok(Y.shape == shape, key, f"shape {Y.shape}"):
                            return
                        if s.wild:
                            ctx.bound("fallback " + key0, "support only")
                            ctx.ok(all(rows[a][b] for a, b in set(zip(x.tolist(), Y.ravel().tolist()))), key, "impossible output")
                            continue
                        ctx.ok(np.array_equal(Y.ravel(), table[x, k]), key, f"symbols given the uniform {(k + 0.5) / K} are not sent through the law of a single symbol")
                    for a in range(q):
                        s = tape.Stream(doubles=lambda i: (i * 3 % K + 0.5) / K if K % 3 else (i % K + 0.5) / K)
                        X1 = np.full(shape, a)
                        Y = np.array(make(s.rng).transmit(X1)).ravel()
                        ctx.step()
                        random = sum(map(bool, rows[a])) > 1
                        if random and s.count < N:
                            ctx.fail(key, f"{s.count} uniforms drawn for {N} symbols")
                        if s.wild or s.count != N:
                            continue
                        c = np.bincount(Y, minlength=len(rows[a]))
                        want = np.bincount(table[a, [(i * 3 % K) if K % 3 else i % K for i in range(N)]], minlength=len(rows[a]))
                        ctx.eq(c, want, key, f"counts of the outputs of {N} symbols {a}")
                        ctx.eq(X1, np.full(shape, a), key, "input changed")
                        ctx.outcome((key, a, c.tolist()))
                    ctx.state()
                    ctx.trace()


def t_long_gaussian(ctx, tier):
    """Thousands of real and complex symbols: the noise components are exactly the scaled normals of the tape, once each."""
    few, std = [], []
    for w in (zig(i, s, l, 2) for i in range(5, 256, 16) for s in (0, 1) for l in range(2)):
        z = T_.u64s([w]).standard_normal()
        if T_.consumed == 2:
            few.append(w)
            std.append(z)
    std = np.array(std)
    m = len(few)
    ns = (300, 1025, 4099) + ((300007,) if tier == "thorough" else (140001,))
    ctx.bound("long", f"{ns} real and complex symbols, three noise powers, one to three dimensions")
    for p in (0.25, 1.0, 2.0):
        for n in ns:
            for shape in ((n,), (n // 7, 7), (n // 6, 2, 3), (n, 1)) if n < 5000 else ((n,), (n // 2, 2)):
                N = math.prod(shape)
                x = ((np.arange(N) * 7 % 23) - 11.0).reshape(shape)
                for cplx in (False, True):
                    key = f"long-gaussian/{p}/{shape}/{'complex' if cplx else 'real'}"
                    ctx.at(key)
                    X = x + 1j * x[::-1] if cplx else x
                    with ctx.guard(key):
                        s = tape.Stream(words=lambda i: few[(i * 3 + i // m) % m])
                        Y = np.array(komm.GaussianChannel(p, rng=s.rng).transmit(X.copy()))
                        ctx.step()
                        ctx.ok(Y.shape == shape and np.iscomplexobj(Y) == cplx, key, "shape or type")
                        noise = np.ravel(Y - X)
                        parts = np.concatenate([noise.real, noise.imag]) if cplx else noise
                        ctx.ok(s.count >= len(parts), key, f"{s.count} random words drawn for {len(parts)} noise components")
                        if s.wild or s.count != len(parts):
                            ctx.bound("fallback " + key, "count only")
                            continue
                        want = std[[(i * 3 + i // m) % m for i in range(len(parts))]] * math.sqrt(p / 2 if cplx else p)
                        ctx.ok(np.allclose(np.sort(parts), np.sort(want), atol=1e-9), key, "the noise components are not the scaled normals of the tape")
                        # one word constant: every component of every symbol is the same
                        s = tape.Stream(words=lambda i: few[3])
                        Y = np.array(komm.GaussianChannel(p, rng=s.rng).transmit(X))
                        v = std[3] * math.sqrt(p / 2 if cplx else p) * (1 + 1j if cplx else 1)
                        ctx.close(Y, X + v, key, "constant tape", 1e-9)
                        ctx.state()
                        ctx.trace()
                        ctx.outcome(key)


EDGE = [0.0, 2**-53, 1 - 2**-53]


def t_edges(ctx, tier):
    """Impossible outputs do not occur on the extreme tapes; containers and dtypes of the bits make no difference."""
    ctx.bound("edges", f"every channel of both resolutions, tapes of {EDGE}; bits as lists, tuples, bool, uint8, int8, float, non-contiguous and read-only arrays")
    for kind in list(BINARY) + [(2, 2, 4), (2, 3, 3), (3, 2, 3)]:
        for name, make, rows, K in channels(tier, kind):
            q = len(rows)
            for x in range(q):
                poss = {y for y in range(len(rows[x])) if rows[x][y]}
                for u in EDGE:
                    key = f"edge/{name}/{x}/{u}"
                    with ctx.guard(key):
                        y = tup(make(T_.doubles([u])).transmit([x]))
                        ctx.ok(set(y) <= poss, key, f"output {y} has probability zero")
                        ctx.trace()
            ctx.state()
            seq = [i % q for i in range(7)]
            us = [(3 * i % 7 + 0.5) / 7 for i in range(7)]
            key = f"container/{name}"
            with ctx.guard(key):
                ref_ = tup(make(T_.doubles(us)).transmit(np.array(seq)))
                forms = [seq, tuple(seq), np.array(seq, dtype=np.uint8), np.array(seq, dtype=np.int8), np.array(seq, dtype=np.int32), np.repeat(seq, 2)[::2]]
                forms += [np.array(seq, dtype=float)]
                if q == 2:
                    forms.append(np.array(seq, dtype=bool))
                ro = np.array(seq)
                ro.setflags(write=False)
                forms.append(ro)
                for f in forms:
                    what = f"{type(f).__name__} {getattr(f, 'dtype', '')}"
                    got = make(T_.doubles(us)).transmit(f)
                    ctx.ok(tup(got) == ref_, key, f"{what}: {short(got)} instead of {ref_}", got)
                    ctx.step()
                got = make(T_.doubles(us)).transmit(np.zeros((0,), dtype=int))
                ctx.eq(np.shape(got), (0,), key, "empty input")


RARE = [2.0**-j for j in (7, 15, 16, 20, 24, 25, 30, 32, 40, 50)] + [1e-3, 1e-5, 1e-6, 1e-8, 1e-9, 1e-12, 1e-15]


def rare_law(ctx, key, row, run):
    """run(k): outcome for the uniform variate k 2^-53; row: the probabilities of the outcomes."""
    used = set()

    def go(k):
        ctx.step()
        y = run(T_.doubles([k * 2.0**-53] * 8))
        used.add(T_.consumed)
        return y

    ctx.state()
    ctx.trace()
    ctx.at(key)
    with ctx.guard(key):
        got = tape.exact_law(go)
        if len(used) > 1:
            ctx.bound("fallback " + key, "support only")
            ctx.ok(all(got.get(y, 0) > 0 for y, p in enumerate(row) if p > 2.0**-52), key, f"possible outcomes never occur: {got}")
            return
        for y, p in enumerate(row):
            c = got.pop(y, 0)
            ctx.ok(abs(c - p * 2**53) <= 8 and (p > 0 or c == 0), key, f"outcome {y} has probability {c * 2.0**-53} instead of {p}", c)
        ctx.ok(not got, key, f"impossible outcomes {got}")


def t_rare(ctx):
    """The law of one symbol to the last bit of the uniform variate, for rare and almost sure transitions."""
    ctx.bound("rare", f"every binary channel with probabilities p and 1 - p, and 2- to 5-ary channels with rare transitions, p in {RARE}; all 2^53 uniforms (by bisection)")
    for kind, (cls, rows) in BINARY.items():
        for e in RARE:
            for p in (e, 1 - e, 0.5 + e):
                for x, row in enumerate(np.array(rows(p, 1), dtype=float)):
                    rare_law(ctx, f"rare/{kind}({p!r})/{x}", row, lambda rng: int(cls(p, rng=rng).transmit([x])[0]))
    for e in RARE:
        mats = [[[1 - e, e], [e, 1 - e]], [[e, 1 - 2 * e, e], [0.5 - e, e, 0.5], [0, 1 - e, e], [1 - e, 0, e]], [[e, 0, 0.5, e, 0.5 - 2 * e], [0, 0, 0, e, 1 - e]], [[0, 0, 1], [0, 1, 0], [0, 0.5 + e, 0.5 - e]]]
        for i, M in enumerate(mats):
            for x, row in enumerate(M):
                rare_law(ctx, f"rare/DMC{i}({e!r})/{x}", row, lambda rng: int(komm.DiscreteMemorylessChannel(M, rng=rng).transmit([x])[0]))


def zig(idx, sign, level, levels):
    rabs = int((level + 0.5) / levels * 2**52)
    return idx | sign << 8 | rabs << 9


def t_gaussian(ctx, tier):
    th = tier == "thorough"
    L = 16 if th else 8
    words = [zig(i, s, l, L) for i in range(256) for s in (0, 1) for l in range(L)]
    ctx.bound("tapes", f"{len(words)} stratified ziggurat words for one real symbol; all pairs of the accepted ones among 64 words for one complex or two real symbols")
    powers = (0.0, 0.25, 1.0, 9.0, 2.0) if th else (0.0, 0.25, 1.0, 2.0)
    std = np.array([T_.u64s([w]).standard_normal() for w in words])
    few, stdf = [], []
    for w in (zig(i, s, l, 2) for i in range(5, 256, 16) for s in (0, 1) for l in range(2)):
        z = T_.u64s([w]).standard_normal()
        if T_.consumed == 2:  # accepted at once
            few.append(w)
            stdf.append(z)
    assert len(few) >= 48
    for p in powers:
        key = f"gaussian/real/{p}"
        ctx.state()
        with ctx.guard(key):
            out, exact = [], True
            for w in words:
                rng = T_.u64s([w])
                y = komm.GaussianChannel(p, rng=rng).transmit(np.array([0.0]))
                if y.shape != (1,) or np.iscomplexobj(y):
                    ctx.fail(key, f"output {short(y)} of a real input")
                out.append(float(y[0]))
                ctx.trace()
            ctx.close(np.sort(out), np.sort(std) * math.sqrt(p), key, "distribution of the noise", tol=1e-9)
            for x in (3.0, -1.5, 2):
                for w in words[:: len(words) // 64]:
                    n = komm.GaussianChannel(p, rng=T_.u64s([w])).transmit([0.0])[0]
                    y = komm.GaussianChannel(p, rng=T_.u64s([w])).transmit([x])
                    ctx.ok(abs(y[0] - (x + n)) < 1e-9, key, f"input {x}: noise {y[0] - x} instead of {n}")
                    ctx.step()
        pairs = list(itertools.product(range(len(few)), repeat=2))
        a = np.array([(stdf[i], stdf[j]) for i, j in pairs])
        for what, x, scale in (("complex", np.array([0.5 - 1j]), math.sqrt(p / 2)), ("pair", np.array([1.0, -2.0]), math.sqrt(p)), ("column", np.array([[1.0], [-2.0]]), math.sqrt(p)), ("split", None, math.sqrt(p))):
            key = f"gaussian/{what}/{p}"
            ctx.state()
            with ctx.guard(key):
                got = []
                for i, j in pairs:
                    rng = T_.u64s([few[i], few[j]])
                    c = komm.GaussianChannel(p, rng=rng)
                    if what == "split":
                        n = np.array([c.transmit([1.0])[0] - 1.0, c.transmit([-2.0])[0] + 2.0])
                    else:
                        y = c.transmit(x)
                        if y.shape != x.shape:
                            ctx.fail(key, f"shape {y.shape}")
                        n = np.ravel(y - x)
                        if what == "complex":
                            n = np.array([n[0].real, n[0].imag])
                    got.append(n)
                    ctx.trace()
                g = np.array(got).round(9) + 0.0
                w_ = (a * scale).round(9) + 0.0
                g = g[np.lexsort(g.T)]
                w_ = w_[np.lexsort(w_.T)]
                ctx.ok(np.allclose(g, w_, atol=1e-8), key, "joint distribution of the noise components", g[:3])
    for bad in (-1.0, -1e-9, float("nan")):
        ctx.raises(ValueError, lambda: komm.GaussianChannel(bad), f"gaussian/reject/{bad}", "noise power")


def t_isolation(ctx, tier):
    """Randomness comes from the object's own generator, which is the global one of the time of construction if none is given; nothing else is touched."""
    ctx.bound("histories", "all orders of construction, replacement of the global generator and use, up to 4 steps, for every object that draws")
    kinds = {
        "BSC": (lambda **k: komm.BinarySymmetricChannel(0.5, **k), lambda o: tup(o.transmit(np.zeros(8, dtype=int)))),
        "BEC": (lambda **k: komm.BinaryErasureChannel(0.5, **k), lambda o: tup(o.transmit(np.zeros(8, dtype=int)))),
        "Z": (lambda **k: komm.ZChannel(0.5, **k), lambda o: tup(o.transmit(np.ones(8, dtype=int)))),
        "DMC": (lambda **k: komm.DiscreteMemorylessChannel([[0.5, 0.5], [0.25, 0.75]], **k), lambda o: tup(o.transmit(np.zeros(8, dtype=int)))),
        "Gaussian": (lambda **k: komm.GaussianChannel(1.0, **k), lambda o: tuple(o.transmit(np.zeros(4)))),
        "DMS": (lambda **k: komm.DiscreteMemorylessSource([0.5, 0.5], **k), lambda o: tup(o.emit(8))),
        "Markov": (lambda **k: komm.MarkovChain([[0.5, 0.5], [0.5, 0.5]], **k), lambda o: tup(o.simulate(0, 8))),
    }
    old = global_rng.get()
    G = lambda i: np.random.Generator(np.random.PCG64(1000 + i))
    try:
        for name, (make, use) in kinds.items():
            # reference: output streams of a fresh object on generator i
            refs = []
            for i in range(3):
                o = make(rng=G(i))
                refs.append([use(o) for _ in range(4)])
            ops = ["set0", "set1", "new", "new+own", "use"]
            for hist in itertools.product(ops, repeat=4):
                key = f"isolation/{name}/{'-'.join(hist)}"
                ctx.at(key)
                with ctx.guard(key):
                    gens = [G(0), G(1)]
                    global_rng.set(gens[0])
                    cur = 0
                    used = {0: 0, 1: 0, "own": 0}
                    o, src = make(), 0
                    legacy = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
                    for op in hist + ("use",):
                        if op.startswith("set"):
                            cur = int(op[3])
                            global_rng.set(gens[cur])
                        elif op == "new":
                            o, src = make(), cur
                        elif op == "new+own":
                            o, src = make(rng=G(2)), "own"
                            used["own"] = 0
                        else:
                            want = refs[2 if src == "own" else src][used[src]] if used[src] < 4 else None
                            got = use(o)
                            used[src] += 1
                            if want is not None:
                                ctx.ok(got == want, key, f"use {used[src]} of generator {src}: {short(got)} instead of {short(want)}")
                        ctx.step()
                    ctx.ok((np.random.get_state()[1].tobytes(), np.random.get_state()[2]) == legacy, key, "numpy's legacy generator was used")
                    for i in (0, 1):
                        if used[i] == 0:
                            ctx.ok(gens[i].bit_generator.state == G(i).bit_generator.state, key, f"generator {i} was touched")
                    ctx.state()
                    ctx.trace()
    finally:
        global_rng.set(old)


def t_tape(ctx):
    """The harness itself: generators read the words they are given."""
    tape.self_test()
    tape.stream_test()
    ctx.state()
    ctx.step()
    ctx.trace()
    ctx.bound("tapes", "finite tape of 312 doubles and endless stream")


def t_reject(ctx):
    ctx.state()
    ctx.trace()
    for cls in (komm.BinarySymmetricChannel, komm.BinaryErasureChannel, komm.ZChannel):
        for bad in (-0.1, 1.1, -1e-12, 1 + 1e-12, float("nan")):
            ctx.raises(ValueError, lambda: cls(bad), f"reject/{cls.__name__}/{bad}", "probability")
    for bad in ([[0.5, 0.4]], [[1.1, -0.1]], [0.5, 0.5], [[0.5, 0.5], [0.5, 0.6]], [[[1.0]]]):
        ctx.raises(ValueError, lambda: komm.DiscreteMemorylessChannel(bad), f"reject/DMC/{bad}", "transition matrix")
    for kind, (cls, rows) in BINARY.items():
        for w in range(5):
            c = cls(w / 4)
            M = np.array(rows(w, 4)) / 4
            ctx.close(c.transition_matrix, M, f"matrix/{kind}/{w}", "transition matrix", tol=1e-15)
            ctx.eq((c.input_cardinality, c.output_cardinality), M.shape, f"matrix/{kind}/{w}", "cardinalities")
            d = komm.DiscreteMemorylessChannel(M)
            ctx.close(d.transition_matrix, M, f"matrix/{kind}/{w}", "transition matrix", tol=1e-15)
            ctx.eq((d.input_cardinality, d.output_cardinality), M.shape, f"matrix/{kind}/{w}", "cardinalities")


def tasks(tier):
    th = tier == "thorough"
    out = [(f"law/{k}", t_law, dict(tier=tier, kind=k, T=4 if th else 3)) for k in BINARY]
    dm = [(2, 2, 4, 3), (2, 3, 3, 2), (3, 2, 3, 2), (1, 3, 4, 2)] + ([(3, 3, 3, 2), (2, 4, 4, 2), (4, 2, 3, 2)] if th else [])
    for a, b, K, T in dm:
        out.append((f"law/{a}x{b}/{K}", t_law, dict(tier=tier, kind=(a, b, K), T=T)))
    out += [("tape", t_tape, {}), ("rare", t_rare, {})]
    for k in list(BINARY) + [(2, 2, 4), (2, 3, 3), (3, 2, 3)]:
        out.append((f"long/{k}", t_long, dict(tier=tier, kind=k)))
    out.append(("long/gaussian", t_long_gaussian, dict(tier=tier)))
    out += [("edges", t_edges, dict(tier=tier)), ("gaussian", t_gaussian, dict(tier=tier)), ("isolation", t_isolation, dict(tier=tier)), ("reject", t_reject, {})]
    return out
