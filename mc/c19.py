"""C19: an operation on a batch is the operation on each of its blocks, whatever the shape of the batch, the container,
the numeric type or the memory layout of the data; and data handed in is not modified."""

import itertools

import numpy as np

import komm

from .core import short

ASSUMPTIONS = [
    "an empty batch may be refused",
    "containers: nested lists and tuples, arrays of bool, signed, unsigned and floating types that represent the values exactly, "
    "contiguous, strided, reversed, transposed and read-only; complex data in complex64 and complex128",
    "integral values given in a floating or boolean type where indices are expected may be refused, but not misread",
    "answers in single precision are compared to 1e-4, others to 1e-9",
]


def words(n, q=2):
    return [list(w) for w in itertools.product(range(q), repeat=n)]


def picks(n, cap, q=2):
    """All words if at most `cap`, otherwise constant, unit, pair and alternating words."""
    if q**n <= cap:
        return words(n, q)
    out = [[0] * n, [1] * n, [i % 2 for i in range(n)], [(i + 1) % 2 for i in range(n)], [int(i % 3 == 0) for i in range(n)], [i * i % q for i in range(n)]]
    out += [[int(j == i) for j in range(n)] for i in range(n)]
    return out[:cap]


def reals(n, cap):
    vals = [-2.0, -0.5, 0.75, 1.0, 3.0, -1.25, 0.5, 2.0, -4.0, 0.25]
    out = [[vals[(i * s + t) % len(vals)] for i in range(n)] for s in (1, 3, 7) for t in range(len(vals))]
    out += [[float((-1) ** i) for i in range(n)], [2.0] * n, [-1.0] * n]
    return out[:cap] + out[-3:]


def dtypes(x):
    """Types that represent the (integer, real or complex) values of array x exactly."""
    out = []
    for dt in (np.bool_, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float32, np.float64, np.complex64, np.complex128):
        k = np.dtype(dt).kind
        if x.dtype.kind == "c" and k != "c" or x.dtype.kind != "c" and k == "c":
            continue
        if x.dtype.kind == "f" and k == "b":
            continue
        with np.errstate(all="ignore"):
            y = x.astype(dt)
            if y.tolist() == x.tolist():
                out.append(dt)
    return out


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


def layouts(x):
    """Same array in other memory layouts."""
    n = x.ndim
    if n == 0:
        return
    big = np.zeros([2 * s for s in x.shape], dtype=x.dtype)
    big[tuple(slice(None, None, 2) for _ in x.shape)] = x
    yield "strided", big[tuple(slice(None, None, 2) for _ in x.shape)]
    r = x[..., ::-1].copy()[..., ::-1]
    yield "reversed", r
    if n > 1:
        yield "fortran", np.asfortranarray(x)
        yield "swapped", np.ascontiguousarray(np.moveaxis(x, 0, -1)) .transpose((n - 1,) + tuple(range(n - 1)))
    c = x.copy()
    c.flags.writeable = False
    yield "readonly", c


def norm(v):
    if isinstance(v, (list, tuple)) and any(isinstance(x, (np.ndarray, list, tuple)) for x in v):
        return [norm(x) for x in v]
    return np.asarray(v)


def agree(a, b, tol=1e-9):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return a.tolist() == b.tolist()
    with np.errstate(all="ignore"):
        a, b = a.astype(complex), b.astype(complex)
        return bool(np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def call(ctx, key, f, x, what):
    """f(x), checking that an array x comes out as it went in."""
    before = x.copy() if isinstance(x, np.ndarray) else None
    with ctx.guard(key, what):
        y = f(x)
        if before is not None:
            ctx.ok(before.dtype == x.dtype and before.tolist() == x.tolist(), key, f"{what}: the input was modified")
        return y
    return None


INDEX = "index"  # values are used as indices: floats and bools may be refused


def variants(ctx, key, f, x, want, index=False, light=False):
    """All containers and layouts of x must give `want`."""
    for name, y in (("list", x.tolist()), ("tuple", tup(x.tolist()))):
        g = call(ctx, key, f, y, name)
        if g is not None:
            ctx.ok(agree(norm(g), want), key, f"{name} gives {short(g)}, expected {short(want)}")
        ctx.trace()
    for dt in dtypes(x):
        y = x.astype(dt)
        name = np.dtype(dt).name
        tol = 1e-4 if dt in (np.float32, np.complex64) else 1e-9
        try:
            before = y.copy()
            g = f(y)
        except Exception as e:
            if index and np.dtype(dt).kind in "bfu" and isinstance(e, (TypeError, IndexError, ValueError)):
                continue
            ctx.fail(key, f"{name}: {type(e).__name__}: {e}")
            continue
        ctx.ok(before.tolist() == y.tolist(), key, f"{name}: the input was modified")
        ctx.ok(agree(norm(g), want, tol), key, f"{name} gives {short(g)}, expected {short(want)}")
        ctx.trace()
    if light:
        return
    for name, y in layouts(x):
        g = call(ctx, key, f, y, name)
        if g is not None:
            ctx.ok(agree(norm(g), want), key, f"{name} gives {short(g)}, expected {short(want)}")
        ctx.trace()


def batch(ctx, key, f, units, pair_units, index=False, scalar=False, empty=True, many=1030, bulk=70011):
    """f acts on blocks of the last axis: units is a list of 1-D arrays of one length."""
    base = []
    for u in units:
        ctx.state()
        with ctx.guard(key, short(u.tolist())):
            b = np.asarray(f(u.copy()))
            base.append(b)
            continue
        return
    k = f"{key}"
    ln = base[0].shape[-1]
    kind = any(b.dtype.kind != base[0].dtype.kind for b in base)
    ctx.ok(not kind, k, "the type of the answer depends on the values")
    for u, b in zip(units, base):
        ctx.ok(b.shape == (ln,), f"{k}/{short(u.tolist())}", f"shape of the answer to one block is {b.shape}")
        variants(ctx, f"{k}/{short(u.tolist())}", f, u, b, index)
    m = min(pair_units, len(units))
    sel = list(range(len(units)))[:m] if m == len(units) else sorted({round(i * (len(units) - 1) / (m - 1)) for i in range(m)})
    for i, j in itertools.product(sel, repeat=2):
        ctx.state()
        u, v = units[i], units[j]
        kk = f"{k}/{short(u.tolist())},{short(v.tolist())}"
        for name, x, want in (
            ("two blocks in a row", np.concatenate([u, v]), np.concatenate([base[i], base[j]])),
            ("two rows", np.stack([u, v]), np.stack([base[i], base[j]])),
        ):
            g = call(ctx, kk, f, x, name)
            if g is not None:
                ctx.ok(agree(norm(g), want), kk, f"{name}: {short(g)}, expected {short(want)}")
            ctx.trace()
    # shapes
    for t in range(len(units)):
        a = [units[(t + i) % len(units)] for i in range(12)]
        o = [base[(t + i) % len(units)] for i in range(12)]
        for shape in ((1, 1), (3, 1), (1, 3), (2, 2), (2, 3, 2), (3, 1, 2), (1, 1, 1, 2)):
            n = int(np.prod(shape))
            x = np.concatenate(a[:n]).reshape(*shape[:-1], -1)
            want = np.concatenate(o[:n]).reshape(*shape[:-1], -1)
            kk = f"{k}/{t}/{shape}"
            g = call(ctx, kk, f, x, "batch")
            if g is not None:
                ctx.ok(agree(norm(g), want), kk, f"batch of shape {shape}: {short(g)}, expected {short(want)}")
            ctx.trace()
            if t == 0:
                variants(ctx, kk, f, x, want, index)
    # many blocks, in an order that visits every unit next to every other
    order = [(i * i + i // 7) % len(units) for i in range(many)]
    a, o = np.concatenate([units[i] for i in order]), np.concatenate([base[i] for i in order])
    for shape in ((many,), (many, 1), (2, many // 2), (many // 10, 2, 5), (1, 1, many)):
        x = a.reshape(*shape[:-1], -1) if len(shape) > 1 else a
        want = o.reshape(*shape[:-1], -1) if len(shape) > 1 else o
        g = call(ctx, f"{k}/many/{shape}", f, x, "large batch")
        if g is not None:
            g = norm(g)
            if not agree(g, want):
                at = np.argwhere(~np.isclose(g, want)).tolist()[0] if not isinstance(g, list) and g.shape == want.shape else "shape"
                ctx.fail(f"{k}/many/{shape}", f"batch of {many} blocks as {shape}: differs from the blocks one by one, first at {at}")
            else:
                ctx.ok(True, f"{k}/many/{shape}", "")
        ctx.trace()
        ctx.step(many)
    # very many blocks: beyond any size at which a batch might be cut into pieces
    order = np.array([(i * i + i // 7) % len(units) for i in range(bulk)])
    a, o = np.stack(units)[order], np.stack(base)[order]
    for shape in ((bulk,), (bulk, 1), (3, bulk // 3)):
        x, want = (a.reshape(*shape[:-1], -1), o.reshape(*shape[:-1], -1)) if len(shape) > 1 else (a.reshape(-1), o.reshape(-1))
        g = call(ctx, f"{k}/bulk/{shape}", f, x, "very large batch")
        if g is not None:
            ctx.ok(agree(norm(g), want), f"{k}/bulk/{shape}", f"batch of {bulk} blocks as {shape}: differs from the blocks one by one")
        ctx.trace()
        ctx.step(bulk)
    if scalar:
        for u, b in zip(units, base):
            for name, x in (("scalar", u[0].item()), ("0-d array", np.array(u[0])), ("numpy scalar", u[0])):
                kk = f"{k}/{u[0]}"
                g = call(ctx, kk, f, x, name)
                if g is not None:
                    ctx.ok(np.asarray(g).size == 1 and agree(np.asarray(g).reshape(1), b), kk, f"{name} gives {short(g)}, expected {short(b)}")
                ctx.trace()
    if empty:
        for shape in ((0,), (0, len(units[0])), (2, 0)):
            x = np.zeros(shape, dtype=units[0].dtype)
            want = (0,) if shape == (0,) else (0, ln) if shape[0] == 0 else (2, 0)
            try:
                g = f(x)
            except ValueError:
                ctx.outcome("empty batch refused")
            else:
                ctx.ok(np.asarray(g).shape == want, f"{k}/empty{shape}", f"an empty batch of shape {shape} gives shape {np.asarray(g).shape}")
    # sizes that are not a number of blocks
    n = len(units[0])
    if n > 1:
        for x in (np.concatenate([units[0], units[-1]])[: n + 1], units[0][: n - 1], np.stack([units[0]] * 2)[:, : n - 1]):
            ctx.raises(Exception, lambda: f(x), f"{k}/size{x.shape}", f"accepted a last dimension that is not a multiple of {n}")


def A(u, dt=np.int64):
    return np.array(u, dtype=dt)


def codes():
    HAM = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 0, 1, 1], [0, 0, 1, 0, 1, 1, 1], [0, 0, 0, 1, 1, 0, 1]]
    t = lambda mode, rows, L: komm.TerminatedConvolutionalCode(komm.ConvolutionalCode(rows), L, mode)
    return [
        ("BlockCode", komm.BlockCode(HAM)), ("BlockCode/check", komm.BlockCode(check_matrix=[[1, 1, 0, 1], [0, 1, 1, 0]])),
        ("BlockCode/k=1", komm.BlockCode([[1, 1, 0]])), ("BlockCode/k=n", komm.BlockCode([[1, 1], [0, 1]])),
        ("Systematic", komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1]])), ("Systematic/right", komm.SystematicBlockCode([[1, 0], [1, 1]], "right")),
        ("Systematic/list", komm.SystematicBlockCode([[1, 0], [1, 1]], [3, 0])),
        ("Cyclic", komm.CyclicCode(7, generator_polynomial=0b1011)), ("Cyclic/ns", komm.CyclicCode(7, generator_polynomial=0b1101, systematic=False)),
        ("BCH", komm.BCHCode(4, 5)), ("Hamming", komm.HammingCode(3)), ("Hamming/e", komm.HammingCode(2, extended=True)), ("Simplex", komm.SimplexCode(3)),
        ("Golay", komm.GolayCode()), ("Repetition", komm.RepetitionCode(4)), ("Parity", komm.SingleParityCheckCode(4)), ("ReedMuller", komm.ReedMullerCode(1, 3)),
        ("CordaroWagner", komm.CordaroWagnerCode(5)), ("Lexicode", komm.Lexicode(6, 3)), ("Polar", komm.PolarCode(3, [0, 1, 2, 4])),
        ("Terminated/zero", t("zero-termination", [[7, 5]], 3)), ("Terminated/direct", t("direct-truncation", [[7, 5]], 4)),
        ("Terminated/biting", t("tail-biting", [[7, 5]], 3)), ("Terminated/k=2", t("zero-termination", [[0b11, 0b10, 0b11], [0b10, 1, 1]], 2)),
    ]


def t_codes(ctx, tier, part, parts):
    cap, pairs = (256, 64) if tier == "thorough" else (32, 16)
    ctx.bound("blocks per operation", f"all if at most {cap}, else structured; all pairs of {pairs}")
    for i, (name, c) in enumerate(codes()):
        if i % parts != part:
            continue
        n, k = c.length, c.dimension
        msgs = [A(u) for u in picks(k, cap)]
        recv = [A(u) for u in picks(n, cap)]
        batch(ctx, f"{name}/encode", c.encode, msgs, pairs)
        with ctx.guard(name):
            cw = [A(c.encode(u)) for u in msgs]
            if not name.startswith("Terminated/none"):
                batch(ctx, f"{name}/inverse_encode", c.inverse_encode, cw, pairs)
            try:
                c.project_word(recv[0])
            except NotImplementedError:
                ctx.outcome("not offered")
            else:
                batch(ctx, f"{name}/project_word", c.project_word, recv, pairs)
            if n > k:
                batch(ctx, f"{name}/check", c.check, recv, pairs)


def t_decoders(ctx, tier, part, parts):
    cap, pairs = (128, 48) if tier == "thorough" else (24, 12)
    ctx.bound("blocks per operation", f"all if at most {cap}, else structured; all pairs of {pairs}")
    C = dict(codes())
    spc, pol = C["Parity"], C["Polar"]
    D = [
        ("Exhaustive", komm.ExhaustiveSearchDecoder(C["Systematic"]), "hard"), ("Exhaustive/soft", komm.ExhaustiveSearchDecoder(C["Systematic"], "soft"), "soft"),
        ("Syndrome", komm.SyndromeTableDecoder(C["BlockCode"]), "hard"), ("Berlekamp", komm.BerlekampDecoder(C["BCH"]), "hard"),
        ("Reed", komm.ReedDecoder(C["ReedMuller"]), "hard"), ("Reed/soft", komm.ReedDecoder(C["ReedMuller"], "soft"), "soft"),
        ("Wagner", komm.WagnerDecoder(spc), "soft"), ("SC", komm.SCDecoder(pol), "soft"), ("SC/hard", komm.SCDecoder(pol, output_type="hard"), "soft"),
        ("Viterbi/zero", komm.ViterbiDecoder(C["Terminated/zero"]), "hard"), ("Viterbi/zero/soft", komm.ViterbiDecoder(C["Terminated/zero"], "soft"), "soft"),
        ("Viterbi/direct", komm.ViterbiDecoder(C["Terminated/direct"]), "hard"), ("Viterbi/k=2", komm.ViterbiDecoder(C["Terminated/k=2"]), "hard"),
        ("BCJR/zero", komm.BCJRDecoder(C["Terminated/zero"]), "soft"), ("BCJR/direct/hard", komm.BCJRDecoder(C["Terminated/direct"], "hard"), "soft"),
        ("BCJR/k=2", komm.BCJRDecoder(C["Terminated/k=2"]), "soft"),
    ]
    for i, (name, d, kind) in enumerate(D):
        if i % parts != part:
            continue
        n = d.code.length
        bulk = 70011 if name.startswith(("Exhaustive", "Syndrome")) else 20001 if name.startswith(("Reed", "Wagner")) else 4200
        us = [A(u) for u in picks(n, cap)] if kind == "hard" else [A(u, float) for u in reals(n, cap)]
        batch(ctx, f"{name}/decode", d.decode, us, pairs, many=260, bulk=bulk)
        if kind == "soft":  # integer L-values
            us = [A(np.round(4 * np.array(u))) for u in reals(n, 6)]
            us += [A([(127, -100, 64, -128, 90)[(i * s + t) % 5] for i in range(n)]) for s in (1, 2) for t in range(3)] + [A([100 + 9 * (i % 3) for i in range(n)])]
            batch(ctx, f"{name}/decode/int", d.decode, us, 4, many=70, bulk=300)


def t_labelings(ctx, tier):
    cap, pairs = (64, 64) if tier == "thorough" else (16, 16)
    for name, l in [
        ("Natural", komm.NaturalLabeling(2)), ("Reflected", komm.ReflectedLabeling(3)), ("Rectangular", komm.ReflectedRectangularLabeling((1, 2))),
        ("Labeling", komm.Labeling([[0, 0], [1, 1], [0, 1], [1, 0]])), ("Product", komm.ProductLabeling(komm.NaturalLabeling(1), komm.ReflectedLabeling(2))),
        ("Natural/1", komm.NaturalLabeling(1)),
    ]:
        m = l.num_bits
        batch(ctx, f"{name}/indices_to_bits", l.indices_to_bits, [A([i]) for i in range(2**m)], pairs, index=True)
        batch(ctx, f"{name}/bits_to_indices", l.bits_to_indices, [A(w) for w in words(m)], pairs)
        ms = [[(1 + (i * s + t) % 5) / 8 for i in range(2**m)] for s in (1, 2, 3) for t in range(cap // 4)]
        batch(ctx, f"{name}/marginalize", l.marginalize, [A(u, float) for u in ms], pairs)
        batch(ctx, f"{name}/marginalize/int", l.marginalize, [A([1 + (i * s) % 5 for i in range(2**m)]) for s in (1, 2, 3)], 3)


def t_constellations(ctx, tier):
    pairs = 20 if tier == "thorough" else 8
    for name, c in [
        ("PAM", komm.PAMConstellation(4)), ("ASK", komm.ASKConstellation(4)), ("ASK/rot", komm.ASKConstellation(4, 1.0, 0.125)), ("PSK", komm.PSKConstellation(8)),
        ("QAM", komm.QAMConstellation(16)), ("QAM/rect", komm.QAMConstellation((2, 4))), ("CrossQAM", komm.CrossQAMConstellation(32)),
        ("APSK", komm.APSKConstellation((4, 8), (1.0, 2.0))), ("Orthogonal", komm.OrthogonalConstellation(3)), ("Biorthogonal", komm.BiorthogonalConstellation(4)),
        ("Simplex", komm.SimplexConstellation(3)), ("Constellation", komm.Constellation([[0.0, 1.0], [1.0, 0.0], [-1.0, -1.0]])),
        ("Constellation/c", komm.Constellation([[0], [1j], [2 + 1j]])),
    ]:
        M, N = c.order, c.dimension
        batch(ctx, f"{name}/indices_to_symbols", c.indices_to_symbols, [A([i]) for i in range(M)], pairs, index=True)
        if c.matrix.dtype.kind == "c":
            us = [A([a + 1j * b], complex) for a in (-2.5, -0.25, 0.375, 1.0, 3.0) for b in (-3.0, -0.125, 0.5, 1.25)]
        else:
            us = [A(u, float) for u in reals(N, 20)]
        iu = [A([(3 * i + j) % 7 - 3 for i in range(N)]) for j in range(7)]
        iu += [A([(127, -100, 64, -128, 90)[(i * s + t) % 5] for i in range(N)]) for s in (1, 2) for t in range(3)]
        iu += [A([(255 - 100 * i) % 256 for i in range(N)]), A([3 + i % 2 for i in range(N)])]
        for op in ("closest_indices", "closest_symbols"):
            batch(ctx, f"{name}/{op}", getattr(c, op), us, pairs)
            batch(ctx, f"{name}/{op}/int", getattr(c, op), iu, 4)
        for pri in (None, [(1 + i % 3) for i in range(M)]):
            pri = None if pri is None else np.array(pri) / sum(pri)
            batch(ctx, f"{name}/posteriors/{pri is None}", lambda x: c.posteriors(x, 0.5, pri), us, pairs)
            batch(ctx, f"{name}/posteriors/{pri is None}/int", lambda x: c.posteriors(x, 0.5, pri), iu, 4)


def t_elements(ctx, tier):
    pairs = 24 if tier == "thorough" else 10
    q = komm.ScalarQuantizer([-1.0, 0.0, 1.25], [-0.25, 0.75])
    u = komm.UniformQuantizer(4, 0.5, 0.25)
    lm = komm.LloydMaxQuantizer(lambda x: np.ones_like(x) / 4, (-2, 2), 4)
    xs = [A([v], float) for v in (-9.0, -1.0, -0.5, -0.25, 0.0, 0.125, 0.25, 0.375, 0.75, 1.0, 1.5, 7.0)]
    ns = [A([v]) for v in (-128, -9, -2, -1, 0, 1, 2, 7, 127, 255)]
    for name, o in (("Scalar", q), ("Uniform", u), ("LloydMax", lm)):
        for op in ("digitize", "quantize"):
            batch(ctx, f"{name}/{op}", getattr(o, op), xs, pairs, scalar=True)
            batch(ctx, f"{name}/{op}/int", getattr(o, op), ns, pairs, scalar=True)
    for name, p in [("Rectangular", komm.RectangularPulse(0.5)), ("Manchester", komm.ManchesterPulse()), ("Gaussian", komm.GaussianPulse(0.5)), ("Sinc", komm.SincPulse()),
                    ("RaisedCosine", komm.RaisedCosinePulse(0.5)), ("Beaulieu", komm.BeaulieuPulse(0.5)), ("RootRaisedCosine", komm.RaisedCosinePulse(0.5).root())]:
        for op in ("waveform", "spectrum", "autocorrelation", "energy_spectral_density"):
            batch(ctx, f"{name}/{op}", getattr(p, op), xs, pairs, scalar=True)
            batch(ctx, f"{name}/{op}/int", getattr(p, op), ns, pairs, scalar=True)
    batch(ctx, "gaussian_q", komm.gaussian_q, xs, pairs, scalar=True)
    batch(ctx, "gaussian_q/int", komm.gaussian_q, ns, pairs, scalar=True)
    ps = [A([v], float) for v in (0.0625, 0.25, 0.5, 0.75, 0.9375)]
    batch(ctx, "gaussian_q_inv", komm.gaussian_q_inv, ps, pairs, scalar=True)
    batch(ctx, "marcum_q/x", lambda x: komm.marcum_q(1, 0.5, x), [A([v], float) for v in (0.0, 0.25, 1.0, 3.0)], pairs, scalar=True)
    batch(ctx, "marcum_q/int", lambda x: komm.marcum_q(2, 1, x), [A([v]) for v in (0, 1, 2, 5)], pairs, scalar=True)
    batch(ctx, "boxplus", lambda x: komm.boxplus(x, np.full(np.shape(x), 1.5)), xs, pairs, scalar=True)
    batch(ctx, "boxplus/int", lambda x: komm.boxplus(x, np.full(np.shape(x), -2)), ns, pairs, scalar=True)
    for w in (1, 3):
        batch(ctx, f"int_to_bits/{w}", lambda x: komm.int_to_bits(x, w).reshape(*np.shape(x)[:-1], -1) if np.ndim(x) else komm.int_to_bits(x, w), [A([i]) for i in range(2**w)], pairs, index=True, empty=False)


def t_sequences(ctx, tier):
    """Operations on one sequence: containers and layouts only."""
    L = 5 if tier == "thorough" else 4
    src = {"q2": words(L, 2), "q3": words(L, 3)}
    fv = komm.FixedToVariableCode.from_codewords([(0,), (1, 0), (1, 1)])
    for name, c in [("Huffman", komm.HuffmanCode([0.5, 0.25, 0.25])), ("Fano", komm.FanoCode([0.5, 0.3, 0.2])), ("Shannon", komm.ShannonCode([0.5, 0.3, 0.2])), ("FixedToVariable", fv),
                    ("LZ77", komm.LempelZiv77Code(search_size=4, lookahead_size=2, source_cardinality=3)), ("LZSS", komm.LempelZivSSCode(search_size=4, lookahead_size=2, source_cardinality=3)),
                    ("LZ78", komm.LempelZiv78Code(3)), ("LZW", komm.LempelZivWelchCode(3)), ("Tunstall", komm.TunstallCode([0.5, 0.25, 0.25], 3)),
                    ("VariableToFixed", komm.VariableToFixedCode.from_sourcewords([(0, 0), (0, 1), (0, 2), (1,), (2,)]))]:
        for w in src["q3"]:
            x = A(w)
            ctx.state()
            key = f"{name}/{w}"
            with ctx.guard(key):
                try:
                    y = np.asarray(c.encode(x.copy()))
                except ValueError:
                    ctx.outcome("not encodable")
                    continue
                variants(ctx, key + "/encode", c.encode, x, y)
                z = np.asarray(c.decode(y.copy()))
                variants(ctx, key + "/decode", c.decode, y.astype(np.int64), z)
    for name, c in [("Fibonacci", komm.FibonacciCode()), ("Unary", komm.UnaryCode())]:
        for w in words(3, 4):
            x = A(w) + (1 if name == "Fibonacci" else 0)
            ctx.state()
            with ctx.guard(f"{name}/{w}"):
                y = np.asarray(c.encode(x.copy()))
                variants(ctx, f"{name}/{w}/encode", c.encode, x, y)
                variants(ctx, f"{name}/{w}/decode", c.decode, y.astype(np.int64), np.asarray(c.decode(y.copy())))
    for name, c, k in [("Conv", komm.ConvolutionalCode([[7, 5]]), 1), ("Conv/fb", komm.ConvolutionalCode([[3, 1]], [7]), 1),
                       ("Conv/k=2", komm.ConvolutionalCode([[3, 2, 3], [2, 1, 1]]), 2), ("LowRate", komm.LowRateConvolutionalCode([7, 5]), 1), ("HighRate", komm.HighRateConvolutionalCode([3, 2, 5]), 2)]:
        for w in words(2 * k + 1 if k == 1 else 4):
            x = A(w)
            ctx.state()
            key = f"{name}/{w}"
            with ctx.guard(key):
                variants(ctx, key, c.encode, x, np.asarray(c.encode(x.copy())))
                s0 = np.ones(c.degree, dtype=np.int64)
                f = lambda v: list(c.encode_with_state(v, s0))
                variants(ctx, key + "/state", f, x, norm(f(x.copy())))
                f = lambda v: list(c.encode_with_state(x, v))
                variants(ctx, key + "/state0", f, s0, norm(f(s0.copy())))
    mm = komm.MealyMachine([[0, 1], [2, 3], [0, 1], [2, 3]], [[0, 3], [1, 2], [3, 0], [2, 1]])
    for w in words(4):
        x = A(w)
        ctx.state()
        with ctx.guard(f"Mealy/{w}"):
            variants(ctx, f"Mealy/{w}", lambda v: list(mm.process(v, 1)), x, norm(list(mm.process(x.copy(), 1))), index=True)
        mo = komm.MooreMachine([[0, 1], [0, 1]], [0, 1])
        with ctx.guard(f"Moore/{w}"):
            variants(ctx, f"Moore/{w}", lambda v: list(mo.process(v, 1)), x, norm(list(mo.process(x.copy(), 1))), index=True)
    code = komm.ConvolutionalCode([[7, 5]])
    for kind in ("hard", "soft"):
        for w in words(6):
            x = A(w) if kind == "hard" else A([(1 - 2 * b) * (1 + i % 3) / 2 for i, b in enumerate(w)], float)
            f = lambda v: komm.ViterbiStreamDecoder(code, 2, input_type=kind).decode(v)
            ctx.state()
            with ctx.guard(f"Stream/{kind}/{w}"):
                variants(ctx, f"Stream/{kind}/{w}", f, x, np.asarray(f(x.copy())))


def t_constructors(ctx, tier):
    def obs(o, names):
        return [np.asarray(getattr(o, n)() if callable(getattr(o, n)) else getattr(o, n)) for n in names]

    m = [1, 0, 1, 1]
    subjects = []
    for G in ([[1, 1, 0, 1], [0, 1, 1, 0]], [[1, 0], [1, 1]], [[1, 1, 1]]):
        k = len(G)
        subjects.append((f"BlockCode/{G}", lambda x, k=k: obs(komm.BlockCode(x), ("generator_matrix", "check_matrix", "codewords", "minimum_distance")) + [komm.BlockCode(x).encode(m[:k])], A(G), False))
    subjects += [
        ("BlockCode/H", lambda x: obs(komm.BlockCode(check_matrix=x), ("generator_matrix", "check_matrix", "codewords")), A([[1, 1, 0, 1], [0, 1, 1, 0]]), False),
        ("Systematic/P", lambda x: obs(komm.SystematicBlockCode(x, "right"), ("generator_matrix", "check_matrix", "codewords")), A([[1, 1, 0], [0, 1, 1]]), False),
        ("Systematic/set", lambda x: obs(komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1]], x), ("generator_matrix", "check_matrix", "codewords")), A([1, 4]), True),
        ("Polar", lambda x: obs(komm.PolarCode(3, x), ("generator_matrix", "check_matrix")) + [komm.PolarCode(3, x).encode(m), komm.SCDecoder(komm.PolarCode(3, x)).decode([1.0, -2, 3, -1, 2, 2, -1, 4])], A([0, 1, 2, 4]), True),
        ("Mealy/t", lambda x: list(komm.MealyMachine(x, [[0, 1], [1, 0]]).process([1, 0, 1], 0)), A([[0, 1], [1, 0]]), True),
        ("Mealy/o", lambda x: list(komm.MealyMachine([[0, 1], [1, 0]], x).process([1, 0, 1], 0)), A([[0, 1], [1, 0]]), True),
        ("Moore/t", lambda x: list(komm.MooreMachine(x, [0, 1]).process([1, 0, 1], 0)), A([[0, 1], [1, 0]]), True),
        ("Moore/o", lambda x: list(komm.MooreMachine([[0, 1], [1, 0]], x).process([1, 0, 1], 0)), A([0, 1]), True),
        ("Labeling", lambda x: obs(komm.Labeling(x), ("matrix", "num_bits", "cardinality")) + [komm.Labeling(x).indices_to_bits([0, 1, 2, 3]), komm.Labeling(x).bits_to_indices([0, 1, 1, 1])], A([[0, 0], [1, 1], [0, 1], [1, 0]]), False),
        ("Product", lambda x: obs(komm.ProductLabeling(komm.Labeling(x), komm.NaturalLabeling(1)), ("matrix",)), A([[0, 0], [1, 1], [0, 1], [1, 0]]), False),
        ("Constellation/int", lambda x: obs(komm.Constellation(x), ("matrix", "order", "dimension", "mean", "mean_energy", "minimum_distance")) + [komm.Constellation(x).closest_indices([0.25, -1.0, 2.0, 0.5]), komm.Constellation(x).posteriors([0.25, -1.0], 1.0)], A([[0, 1], [1, 0], [1, 1]]), False),
        ("Constellation/big", lambda x: obs(komm.Constellation(x), ("matrix", "mean", "mean_energy", "minimum_distance", "minimum_energy" if hasattr(komm.Constellation, "minimum_energy") else "order")) + [komm.Constellation(x).closest_indices([25.0, -100.0]), komm.Constellation(x).posteriors([25.0, -100.0], 1e4)], A([[0, 100], [100, 0], [100, 120]]), False),
        ("Constellation/real", lambda x: obs(komm.Constellation(x), ("matrix", "mean", "mean_energy", "minimum_distance")), A([[0.5, 1.0], [1.0, -2.0]], float), False),
        ("Constellation/complex", lambda x: obs(komm.Constellation(x), ("matrix", "mean", "mean_energy", "minimum_distance")), A([[0.5 + 1j], [1.0], [-2j]], complex), False),
        ("Scalar/levels", lambda x: obs(komm.ScalarQuantizer(x, [0.5]), ("levels", "thresholds")) + [komm.ScalarQuantizer(x, [0.5]).quantize([0.0, 1.0])], A([0, 1]), False),
        ("Scalar/thresholds", lambda x: obs(komm.ScalarQuantizer([-0.5, 0.5, 1.5], x), ("levels", "thresholds")) + [komm.ScalarQuantizer([-0.5, 0.5, 1.5], x).quantize([-0.25, 0.0, 0.75, 1.25])], A([0, 1]), False),
        ("DMS", lambda x: obs(komm.DiscreteMemorylessSource(x), ("pmf", "cardinality", "entropy_rate")), A([0.5, 0.25, 0.25], float), False),
        ("DMS/01", lambda x: obs(komm.DiscreteMemorylessSource(x), ("pmf", "cardinality", "entropy_rate")), A([0, 1]), False),
        ("Markov", lambda x: obs(komm.MarkovChain(x), ("transition_matrix", "stationary_distribution")) , A([[0.5, 0.5], [0.25, 0.75]], float), False),
        ("Markov/01", lambda x: obs(komm.MarkovChain(x), ("transition_matrix", "stationary_distribution", "is_irreducible", "mean_recurrence_times" if hasattr(komm.MarkovChain, "mean_recurrence_times") else "is_regular")), A([[0, 1], [1, 0]]), False),
        ("Markov/abs", lambda x: obs(komm.MarkovChain(x), ("transition_matrix", "absorption_probabilities", "mean_time_to_absorption", "mean_number_of_visits")), A([[1, 0, 0], [0, 1, 0], [0, 1, 0]]), False),
        ("DMC", lambda x: obs(komm.DiscreteMemorylessChannel(x), ("transition_matrix", "capacity")) + [komm.DiscreteMemorylessChannel(x).mutual_information([0.5, 0.5])], A([[0.5, 0.5], [0.25, 0.75]], float), False),
        ("DMC/01", lambda x: obs(komm.DiscreteMemorylessChannel(x), ("transition_matrix", "capacity")), A([[0, 1], [1, 0]]), False),
        ("BSC/pmf", lambda x: [np.asarray(komm.BinarySymmetricChannel(0.25).mutual_information(x))], A([0.25, 0.75], float), False),
        ("BSC/pmf01", lambda x: [np.asarray(c.mutual_information(x)) for c in (komm.BinarySymmetricChannel(0.25), komm.BinaryErasureChannel(0.25), komm.ZChannel(0.25))], A([0, 1]), False),
        ("entropy", lambda x: komm.entropy(x), A([0.5, 0.25, 0.25], float), False),
        ("entropy01", lambda x: komm.entropy(x), A([0, 1, 0]), False),
        ("relative_entropy", lambda x: [np.asarray(komm.relative_entropy(x, [0.5, 0.5])), np.asarray(komm.relative_entropy([0.0, 1.0], x))], A([0, 1]), False),
        ("Huffman", lambda x: [np.asarray(komm.HuffmanCode(x, 2).rate(x)), np.asarray(komm.HuffmanCode(x).encode([0, 1, 2]))], A([0.5, 0.25, 0.25], float), False),
        ("Fano", lambda x: [np.asarray(komm.FanoCode(x, 2).rate(x)), np.asarray(komm.FanoCode(x).encode([0, 1, 2]))], A([0.5, 0.25, 0.25], float), False),
        ("Shannon", lambda x: [np.asarray(komm.ShannonCode(x, 2).rate(x)), np.asarray(komm.ShannonCode(x).encode([0, 1, 2]))], A([0.5, 0.25, 0.25], float), False),
        ("Tunstall", lambda x: [np.asarray(komm.TunstallCode(x, 3).rate(x)), np.asarray(komm.TunstallCode(x, 3).encode([0, 1, 2, 0]))], A([0.5, 0.25, 0.25], float), False),
        ("from_lengths", lambda x: [np.asarray(komm.FixedToVariableCode.from_lengths(x).encode([0, 1, 2]))], A([1, 2, 2]), True),
        ("BinarySequence/bit", lambda x: obs(komm.BinarySequence(bit_sequence=x), ("bit_sequence", "polar_sequence", "autocorrelation", "cyclic_autocorrelation")), A([0, 1, 1]), False),
        ("BinarySequence/polar", lambda x: obs(komm.BinarySequence(polar_sequence=x), ("bit_sequence", "polar_sequence", "autocorrelation", "cyclic_autocorrelation")), A([1, -1, -1]), False),
        ("ComplexSequence", lambda x: obs(komm.ComplexSequence(x), ("sequence", "autocorrelation", "cyclic_autocorrelation")), A([1, 2j, -1], complex), False),
        ("ComplexSequence/int", lambda x: obs(komm.ComplexSequence(x), ("sequence", "autocorrelation", "cyclic_autocorrelation")), A([1, 2, -1]), False),
        ("poly/coeffs", lambda x: np.asarray(int(komm.BinaryPolynomial.from_coefficients(x))), A([1, 0, 1, 1]), False),
        ("poly/exps", lambda x: np.asarray(int(komm.BinaryPolynomial.from_exponents(x))), A([0, 3, 70]), True),
        ("ConvolutionalCode", lambda x: [np.asarray(komm.ConvolutionalCode(x).encode([1, 0, 1, 1])), np.asarray(komm.ConvolutionalCode(x).free_distance())], A([[7, 5]]), True),
        ("LowRate", lambda x: [np.asarray(komm.LowRateConvolutionalCode(x).encode([1, 0, 1, 1]))], A([7, 5]), True),
        ("HighRate", lambda x: [np.asarray(komm.HighRateConvolutionalCode(x).encode([1, 0, 1, 1]))], A([3, 2, 5]), True),
        ("shifts", lambda x: np.asarray(komm.autocorrelation([1, 2, 3], shifts=x)), A([0, 1, 2]), True),
        ("convolve", lambda x: np.asarray(komm.convolve(x, [1, 2])), A([[1, 2, 3], [4, 5, 6]]), False),
        ("convolve2", lambda x: np.asarray(komm.convolve([1.0, 2.0, 3.0], x)), A([1, 2]), False),
        ("fourier", lambda x: np.asarray(komm.fourier_transform(x, 0.5)[1] if isinstance(komm.fourier_transform(x, 0.5), tuple) else komm.fourier_transform(x, 0.5)), A([1, 2, 3, 4]), False),
        ("expand", lambda x: np.asarray(komm.sampling_rate_expand(x, 2, 1)), A([[1, 2, 3], [4, 5, 6]]), False),
        ("compress", lambda x: np.asarray(komm.sampling_rate_compress(x, 2, 1)), A([[1, 2, 3], [4, 5, 6]]), False),
        ("bits_to_int", lambda x: np.asarray(komm.bits_to_int(x)), A([[1, 0, 1], [0, 0, 1]]), False),
        ("lz77 buffer", lambda x: np.asarray(komm.LempelZiv77Code(search_size=3, lookahead_size=2, source_cardinality=2, search_buffer=x).encode([0, 1, 1])), A([1, 0, 1]), False),
        ("lzss buffer", lambda x: np.asarray(komm.LempelZivSSCode(search_size=3, lookahead_size=2, source_cardinality=2, search_buffer=x).encode([0, 1, 1])), A([1, 0, 1]), False),
    ]
    for name, f, x, index in subjects:
        ctx.state()
        with ctx.guard(name):
            variants(ctx, name, f, x, norm(f(x.copy())), index)


def tasks(tier):
    out = [(f"codes/{i}", t_codes, dict(tier=tier, part=i, parts=4)) for i in range(4)]
    out += [(f"decoders/{i}", t_decoders, dict(tier=tier, part=i, parts=4)) for i in range(4)]
    out += [(n, f, dict(tier=tier)) for n, f in (("labelings", t_labelings), ("constellations", t_constellations), ("elements", t_elements), ("sequences", t_sequences), ("constructors", t_constructors))]
    return out
