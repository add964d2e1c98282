"""C05: the BCJR decoder's soft outputs are the exact a posteriori L-values over the codewords."""

import numpy as np

import komm

from . import conv, ref, trellis
from .c04 import received
from .core import short

ASSUMPTIONS = ["input L-values outside the quantised alphabets are not covered", "agreement up to 1e-8 relative"]


def app(U, V, R):
    """Exact APP L-values of every message bit for every row of R (max-shifted sums in float64)."""
    P = 0.5 * R @ (1 - 2 * V.T)  # log-likelihoods up to a constant
    P = P - P.max(axis=1, keepdims=True)
    out = np.empty((len(R), U.shape[1]))
    for b in range(U.shape[1]):
        one = U[:, b] == 1
        a0, a1 = P[:, ~one], P[:, one]
        m0, m1 = a0.max(axis=1), a1.max(axis=1)
        out[:, b] = m0 + np.log(np.exp(a0 - m0[:, None]).sum(axis=1)) - m1 - np.log(np.exp(a1 - m1[:, None]).sum(axis=1))
    return out


def judge(ctx, key, code, U, V, R, chunk=1024):
    k = U.shape[1]
    soft, hard = komm.BCJRDecoder(code), komm.BCJRDecoder(code, output_type="hard")
    for c in range(0, len(R), chunk):
        X = R[c : c + chunk]
        ctx.at(key, c)
        with ctx.guard(key, f"words {c}.."):
            got = np.array(soft.decode(X.copy()))
            want = app(U, V, X)
            ctx.step(len(X))
            if not ctx.eq(got.shape, (len(X), k), key, "shape"):
                return
            # (probabilities below 1e-260 are only required to be tiny)
            far = np.abs(want) > 600
            bad = np.where(far, ~((np.sign(got) == np.sign(want)) & (np.abs(got) > 500)), ~(np.abs(got - want) <= 1e-8 * (1 + np.abs(want))))
            for i in np.nonzero(bad.any(axis=1))[0][:4]:
                ctx.fail(key, f"r={short(X[i])}: L-values {short(got[i])}, exact {short(want[i])}", got[i])
            if bad.any():
                ctx.n_violations += int(bad.any(axis=1).sum()) - 1
            if c % (4 * chunk) == 0 and np.all(X == np.rint(X)):  # the same L-values as integers
                Z = X[:: 1 + len(X) // 100].astype(int)
                ctx.close(soft.decode(Z), got[:: 1 + len(X) // 100], key, f"integer L-values, words {c}..", 1e-8)
                ctx.step(len(Z))
            sharp = np.abs(want) > 1e-7
            H = np.array(hard.decode(X.copy()))
            ctx.ok(H.shape == got.shape and bool(np.all((H == (want < 0))[sharp])), key + "/hard", f"hard decisions differ from the signs of the L-values in words {c}..")
            ctx.step(len(X))
            ctx.state(len(X))
            ctx.trace(len(X))
            ctx.outcome((key, c, float(np.round(want.sum(), 6))))
    with ctx.guard(key, "single words"):
        if np.abs(app(U, V, R)).max() > 600:
            return
        for i in list(range(0, len(R), max(1, len(R) // 7)))[:8]:
            want = app(U, V, R[[i, -1 - i]])
            ctx.close(soft.decode(R[i].copy()), want[0], key, f"single word {short(R[i])}", 1e-8)
            ctx.close(soft.decode(np.concatenate([R[i], R[-1 - i]])), want.ravel(), key, f"two blocks {short(R[i])}", 1e-8)
            ctx.step(2)


def case(ctx, spec, h, mode, budget, alphabets):
    key = f"BCJR/{spec.name}/h={h}/{mode}"
    with ctx.guard(key):
        code = komm.TerminatedConvolutionalCode(spec.make(), h, mode)
        U = ref.words(h * spec.k)
        V = np.array(code.encode(U))
        n = V.shape[1]
        done = 0
        for A in alphabets:
            if len(A) ** n <= budget:
                judge(ctx, key, code, U, V, received(A, n))
                done += 1
                if done == 2:
                    break
        for A in ((-2000.0, 100.0), (-90.0, 60.0), (-1e-5, 2e-5)):
            if len(A) ** n <= budget:
                judge(ctx, key + f"/scale{A}", code, U, V, received(A, n))
        if not done:  # too long for a full product: signed codewords with every single and adjacent double perturbation
            base = (1 - 2 * V) * 1.5
            E = [np.ones(n)]
            for i in range(n):
                for f in (-1.0, 0.2):
                    e = np.ones(n)
                    e[i] = f
                    E.append(e)
                    e = e.copy()
                    e[(i + 1) % n] = -0.4
                    E.append(e)
            R = (base[:, None, :] * np.array(E)[None]).reshape(-1, n)
            judge(ctx, key, code, U, V, R[: 2 * budget])


def t_bcjr(ctx, specs, hs, budget):
    ctx.bound("h", list(hs))
    ctx.bound("words", f"all words over the richest alphabets with at most {budget} words, else perturbed codewords")
    for spec in specs:
        for h in hs:
            for mode in ("direct-truncation", "zero-termination"):
                case(ctx, spec, h, mode, budget, [(-25.0, -2.0, -0.3, 0.0, 1.0), (-3.0, -1.0, 0.5, 2.0), (-2.0, 0.5, 1.0), (-1.0, 2.0), (-40.0, 25.0)])
    ctx.sample(spec.name)


def t_reject(ctx):
    """Tail-biting has no supported soft decoder: it must be refused, not answered."""
    for spec in conv.named_specs()[:6]:
        code = komm.TerminatedConvolutionalCode(spec.make(), 3, "tail-biting")
        for cls in (komm.BCJRDecoder, komm.ViterbiDecoder):
            ctx.raises(NotImplementedError, lambda: cls(code), f"reject/{cls.__name__}/{spec.name}", "tail-biting accepted")
            ctx.step()
            ctx.state()
            ctx.trace()
    code = komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([[7, 5]]), 3)
    ctx.raises(ValueError, lambda: komm.BCJRDecoder(code, output_type="both"), "reject/type", "unknown output type accepted")


def t_long(ctx, spec, hs):
    """Frames of hundreds of blocks against exact log-domain sums over the trellis."""
    ctx.bound("h", list(hs))
    ctx.bound("words", "codewords of irregular messages with errors of several densities, irregular magnitudes, three scales")
    cc = spec.make()
    tr = trellis.of_code(cc)
    k, n = spec.k, spec.n
    Y = (np.arange(2**n)[:, None] >> np.arange(n)) & 1
    for h in hs:
        for mode in ("direct-truncation", "zero-termination"):
            key = f"BCJR/long/{spec.name}/h={h}/{mode}"
            ctx.at(key)
            with ctx.guard(key):
                code = komm.TerminatedConvolutionalCode(cc, h, mode)
                tails = trellis.tails(code, tr, h, k, n) if mode == "zero-termination" else None
                dec, hard = komm.BCJRDecoder(code), komm.BCJRDecoder(code, output_type="hard")
                start = np.where(np.arange(tr.S) == 0, 0.0, -np.inf)
                for i, (every, scale) in enumerate([(0, 0.3), (3, 1.0), (5, 1.0), (9, 2.0), (20, 4.0), (1, 1.0), (1, 0.1)]):
                    r = trellis.soft(trellis.noisy(np.array(code.encode(trellis.pattern(h * k, i))), every, i), i, scale)
                    logw = [0.5 * (1 - 2 * Y) @ r[t * n : (t + 1) * n] for t in range(h)]
                    last = None
                    if tails is not None:
                        last = np.full(tr.S, -np.inf)
                        for s, tail in tails.items():
                            last[s] = 0.5 * float((1 - 2 * tail) @ r[h * n :])
                    P = tr.posteriors(logw, first=start, last=last)
                    X = np.arange(2**k)
                    want = np.stack([np.logaddexp.reduce(P[:, X >> b & 1 == 0], axis=1) - np.logaddexp.reduce(P[:, X >> b & 1 == 1], axis=1) for b in range(k)], axis=1).ravel()
                    got = np.array(dec.decode(r.copy()))
                    ctx.step(2)
                    ctx.state()
                    ctx.trace()
                    if not ctx.eq(got.shape, want.shape, key, "shape"):
                        continue
                    near = np.abs(want) < 600
                    bad = np.where(near, ~(np.abs(got - want) <= 1e-7 * (1 + np.abs(want))), ~((np.sign(got) == np.sign(want)) & (np.abs(got) > 500)))
                    if bad.any():
                        j = int(np.argmax(bad))
                        ctx.fail(key, f"case {i}: L-value of bit {j} of {h * k} is {got[j]}, exact {want[j]}", float(got[j]))
                    sharp = np.abs(want) > 1e-6
                    ctx.ok(bool(np.all((np.array(hard.decode(r.copy())) == (want < 0))[sharp])), key + "/hard", f"case {i}: hard decisions differ from the signs of the L-values")
                    ctx.outcome((key, float(np.round(want.sum(), 5))))
    ctx.sample(spec.name)


def tasks(tier):
    T = tier == "thorough"
    specs = conv.small_specs(False)
    one = [s for s in specs if s.k == 1]
    two = [s for s in specs if s.k == 2]
    out = [("reject", t_reject, {})]
    named = conv.named_specs()
    for s in named:
        if s.name.startswith("LowRateConvolutionalCode([79"):
            continue
        out.append((f"named/{s.name}", t_bcjr, dict(specs=[s], hs=(1, 2, 3) if s.k < 3 else (1, 2), budget=700 if T else 100)))
    out.append(("long/self-test", trellis.self_test, {}))
    for s in trellis.long_specs(conv):
        if s.name.startswith("LowRateConvolutionalCode([79") and not T:
            continue
        out.append((f"long/{s.name}", t_long, dict(spec=s, hs=(20, 65, 150, 300) if not T else (15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 300))))
    step = 16
    if not T:
        one = one[::2]
        two = two[::8] + two[-12:]
    for i in range(0, len(one), step):
        out.append((f"k1/{i}", t_bcjr, dict(specs=one[i : i + step], hs=(1, 2, 3), budget=700 if T else 90)))
    for i in range(0, len(two), step):
        out.append((f"k2/{i}", t_bcjr, dict(specs=two[i : i + step], hs=(1, 2), budget=300 if T else 70)))
    return out
