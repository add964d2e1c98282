"""C10: Mealy and Moore machines: running them, Viterbi, streaming Viterbi and forward-backward agree with
enumeration of every path, for every small machine (parallel edges, unreachable states, ties included)."""

import itertools
import math

import numpy as np

import komm

from . import ref, trellis
from .core import short

ASSUMPTIONS = ["metric values over two fixed tables (one generic, one with ties) and three observation symbols"]

# metric tables [output][observation]; the second has ties everywhere
GEN = [[0.0, 1.37, 2.91], [1.113, 0.05, 0.71], [2.33, 1.9, 0.004]]
TIE = [[0.0, 1.0, 2.0], [1.0, 0.0, 1.0], [2.0, 1.0, 0.0]]


def machines(S, X, Y, canonical):
    """All machines with S states, X inputs, outputs below Y (optionally one per relabelling class of the transition structure)."""
    seen = set()
    for T in itertools.product(range(S), repeat=S * X):
        if canonical:
            forms = []
            for p in itertools.permutations(range(S)):
                inv = {b: a for a, b in enumerate(p)}
                forms.append(tuple(inv[T[p[s] * X + x]] for s in range(S) for x in range(X)))
            c = min(forms)
            if c in seen:
                continue
            seen.add(c)
        for O in itertools.product(range(Y), repeat=S * X):
            yield np.array(T).reshape(S, X), np.array(O).reshape(S, X)


def paths(T, O, L):
    """(start, inputs, outputs, states) of every path of length L."""
    S, X = T.shape
    out = []
    for s in range(S):
        for xs in itertools.product(range(X), repeat=L):
            st, ys = [s], []
            for x in xs:
                ys.append(int(O[st[-1], x]))
                st.append(int(T[st[-1], x]))
            out.append((s, xs, tuple(ys), tuple(st)))
    return out


def judge(ctx, T, O, L, zs_list, key):
    S, X = T.shape
    with ctx.guard(key):
        m = komm.MealyMachine(T.tolist(), O.tolist())
        ctx.ok((m.num_states, m.num_input_symbols, m.num_output_symbols) == (S, X, int(O.max()) + 1), key, "sizes")
        ie, oe = np.array(m.input_edges), np.array(m.output_edges)
        for a in range(S):
            for b in range(S):
                xs = [x for x in range(X) if T[a, x] == b]
                if xs:
                    ctx.ok(int(ie[a, b]) in xs and int(oe[a, b]) == int(O[a, int(ie[a, b])]) if int(ie[a, b]) in xs else False, key, f"edge {a}->{b}: input {ie[a, b]}, output {oe[a, b]}")
                else:
                    ctx.ok(ie[a, b] == -1 and oe[a, b] == -1, key, f"no edge {a}->{b} but labelled")
        P = paths(T, O, L)
        for s, xs, ys, st in P:
            out, fin = m.process(list(xs), s)
            ctx.ok(tuple(np.array(out).tolist()) == ys and fin == st[-1], key, f"process({xs}, {s}) = {short(out)}, {fin}; expected {ys}, {st[-1]}")
        ctx.step(len(P))
        A = [(s, xs, ys, st) for s, xs, ys, st in P]
        for zs, tab, init in zs_list:
            cost = {}
            for s, xs, ys, st in A:
                cost[s, xs] = (init[s] if init else 0.0) + sum(tab[y][z] for y, z in zip(ys, zs))
            best = [min([cost[s, xs] for s, xs, _, st in A if st[-1] == f], default=math.inf) for f in range(S)]
            hat, fm = m.viterbi(list(zs), lambda y, z: tab[y][z], None if init is None else init[:S])
            hat, fm = np.array(hat), np.array(fm)
            ctx.step()
            ctx.ok(hat.shape == (L, S) and fm.shape == (S,), key, "viterbi shapes")
            for f in range(S):
                if not (fm[f] == best[f] or abs(fm[f] - best[f]) < 1e-9):
                    ctx.fail(key, f"viterbi z={zs}: final metric of state {f} is {fm[f]}, least is {best[f]}")
                elif best[f] < math.inf:
                    xs = tuple(hat[:, f].tolist())
                    c = min([cost[s, xs] for s, x2, _, st in A if x2 == xs and st[-1] == f], default=math.inf)
                    ctx.ok(c <= best[f] + 1e-9, key, f"viterbi z={zs}: inputs {xs} for final state {f} cost {c}, optimum {best[f]}")
            ctx.state()
            ctx.trace()
            ctx.outcome((best, zs))


def observations(L, init_variants):
    zs = list(itertools.product(range(3), repeat=L))
    return [(z, tab, init) for z in zs for tab in (GEN, TIE) for init in init_variants]


def t_viterbi(ctx, S, X, Y, L, canonical, part, parts, thin):
    ctx.bound("machines", f"{S} states x {X} inputs x {Y} outputs{' up to state renaming' if canonical else ''}")
    ctx.bound("length", L)
    obs = observations(L, (None, [0.0, math.inf, math.inf][:S] + [], [0.4, 0.0, 2.2][:S]))
    for i, (T, O) in enumerate(machines(S, X, Y, canonical)):
        if i % parts != part:
            continue
        ctx.at(T.tolist(), O.tolist())
        judge(ctx, T, O, L, obs[(i // parts) % thin :: thin], f"mealy/{T.tolist()}/{O.tolist()}")
    ctx.sample({"T": T, "O": O})


def posterior(P, zs, tab, prior, pi, pf, L, X):
    acc = [[-math.inf] * X for _ in range(L)]
    for s, xs, ys, st in P:
        p = pi[s] * pf[st[-1]] * math.prod(prior[t][x] for t, x in enumerate(xs))
        if p <= 0:
            continue
        w = math.log(p) + sum(tab[y][z] for y, z in zip(ys, zs))
        for t, x in enumerate(xs):
            acc[t][x] = ref.logsumexp([acc[t][x], w])
    if acc[0] == [-math.inf] * X:
        return None
    out = []
    for row in acc:
        m = ref.logsumexp(row)
        out.append([math.exp(v - m) for v in row])
    return np.array(out)


def t_fb(ctx, S, X, Y, L, canonical, part, parts, thin):
    """Forward-backward posteriors against summation over all paths."""
    ctx.bound("machines", f"{S} states x {X} inputs x {Y} outputs{' up to state renaming' if canonical else ''}")
    tabs = [[[-v for v in r] for r in GEN], [[20 * v - 11 for v in r] for r in GEN], [[-1000 * v for v in r] for r in GEN]]
    pri = [None, [[0.2, 0.8, 0.5][:X], [0.55, 0.45, 0.1][:X], [1.0, 0.0, 0.0][:X], [0.3, 0.6, 0.1][:X]][:L]]
    dists = [None, [1.0, 0.0, 0.0][:S], [0.25, 0.6, 0.15][:S], [0.0, 0.0, 1.0][-S:]]
    cases = [(z, tab, p, a, b) for z in itertools.product(range(3), repeat=L) for tab in tabs for p in pri for a in dists for b in dists]
    norm = lambda r: [v / sum(r) for v in r]
    pri[1] = [norm(r) for r in pri[1]]
    cases = [(z, tab, None if p is None else pri[1], a and norm(a), b and norm(b)) for z, tab, p, a, b in cases]
    for i, (T, O) in enumerate(machines(S, X, Y, canonical)):
        if i % parts != part:
            continue
        key = f"fb/{T.tolist()}/{O.tolist()}"
        ctx.at(key)
        with ctx.guard(key):
            m = komm.MealyMachine(T.tolist(), O.tolist())
            P = paths(T, O, L)
            for z, tab, p, a, b in cases[(i // parts) % thin :: thin]:
                want = posterior(P, z, tab, p or [[1.0 / X] * X] * L, a or [1.0 / S] * S, b or [1.0 / S] * S, L, X)
                ctx.state()
                if want is None:
                    continue
                got = np.array(m.forward_backward(list(z), lambda y, zz: tab[y][zz], p, a, b))
                ctx.step()
                ctx.trace()
                ctx.close(got, want, key, f"z={z} priors={p} initial={a} final={b}")
                ctx.outcome(tuple(np.round(want.ravel(), 6)))
    ctx.sample({"T": T, "O": O})


def t_stream(ctx, S, X, Y, L, canonical, part, parts, thin):
    """Streaming Viterbi: the symbol emitted at time t lies on an optimal path up to t, in all cuttings of the stream."""
    ctx.bound("machines", f"{S} states x {X} inputs x {Y} outputs{' up to state renaming' if canonical else ''}")
    ctx.bound("stream length", L)
    for i, (T, O) in enumerate(machines(S, X, Y, canonical)):
        if i % parts != part:
            continue
        key = f"stream/{T.tolist()}/{O.tolist()}"
        ctx.at(key)
        with ctx.guard(key):
            m = komm.MealyMachine(T.tolist(), O.tolist())
            P = paths(T, O, L)
            zlist = list(itertools.product(range(3), repeat=L))
            for zi, zs in enumerate(zlist):
                if (zi + i) % thin:
                    continue
                tab = GEN if (zi + i) % 2 else TIE
                tau = 1 + (zi + i) % (L - 1)
                s0 = (zi + i // 2) % S
                # optimal sets per time
                good = []
                for t in range(1, L + 1):
                    pref = {xs[:t]: sum(tab[y][z] for y, z in zip(ys[:t], zs[:t])) for s, xs, ys, st in P if s == s0}
                    best = min(pref.values())
                    good.append({xs[t - 1 - tau] for xs, c in pref.items() if c <= best + 1e-9} if t - 1 - tau >= 0 else None)
                for cut in range(L):
                    mem = {"paths": np.full((S, tau + 1), s0), "metrics": np.full((S, tau + 1), np.inf)}
                    mem["metrics"][s0, -1] = 0.0
                    out = []
                    for piece in ([zs[:cut], zs[cut:]] if cut else [zs]):
                        out += np.array(m.viterbi_streaming(list(piece), lambda y, z: tab[y][z], mem)).tolist()
                    ctx.step()
                    ctx.ok(len(out) == L, key, "number of emitted symbols")
                    for t in range(tau, L):
                        ctx.ok(out[t] in good[t], key, f"z={zs} tau={tau} start={s0} cut={cut}: symbol {out[t]} emitted at time {t} is not on an optimal path {sorted(good[t])}")
                    if cut == 0:
                        whole = out
                    ctx.ok(out == whole, key, f"z={zs} tau={tau}: cutting at {cut} changed the output {whole} to {out}")
                ctx.state()
                ctx.trace()
                ctx.outcome((whole, tau))
    ctx.sample({"T": T, "O": O})


def t_moore(ctx, S, X, Y, L):
    ctx.bound("machines", f"all Moore machines with {S} states, {X} inputs, {Y} outputs; all inputs up to {L}")
    for T in itertools.product(range(S), repeat=S * X):
        T = np.array(T).reshape(S, X)
        for O in itertools.product(range(Y), repeat=S):
            key = f"moore/{T.tolist()}/{O}"
            with ctx.guard(key):
                m = komm.MooreMachine(T.tolist(), list(O))
                ctx.ok((m.num_states, m.num_input_symbols, m.num_output_symbols) == (S, X, max(O) + 1), key, "sizes")
                for s in range(S):
                    for xs in ref.seqs(range(X), L):
                        if len(xs) not in (0, L):
                            continue
                        st, ys = s, []
                        for x in xs:
                            st = int(T[st, x])
                            ys.append(O[st])
                        out, fin = m.process(np.array(xs, dtype=int), s)
                        ctx.ok(np.array(out).tolist() == ys and fin == st, key, f"process({xs}, {s}) = {short(out)}, {fin}; expected {ys}, {st}")
                        ctx.step()
                ctx.state()
                ctx.trace()
                ctx.outcome((T.tolist(), O))
    ctx.sample(key)


def large(S, X, Y, seed):
    """An irregular machine: every state and output below its bound occurs."""
    T = trellis.pattern(S * X, seed, 1, S).reshape(S, X)
    O = trellis.pattern(S * X, seed + 1, 2, Y).reshape(S, X)
    T[:, 0] = (np.arange(S) * 2 + 1) % S if seed % 2 else (np.arange(S) + 1) % S
    O.flat[:Y] = np.arange(Y)[::-1] if S * X >= Y else O.flat[:Y]
    return T, O


def t_large(ctx, S, X, Y, seeds, lengths):
    """Larger machines and long observation sequences against dynamic programming."""
    ctx.bound("machines", f"{len(seeds)} irregular machines with {S} states, {X} inputs, {Y} outputs")
    ctx.bound("lengths", list(lengths))
    for seed in seeds:
        T, O = large(S, X, Y, seed)
        key = f"large/{S}x{X}x{Y}/{seed}"
        tr = trellis.Trellis(T, O)
        with ctx.guard(key):
            m = komm.MealyMachine(T.tolist(), O.tolist())
            for L in lengths:
                ctx.at(key, L)
                xs = trellis.pattern(L, seed + 3, 5, X)
                s0 = seed % S
                fin, ys = tr.run(s0, xs)
                got, f = m.process(xs.tolist(), s0)
                ctx.ok(np.array_equal(got, ys) and f == fin, key, f"process of {L} inputs")
                for gi, zs in enumerate([np.array(ys), np.where(trellis.pattern(L, 4, seed, 4) == 0, trellis.pattern(L, 5, 1, Y), ys), trellis.pattern(L, 6, 7, Y)]):
                    for tie in (False, True, None):
                        w = (lambda y, z: float((y != z) * 2.0**10 * (1 + (y * z) % 3) + 1.0 + ((y * 7 + z * 11) % 13) * 2.0**-30)) if tie is None else (lambda y, z: float((y - z) % Y != 0)) if tie else (lambda y, z: math.sqrt(1.0 + (y * 7 + z * 11) % 13) * (y != z) + 0.01 * y)
                        tab = np.array([[w(y, z) for y in range(Y)] for z in range(Y)])  # [z][y]
                        costs = [tab[z] for z in zs]
                        for init in (None, [0.0 if s == s0 else math.inf for s in range(S)], [0.375 * (s % 5) for s in range(S)]):
                            best = tr.least(init or [0.0] * S, costs)
                            hat, fm = m.viterbi(zs.tolist(), w, init)
                            hat, fm = np.array(hat), np.array(fm)
                            ctx.step()
                            ctx.state()
                            ctx.trace()
                            tol = trellis.EXACT if tie is None else 1e-9 * (1 + L)
                            for fs in range(S):
                                if not (fm[fs] == best[fs] or abs(fm[fs] - best[fs]) < tol):
                                    ctx.fail(key, f"length {L}, observations {gi}: final metric of state {fs} is {fm[fs]}, least is {best[fs]}")
                                elif best[fs] < math.inf and fs in (0, S // 2, S - 1, fin):
                                    c = min((cc + (init[s] if init else 0.0) for s in range(S) if (init is None or init[s] < math.inf) for e, cc in [tr.cost(s, hat[:, fs], costs)] if e == fs), default=math.inf)
                                    ctx.ok(c <= best[fs] + tol, key, f"length {L}, observations {gi}: path to state {fs} costs {c}, optimum {best[fs]}")
                            ctx.outcome((key, L, gi, tie, float(np.round(best[best < math.inf].sum(), 6))))
                        for tau in (1, 5, 16, 33):
                            if tau >= L or (tau * 4 < L and tau == 1 and gi):
                                continue
                            good = tr.windows([0.0 if s == s0 else math.inf for s in range(S)], costs, tau, trellis.EXACT if tie is None else 1e-9 * (1 + L))
                            whole = None
                            for cut in (L, 1, 7, 32):
                                mem = {"paths": np.full((S, tau + 1), s0), "metrics": np.full((S, tau + 1), np.inf)}
                                mem["metrics"][s0, -1] = 0.0
                                out = []
                                for a in range(0, L, cut):
                                    out += np.array(m.viterbi_streaming(zs[a : a + cut].tolist(), w, mem)).tolist()
                                ctx.step()
                                ctx.ok(len(out) == L, key, "number of emitted symbols")
                                whole = whole or out
                                ctx.ok(out == whole, key, f"length {L}, tau {tau}: calls of {cut} observations change the output")
                            for t in range(tau, min(L, len(whole))):
                                ctx.ok(whole[t] in good[t], key, f"length {L}, observations {gi}, tau {tau}: symbol {whole[t]} at time {t} is on no best path {sorted(good[t])}")
                            ctx.state()
                            ctx.trace()
                    sharp = np.array([[1.3 * math.cos(1.0 + y * 3 + z * 5) + 1.5 * (y == z) for y in range(Y)] for z in range(Y)])
                    pri = np.array([[1.0 + (t * 3 + x * (t % 4)) % 5 for x in range(X)] for t in range(L)])
                    pri /= pri.sum(axis=1, keepdims=True)
                    d0 = np.array([1.0 + (s * s) % 4 for s in range(S)])
                    d0 /= d0.sum()
                    point = np.zeros(S)
                    point[fin] = 1.0
                    zero = np.zeros(S)
                    zero[s0] = 1.0
                    for p, a, b in ((None, None, None), (pri, zero, point), (pri, d0, None), (None, zero, d0), (None, d0, d0[::-1].copy())):
                        with np.errstate(divide="ignore"):
                            want = np.exp(tr.posteriors([sharp[z] for z in zs], None if p is None else np.log(p), None if a is None else np.log(a), None if b is None else np.log(b)))
                        if np.isnan(want).any():
                            continue
                        got = np.array(m.forward_backward(zs.tolist(), lambda y, z: sharp[z][y], p, a, b))
                        ctx.step()
                        ctx.state()
                        ctx.trace()
                        ctx.close(got, want, key, f"posteriors of {L} observations", 1e-7)
                        ctx.outcome((key, L, gi, float(np.round((want**2).sum(), 5))))
    ctx.sample({"T": T, "O": O})


def t_wide(ctx, S, X, Y):
    """Machines with more inputs, states or outputs than one or two bytes count; dyadic metrics, judged exactly."""
    ctx.bound("machines", f"{S} states, {X} inputs, {Y} outputs; six observations")
    T, O = large(S, X, Y, 3)
    key = f"wide/{S}x{X}x{Y}"
    ctx.at(key)
    s0 = min(1, S - 1)
    with ctx.guard(key):
        m = komm.MealyMachine(T.tolist(), O.tolist())
        xs = [X - 1, X // 2, 0, min(X - 1, 256), min(X - 1, 65536), X - 2]
        st, ys, states = s0, [], []
        for x in xs:
            ys.append(int(O[st, x]))
            st = int(T[st, x])
            states.append(st)
        got, f = m.process(xs, s0)
        ctx.ok(np.array_equal(got, ys) and int(f) == st, key, f"process of {xs}: {short(got)}, state {f}")
        mo = komm.MooreMachine(T.tolist(), np.arange(S)[::-1].tolist())
        got, f = mo.process(xs, s0)
        ctx.ok(np.array_equal(got, S - 1 - np.array(states)) and int(f) == st, key, f"Moore process of {xs}: {short(got)}, state {f}")
        w = lambda y, z: abs(float(y) - z)
        step = [np.abs(O - z).astype(float) for z in ys]
        for zs, costs in ((ys, step), ([ys[0], Y - 1, 0, Y // 2, ys[4], ys[5]], None)):
            costs = costs or [np.abs(O - z).astype(float) for z in zs]
            for init in (None, [0.0 if s == s0 else math.inf for s in range(S)]):
                best = np.array(init or [0.0] * S)
                for c in costs:
                    nxt = np.full(S, math.inf)
                    np.minimum.at(nxt, T.ravel(), (best[:, None] + c).ravel())
                    best = nxt
                hat, fm = (np.array(a) for a in m.viterbi(list(zs), w, init))
                ctx.ok(np.array_equal(fm, best), key, f"final metrics {short(fm)}, least costs {short(best)}")
                for fs in {0, S // 2, S - 1, st, int(np.argmin(best))}:
                    if best[fs] < math.inf:
                        least = math.inf
                        for s in range(S) if init is None else [s0]:
                            a, total = s, 0.0
                            for t, x in enumerate(hat[:, fs].tolist()):
                                if not 0 <= x < X:
                                    total = math.nan
                                    break
                                total += costs[t][a, x]
                                a = int(T[a, x])
                            if a == fs and total < least:
                                least = total
                        ctx.ok(least == best[fs], key, f"path {short(hat[:, fs])} to state {fs} costs {least}, optimum {best[fs]}")
                ctx.step()
                ctx.state()
                ctx.trace()
                ctx.outcome((key, short(best)))
            tau = 2
            mem = {"paths": np.full((S, tau + 1), s0), "metrics": np.full((S, tau + 1), np.inf)}
            mem["metrics"][s0, -1] = 0.0
            out = np.array(m.viterbi_streaming(list(zs), w, mem)).tolist()
            good = stream_best(T, costs, s0, tau)
            for t in range(tau, len(zs)):
                ctx.ok(out[t] in good[t], key, f"tau {tau}: symbol {out[t]} at time {t} is on no best path")
            ctx.step()
            sharp = lambda y, z: -abs(float(y) - z) / 4
            alpha, beta = [np.full(S, 1.0)], [np.full(S, 1.0)]
            g = [np.exp(-c / 4) for c in costs]
            for t in range(len(zs)):
                a = np.zeros(S)
                np.add.at(a, T.ravel(), (alpha[-1][:, None] * g[t]).ravel())
                alpha.append(a / a.sum())
                b = (g[-1 - t] * beta[0][T]).sum(axis=1)
                beta.insert(0, b / b.sum())
            want = np.array([(alpha[t][:, None] * g[t] * beta[t + 1][T]).sum(axis=0) for t in range(len(zs))])
            want /= want.sum(axis=1, keepdims=True)
            got = np.array(m.forward_backward(list(zs), sharp))
            ctx.close(got, want, key, "posteriors", 1e-9)
            ctx.step()
            ctx.trace()
    ctx.sample({"S": S, "X": X, "Y": Y})


def stream_best(T, costs, s0, tau):
    """good[t]: inputs at time t - tau that lie on a best path to the best state at time t."""
    S = len(T)
    fwd = [np.where(np.arange(S) == s0, 0.0, math.inf)]
    for c in costs:
        nxt = np.full(S, math.inf)
        np.minimum.at(nxt, T.ravel(), (fwd[-1][:, None] + c).ravel())
        fwd.append(nxt)
    good = {}
    for t in range(tau, len(costs)):
        best = fwd[t + 1].min()
        back = np.where(fwd[t + 1] == best, 0.0, math.inf)
        for j in range(t, t - tau, -1):
            back = (costs[j] + back[T]).min(axis=1)
        j = t - tau
        good[t] = set(np.flatnonzero((fwd[j][:, None] + costs[j] + back[T] == best).any(axis=0)).tolist())
    return good


def t_long(ctx, S, X, Y, process, decode):
    """Long inputs and large machines: simulation, and the algorithms on thousands of observations (dyadic metrics, judged exactly)."""
    ctx.bound("lengths", f"{process} inputs simulated; {decode} observations decoded")
    for seed in range(3):
        T, O = large(S, X, Y, seed)
        key = f"long/{S}x{X}x{Y}/{seed}"
        ctx.at(key)
        tr = trellis.Trellis(T, O)
        with ctx.guard(key):
            m = komm.MealyMachine(T.tolist(), O.tolist())
            mo = komm.MooreMachine(T.tolist(), O[:, 0].tolist())
            xs = trellis.pattern(process, seed, 3, X)
            for s0 in {0, S - 1, S // 2}:
                st, states = s0, []
                for x in xs.tolist():
                    states.append(st)
                    st = int(T[st, x])
                states.append(st)
                st = np.array(states)
                for dt in (np.int64, np.uint8):
                    y, f = m.process(xs.astype(dt), s0)
                    ctx.ok(np.array_equal(y, O[st[:-1], xs]) and f == st[-1], key, f"process of {process} inputs from {s0}")
                y, f = mo.process(xs, s0)
                ctx.ok(np.array_equal(y, O[st[1:], 0]) and f == st[-1], key, f"Moore process of {process} inputs from {s0}")
                a = process // 3
                y1, f1 = m.process(xs[:a], s0)
                y2, f2 = m.process(xs[a:], f1)
                ctx.ok(np.array_equal(np.concatenate([y1, y2]), O[st[:-1], xs]) and f2 == st[-1], key, "process in two pieces")
                ctx.step(4)
                ctx.state()
                ctx.trace()
            ys = np.array(tr.run(seed % S, trellis.pattern(decode, seed + 3, 5, X))[1])
            zs = np.where(trellis.pattern(decode, 4, seed, 4) == 0, trellis.pattern(decode, 5, 1, Y), ys)
            for kind in ("shifted", "forbidden"):
                w = (lambda y, z: 64.0 * (y != z) - 100.0 + ((y * 7 + z * 11) % 13) * 2.0**-20) if kind == "shifted" else (lambda y, z: math.inf if (y + 2 * z) % 5 == 4 and y != z else float((y * z) % 3 + (y != z)))
                tab = np.array([[w(y, z) for y in range(Y)] for z in range(Y)])
                costs = [tab[z] for z in zs]
                for init in ([-(2.0**12) + 3.0 * s for s in range(S)], [0.0 if s == seed % S else math.inf for s in range(S)]):
                    best = tr.least(init, costs)
                    hat, fm = (np.array(a) for a in m.viterbi(zs.tolist(), w, init))
                    ctx.step()
                    ctx.state()
                    ctx.trace()
                    ctx.ok(np.array_equal(fm, best), key, f"{kind}: final metrics {short(fm)}, least costs {short(best)}")
                    for fs in {0, S // 2, S - 1, int(np.argmin(best))}:
                        if best[fs] < math.inf:
                            c = min((cc + init[s] for s in range(S) if init[s] < math.inf for e, cc in [tr.cost(s, hat[:, fs], costs)] if e == fs), default=math.inf)
                            ctx.ok(c == best[fs], key, f"{kind}: path to state {fs} costs {c}, optimum {best[fs]}")
                    ctx.outcome((key, kind, short(best)))
            if S <= 8:
                sharp = np.array([[40.0 * math.cos(1.0 + y * 3 + z * 5) + 30.0 * (y == z) for y in range(Y)] for z in range(Y)])
                want = np.exp(tr.posteriors([sharp[z] for z in zs], None, None, None))
                got = np.array(m.forward_backward(zs.tolist(), lambda y, z: sharp[z][y]))
                ctx.close(got, want, key, f"posteriors of {decode} observations", 1e-6)
                ctx.step()
                ctx.trace()
    ctx.sample({"S": S, "X": X, "Y": Y})


def tasks(tier):
    Th = tier == "thorough"
    out = []
    out.append(("moore/2x2x2", t_moore, dict(S=2, X=2, Y=2, L=4)))
    out.append(("moore/3x2x2", t_moore, dict(S=3, X=2, Y=2, L=3)))
    out.append(("large/self-test", trellis.self_test, {}))
    for S, X, Y in [(4, 2, 4), (5, 3, 4), (9, 2, 3), (17, 4, 8), (33, 2, 4), (64, 2, 4), (6, 5, 7), (3, 8, 9)]:
        for seed in range(2 if not Th else 6):
            out.append((f"large/{S}x{X}x{Y}/{seed}", t_large, dict(S=S, X=X, Y=Y, seeds=[seed], lengths=((20, 70) if S < 30 else (40,)) if not Th else (9, 17, 33, 64, 129, 300))))
    for S, X, Y, p, d in [(2, 2, 3, 20000, 2500), (5, 3, 4, 5000, 1200), (300, 2, 5, 5000, 40), (700, 3, 300, 3000, 12)]:
        out.append((f"long/{S}x{X}x{Y}", t_long, dict(S=S, X=X, Y=Y, process=p * (5 if Th else 1), decode=d * (3 if Th else 1))))
    for S, X, Y in [(1, 300, 300), (2, 300, 7), (3, 129, 130), (300, 3, 5), (2, 257, 66000), (2, 66000, 300)]:
        out.append((f"wide/{S}x{X}x{Y}", t_wide, dict(S=S, X=X, Y=Y)))
    shapes = [(1, 2, 2, 3, False, 1, 1), (1, 3, 3, 3, False, 1, 1), (2, 2, 2, 3, False, 2, 1), (2, 1, 3, 3, False, 1, 1), (2, 2, 3, 3, False, 4, 4), (2, 3, 2, 2, False, 4, 4), (3, 1, 2, 4, False, 2, 5), (3, 2, 2, 3, True, 16, 20)]
    if Th:
        shapes = [(1, 2, 3, 4, False, 1, 1), (1, 3, 3, 3, False, 1, 1), (2, 2, 2, 4, False, 4, 1), (2, 2, 3, 3, False, 8, 1), (2, 3, 2, 3, False, 16, 6), (3, 1, 3, 4, False, 4, 2), (3, 2, 2, 3, False, 24, 27)]
    for S, X, Y, L, can, parts, thin in shapes:
        for j in range(parts):
            kw = dict(S=S, X=X, Y=Y, L=L, canonical=can, part=j, parts=parts)
            out.append((f"viterbi/{S}x{X}x{Y}/{j}", t_viterbi, dict(kw, thin=thin)))
            out.append((f"fb/{S}x{X}x{Y}/{j}", t_fb, dict(kw, thin=thin * 5)))
            kw2 = dict(kw, L=max(3, L) + (1 if Th else 0))
            out.append((f"stream/{S}x{X}x{Y}/{j}", t_stream, dict(kw2, thin=max(1, thin // 2))))
    return out
