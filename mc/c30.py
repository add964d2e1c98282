"""C30: answers depend on the object and the arguments only: not on the calls made before on the same object, on other
objects of the same kind, or on objects that share parts; answers of operations are the caller's own."""

import copy
import itertools
import os
import pickle
import signal

import numpy as np

import komm

from . import catalog as C
from .core import short

ASSUMPTIONS = [
    "arrays handed to a constructor, and arrays returned by attributes and argument-less methods (which are cached by design), are "
    "not modified by the caller; arrays returned by operations with arguments may be",
    "random operations (transmit, emit, simulate) are excluded here; their dependence on the generator only is decided by C22 and C24",
]
OPERATIONS = {"encode", "decode", "state", "row", "col", "i2b", "b2i"}
RANDOM = {"emit()", "simulate()", "transmit()"}


def calls_of(o, extra):
    d = {**C.discovered(type(o)), **extra, "repr": lambda x: repr(x).split(" object at 0x")[0]}
    return {k: f for k, f in d.items() if k not in RANDOM}


def apart(fn):
    """fn() computed in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as h:
                pickle.dump(fn(), h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data)


def scribbled(fn, o):
    """The answer; the arrays that came with it are then changed, as a caller may do."""
    keep = []

    def asked(o):
        keep.append(fn(o))
        return keep[0]

    got = C.answer(asked, o)
    for v in keep:
        for a in v if isinstance(v, (tuple, list)) else [v]:
            if isinstance(a, np.ndarray) and a.size and a.dtype.kind in "biufc" and a.flags.writeable:
                a[...] = ~a if a.dtype == bool else a + 1
    return got


def answers(make, extra):
    out = {}
    for k, f in calls_of(make(), extra).items():
        out[k] = C.answer(f, make())
    return out


def tables(entries, single=False):
    """name -> label -> (call, answer on a fresh object in a fresh process).  To be called before anything else is done in
    this process, so that nothing that was computed for another object (or, with single, for another call) is left behind."""
    out = {}
    for name, make, extra in entries:
        if single:
            labels = apart(lambda: list(calls_of(make(), extra)))
            out[name] = {k: apart(lambda k=k: C.answer(calls_of(make(), extra)[k], make())) for k in labels}
        else:
            out[name] = apart(lambda: answers(make, extra))
    for name, make, extra in entries:
        calls = calls_of(make(), extra)
        out[name] = {k: (calls[k], v) for k, v in out[name].items()}
    return out


def t_history(ctx, depth, part, parts, budget):
    """All histories of calls of length <= depth on one object."""
    ctx.bound("length of histories", f"{depth}, where it takes at most {budget} calls; 2 otherwise")
    mine = C.entries()[part::parts]
    with ctx.guard("fresh answers"):
        fresh = tables(mine, single=True)
    for name, make, extra in mine:
        with ctx.guard(name):
            T = fresh[name]
            names = list(T)
            for k in names:
                if isinstance(T[k][1], tuple) and T[k][1] and T[k][1][0] == "raises":
                    ctx.outcome(f"{name}.{k} raises {T[k][1][1]}")
            d = depth
            while d > 2 and len(names) ** d > budget:
                d -= 1
            for seq in itertools.product(names, repeat=d):
                o = make()
                ctx.state()
                for j, k in enumerate(seq):
                    f, want = T[k]
                    got = (scribbled if k in extra else C.answer)(f, o)
                    ctx.step()
                    if not C.same(got, want):
                        ctx.fail(f"{name}/{'>'.join(seq[:j + 1])}", f"answer of {k} after {seq[:j]} is {short(got)}, on a fresh object {short(want)}")
                        break
                ctx.trace()
            # one long history: every call, in order, twice, then backwards
            o = make()
            for k in names + names + names[::-1]:
                ctx.step()
                f, want = T[k]
                got = (scribbled if k in extra else C.answer)(f, o)
                ctx.ok(C.same(got, want), f"{name}/long/{k}", f"answer after a long history is {short(got)}, on a fresh object {short(want)}")


def t_neighbours(ctx, part, parts):
    """Calls on one object between calls on another object of the same class or family."""
    E = C.entries()
    with ctx.guard("fresh answers"):
        tabs = tables(E)
    fam = {}
    for n, make, extra in E:
        fam.setdefault(type(make()).__name__, []).append((n, make, extra))
    groups = list(fam.values())
    block = [e for e in E if isinstance(e[1](), komm.abc.BlockCode)]
    cons = [e for e in E if isinstance(e[1](), komm.abc.Constellation)]
    conv = [e for e in E if isinstance(e[1](), komm.abc.ConvolutionalCode)]
    seqs = [e for e in E if isinstance(e[1](), (komm.BinarySequence, komm.ComplexSequence)) or "Sequence" in e[0]]
    pulses = [e for e in E if "Pulse" in e[0] or e[0].startswith("Root")]
    labs = [e for e in E if "Labeling" in e[0]]
    loss = [e for e in E if e[0].split("/")[0] in ("HuffmanCode", "ShannonCode", "FanoCode", "FixedToVariableCode", "TunstallCode", "VariableToFixedCode")]
    groups += [block, cons, conv, seqs, pulses, labs, loss]
    n = -1
    for g in groups:
        for (a, ma, xa), (b, mb, xb) in itertools.product(g, repeat=2):
            n += 1
            if n % parts != part:
                continue
            key = f"{a}~{b}"
            with ctx.guard(key):
                ctx.state()
                x, y = ma(), mb()
                common = [k for k in tabs[a] if k in tabs[b]] + [k for k in tabs[a] if k not in tabs[b]]
                for k in common:
                    for o, t in ((x, tabs[a]), (y, tabs[b]), (x, tabs[a])):
                        if k not in t:
                            continue
                        ctx.step()
                        got = (scribbled if k in xa and k in xb else C.answer)(t[k][0], o)
                        ctx.ok(C.same(got, t[k][1]), f"{key}/{k}", f"answer of {k} next to another object is {short(got)}, alone {short(t[k][1])}")
                ctx.trace()


def shared():
    """(name, part, users): objects built on one and the same part."""
    ham = lambda: komm.HammingCode(3)
    conv = lambda: komm.ConvolutionalCode([[0b111, 0b101]])
    two = lambda: komm.ConvolutionalCode([[0b11, 0b10, 0b11], [0b10, 0b1, 0b1]])
    w7 = [1, 0, 1, 1, 0, 0, 1]
    s7 = [1.5, -0.5, 2.0, -1.0, 0.25, -3.0, 1.0]

    def dec(w):
        return {"decode": lambda o: o.decode(w)}

    word = lambda n: [i % 3 % 2 for i in range(n)]
    soft = lambda n: [((-1) ** i) * (1 + i % 4) / 2 for i in range(n)]
    B = C._calls_block
    out = [
        ("HammingCode", ham, [
            ("self", lambda p: p, B(7, 4)), ("ExhaustiveHard", lambda p: komm.ExhaustiveSearchDecoder(p), dec(w7)), ("ExhaustiveSoft", lambda p: komm.ExhaustiveSearchDecoder(p, "soft"), dec(s7)),
            ("Syndrome", lambda p: komm.SyndromeTableDecoder(p), dec(w7)), ("Slepian", lambda p: komm.SlepianArray(p), {"row": lambda o: o.row(1), "col": lambda o: o.col(3)}),
        ]),
        ("ReedMullerCode", lambda: komm.ReedMullerCode(1, 3), [
            ("self", lambda p: p, B(8, 4)), ("ReedHard", lambda p: komm.ReedDecoder(p), dec(word(8))), ("ReedSoft", lambda p: komm.ReedDecoder(p, "soft"), dec(soft(8))), ("Exhaustive", lambda p: komm.ExhaustiveSearchDecoder(p), dec(word(8))),
        ]),
        ("PolarCode", lambda: komm.PolarCode(3, [0, 1, 2, 4]), [
            ("self", lambda p: p, B(8, 4)), ("SC", lambda p: komm.SCDecoder(p), dec(soft(8))), ("SChard", lambda p: komm.SCDecoder(p, output_type="hard"), dec(soft(8))), ("Exhaustive", lambda p: komm.ExhaustiveSearchDecoder(p), dec(word(8))),
        ]),
        ("BCHCode", lambda: komm.BCHCode(4, 7), [
            ("self", lambda p: p, B(15, 5)), ("Berlekamp", lambda p: komm.BerlekampDecoder(p), dec(word(15))), ("Syndrome", lambda p: komm.SyndromeTableDecoder(p), dec(word(15))),
        ]),
        ("SingleParityCheckCode", lambda: komm.SingleParityCheckCode(4), [
            ("self", lambda p: p, B(4, 3)), ("Wagner", lambda p: komm.WagnerDecoder(p), dec(soft(4))), ("Exhaustive", lambda p: komm.ExhaustiveSearchDecoder(p), dec(word(4))),
        ]),
        ("Natural", lambda: komm.NaturalLabeling(2), [
            ("self", lambda p: p, {"i2b": lambda o: o.indices_to_bits([1, 0, 3, 2])}), ("Product", lambda p: komm.ProductLabeling(p, p), {"i2b": lambda o: o.indices_to_bits([1, 7, 15])}),
            ("Product2", lambda p: komm.ProductLabeling(p, repeat=2), {"b2i": lambda o: o.bits_to_indices([1, 0, 1, 1])}),
        ]),
    ]
    enc = {"encode": lambda o: o.encode([1, 0, 1, 1, 0, 1] * 2), "state": lambda o: o.encode_with_state([1, 0, 1, 1], [1] * o.degree)}
    for nm, mk in (("ConvolutionalCode", conv), ("ConvolutionalCode/k=2", two)):
        users = [("self", lambda p: p, enc)]
        for mode in ("zero-termination", "direct-truncation", "tail-biting"):
            t = lambda p, mode=mode: komm.TerminatedConvolutionalCode(p, 3, mode)
            c = t(mk())
            users.append((mode, t, {"encode": lambda o: o.encode([1, 0, 1] * o.dimension), "G": lambda o: o.generator_matrix, "d": lambda o: o.minimum_distance()}))
            if mode != "tail-biting":
                users.append((f"Viterbi/{mode}", lambda p, t=t: komm.ViterbiDecoder(t(p)), dec(word(c.length))))
                users.append((f"BCJR/{mode}", lambda p, t=t: komm.BCJRDecoder(t(p)), dec(soft(c.length))))
        out.append((nm, mk, users))
    return out


def t_shared(ctx, part, parts):
    """All ordered pairs of calls on objects that share one part."""
    n = -1
    for name, mk, users in shared():
        with ctx.guard(name):
            T = []
            for u, build, extra in users:
                want = apart(lambda: {k: C.answer(f, build(mk())) for k, f in calls_of(build(mk()), extra).items()})
                for k, f in calls_of(build(mk()), extra).items():
                    T.append((u, build, k, f, want[k]))
            for a, b in itertools.product(T, repeat=2):
                n += 1
                if n % parts != part:
                    continue
                p = mk()
                oa = a[1](p)
                ob = oa if a[0] == b[0] else b[1](p)
                ctx.state()
                for u, k, f, want, o in ((*a[:1], *a[2:], oa), (*b[:1], *b[2:], ob), (*a[:1], *a[2:], oa)):
                    ctx.step()
                    got = (scribbled if k in OPERATIONS else C.answer)(f, o)
                    ctx.ok(C.same(got, want), f"{name}/{a[0]}.{a[2]}>{b[0]}.{b[2]}", f"answer of {u}.{k} is {short(got)}, with a part of its own {short(want)}")
                ctx.trace()


def t_streams(ctx, tier):
    """Stream decoders on one code do not share their state; neither do codes whose encoder is asked in between."""
    depth = 5 if tier == "thorough" else 4
    code = komm.ConvolutionalCode([[0b111, 0b101]])
    chunks = {"a": [1, 0, 1, 1], "b": [0, 0], "c": [1, 1, 1, 0, 0, 1]}
    mk = lambda t: komm.ViterbiStreamDecoder(code, t)
    for seq in itertools.product("abcABC", repeat=depth):
        ctx.state()
        x, y = mk(2), mk(3)
        got = {0: [], 1: []}
        for s in seq:
            code.encode([1, 0, 1])
            i = int(s.isupper())
            try:
                (x, y)[i].decode([1] * (2 * len(got[i]) + 1))
                ctx.fail(f"streams/{''.join(seq)}", "a stream that ends within a block is not refused")
            except ValueError:
                pass
            got[i].append(np.asarray((x, y)[i].decode(chunks[s.lower()])).tolist())
            ctx.step()
        for i, t in ((0, 2), (1, 3)):
            z = komm.ViterbiStreamDecoder(komm.ConvolutionalCode([[0b111, 0b101]]), t)
            want = [np.asarray(z.decode(chunks[s.lower()])).tolist() for s in seq if s.isupper() == bool(i)]
            ctx.ok(got[i] == want, f"streams/{''.join(seq)}", f"interleaved streams give {got[i]}, alone {want}")
        ctx.trace()


def t_answers(ctx):
    """Arrays returned by operations with arguments belong to the caller."""
    with ctx.guard("fresh answers"):
        fresh = tables(C.entries())
    for name, make, extra in C.entries():
        o = make()
        ctx.state()
        for k, f in extra.items():
            with ctx.guard(f"{name}/{k}"):
                v = f(o)
                vs = [v] if isinstance(v, np.ndarray) else [a for a in v if isinstance(a, np.ndarray)] if isinstance(v, (tuple, list)) else []
                for a in vs:
                    if a.size and a.dtype.kind in "biufc" and ctx.ok(a.flags.writeable, f"{name}/{k}", "the answer is not writeable"):
                        a[...] = ~a if a.dtype == bool else a + 1
                for k2, f2 in extra.items():
                    w2 = fresh[name][k2][1]
                    ctx.ok(C.same(C.answer(f2, o), w2) and C.same(C.answer(f2, make()), w2), f"{name}/{k}/{k2}", f"changing the array returned by {k} changes the answer of {k2}")
                    ctx.step()
        ctx.trace()


def t_copies(ctx):
    """Copies of an object (before or after it was used) give the same answers and are independent of it."""
    with ctx.guard("fresh answers"):
        fresh = tables(C.entries())
    for name, make, extra in C.entries():
        with ctx.guard(name):
            T = fresh[name]
            for how, cp in (("copy", copy.copy), ("deepcopy", copy.deepcopy)):
                for used in (False, True):
                    o = make()
                    ctx.state()
                    if used:
                        for k, (f, want) in T.items():
                            C.answer(f, o)
                    try:
                        q = cp(o)
                    except Exception as e:
                        ctx.fail(f"{name}/{how}/{used}", f"cannot be copied: {type(e).__name__}: {e}")
                        continue
                    for k, (f, want) in T.items():
                        ctx.step()
                        ctx.ok(C.same(C.answer(f, q), want), f"{name}/{how}/{used}/{k}", "answer of the copy differs")
                        ctx.ok(C.same(C.answer(f, o), want), f"{name}/{how}/{used}/{k}", "answer of the original differs after copying")
                    ctx.trace()


class Recorder:
    """Stands for an object; notes the calls of its methods."""

    def __init__(self, o, log):
        self.__dict__.update(_o=o, _log=log)

    def __getattr__(self, name):
        v = getattr(self._o, name)
        if not callable(v):
            return v

        def call(*args, **kwargs):
            self._log.append((name, args, kwargs))
            return v(*args, **kwargs)

        return call


def recorded(make, extra):
    """The calls with arguments that the operations of an entry make."""
    log = []
    for f in extra.values():
        try:
            f(Recorder(make(), log))
        except Exception:
            pass
    out, seen = [], set()
    for name, args, kwargs in log:
        if args and (name, repr(args)) not in seen:
            seen.add((name, repr(args)))
            out.append((name, args, kwargs))
    return out


def spoilt(a):
    """Variants of an argument, most of which have to be refused, early or late."""
    if isinstance(a, (list, np.ndarray)):
        L = np.asarray(a).tolist() if isinstance(a, np.ndarray) else list(a)
        yield from (L + [-1], L + [99], L + [0.5], L + [None], L + ["x"], L[:-1], L[:-1] + [-1], L[:-1] + [99], L + [1] * len(L), [L, L[:-1]], None, "x", [[L]], -1)
        if L and isinstance(L[0], (int, float)):
            yield [1 - x for x in L]
            yield L + [1 - x for x in L]
        if L and isinstance(L[0], tuple):
            yield L + [tuple(x + 99 if i == 0 else x for i, x in enumerate(L[0]))]
            yield L[:2] + [tuple(99 for _ in L[0])]
            yield L + [L[0] + (1,)]
    elif callable(a):
        for n in range(4):

            def fails(*x, left=[n]):
                if not left[0]:
                    raise ZeroDivisionError
                left[0] -= 1
                return a(*x)

            yield fails
    elif isinstance(a, int):
        yield from (-1, 99, 0, 0.5, None, [a])
    else:
        yield from (-1, 0, None, "x", float("nan"))


def t_refused(ctx, part, parts):
    """Calls that are refused, at once or after part of the work, leave no trace."""
    ctx.bound("refused calls", "every operation of every object, every argument replaced by spoilt ones; before and after the other calls")
    mine = [e for e in C.entries() if "StreamDecoder" not in e[0]][part::parts]
    with ctx.guard("fresh answers"):
        fresh = tables(mine)
    for name, make, extra in mine:
        with ctx.guard(name):
            T = fresh[name]
            for m, args, kwargs in recorded(make, extra):
                for i in range(len(args)):
                    for warm in (False, True):
                        key = f"{name}/refused/{m}/{i}/{warm}"
                        o = make()
                        ctx.state()
                        if warm:
                            for f, _ in T.values():
                                C.answer(f, o)
                        refused = 0
                        for bad in spoilt(args[i]):
                            ctx.step()
                            try:
                                getattr(o, m)(*args[:i], bad, *args[i + 1 :], **kwargs)
                            except Exception:
                                refused += 1
                        ctx.outcome(refused)
                        for k, (f, want) in T.items():
                            ctx.step()
                            got = C.answer(f, o)
                            ctx.ok(C.same(got, want), f"{key}/{k}", f"answer of {k} after refused calls of {m} is {short(got)}, on a fresh object {short(want)}")
                        ctx.trace()


def t_arguments(ctx):
    """Calls leave their arguments as they were, whatever their type and memory layout."""
    ctx.bound("arguments", "every array argument of every operation as integers, floats, in Fortran order, as a view of every second element, and as two rows")
    x, p = [1.5, -0.25, 3.0, 0.0, 2.0, -1.0], [0.5, 0.25, 0.125, 0.125]
    functions = {
        "autocorrelation": lambda o: o.autocorrelation(x), "shifts": lambda o: o.autocorrelation(x, [1, 0, -1, 7]), "normalized": lambda o: o.autocorrelation(x, [1, 0], True),
        "cyclic": lambda o: o.cyclic_autocorrelation(x, [1, 0, -1, 7]), "cyclic1": lambda o: o.cyclic_autocorrelation(x, [1, 0], True), "bits_to_int": lambda o: o.bits_to_int([1, 0, 0, 1], "MSB-first"),
        "int_to_bits": lambda o: o.int_to_bits([1, 0, 9], 4), "boxplus": lambda o: o.boxplus(x, x[::-1]), "convolve": lambda o: o.convolve(x, p), "same": lambda o: o.convolve(p, x, mode="same"),
        "entropy/rounded": lambda o: o.entropy([0.1] * 9 + [0.1 + 1e-9]), "relative/rounded": lambda o: o.relative_entropy([0.1] * 9 + [0.1 + 1e-9], [0.1] * 9 + [0.1 + 1e-9]), "entropy": lambda o: o.entropy(p), "entropy0": lambda o: o.entropy([0.0, 1.0], "e"), "relative": lambda o: o.relative_entropy(p, p[::-1], 3.0), "fourier": lambda o: o.fourier_transform(x, 0.5),
        "fourier8": lambda o: o.fourier_transform(x, 0.5, 8), "q": lambda o: o.gaussian_q(x), "qinv": lambda o: o.gaussian_q_inv(p), "marcum": lambda o: o.marcum_q(2, p, p), "compress": lambda o: o.sampling_rate_compress(x, 2, 1),
        "expand": lambda o: o.sampling_rate_expand(x, 2, 1),
    }
    rng = lambda: np.random.default_rng(7)
    random = [
        ("bsc", lambda: komm.BinarySymmetricChannel(0.5, rng()), [0, 1, 1, 0]), ("z", lambda: komm.ZChannel(0.5, rng()), [0, 1, 1, 0]), ("bec", lambda: komm.BinaryErasureChannel(0.5, rng()), [0, 1, 1, 0]),
        ("dmc", lambda: komm.DiscreteMemorylessChannel([[0.5, 0.5], [0.25, 0.75]], rng()), [0, 1, 1, 0]), ("gaussian", lambda: komm.GaussianChannel(2.0, rng()), x), ("gaussian/complex", lambda: komm.GaussianChannel(2.0, rng()), [1j, 2.0, 3 - 1j]),
    ]
    third = [1 / 3, 1 / 3, 1 / 3 + 1e-9]
    rounded = [
        ("bsc/mi", lambda: komm.BinarySymmetricChannel(0.3), {"mi": lambda o: o.mutual_information([0.1, 0.9 + 1e-9])}), ("dmc/mi", lambda: komm.DiscreteMemorylessChannel([third] * 3), {"mi": lambda o: o.mutual_information(third)}),
        ("huffman/rate", lambda: komm.HuffmanCode(third), {"rate": lambda o: o.rate(third)}), ("tunstall/rate", lambda: komm.TunstallCode(third, 3), {"rate": lambda o: o.rate(third)}),
    ]
    extras = [("functions", lambda: komm, functions)] + rounded + [(n, mk, {"transmit": lambda o, v=v: o.transmit(v)}) for n, mk, v in random]
    for name, make, extra in C.entries() + extras:
        for m, args, kwargs in recorded(make, extra):
            for i, a in enumerate(args):
                if not isinstance(a, (list, np.ndarray)):
                    continue
                try:
                    base = np.asarray(a)
                except ValueError:
                    continue
                if base.dtype.kind not in "biufc" or not base.size:
                    continue
                for how in range(7):
                    if how == 0:
                        v = base.astype(base.dtype, copy=True)
                    elif how in (1, 4):
                        if base.dtype.kind == "c":
                            continue
                        v = base.astype(float)
                        v = np.stack([v, v]) if how == 4 else v
                    elif how == 2:
                        v = np.array(base, order="F")
                    elif how == 3:
                        v = np.stack([base, base])
                    elif how == 5:
                        v = np.repeat(base, 2, axis=-1)[..., ::2]
                    else:
                        v = base.copy()
                        v.flags.writeable = False
                    before, o = v.copy(), make()
                    ctx.state()
                    ctx.step()
                    key = f"{name}/{m}/{i}/{how}"
                    try:
                        getattr(o, m)(*args[:i], v, *args[i + 1 :], **kwargs)
                    except Exception as e:
                        ctx.outcome(type(e).__name__)
                        ok = how not in (0, 2, 5, 6) or not isinstance(C.answer(lambda o: getattr(o, m)(*args, **kwargs), make()), tuple) or C.answer(lambda o: getattr(o, m)(*args, **kwargs), make())[0] == "raises"
                        ctx.ok(ok, key, f"{m} refuses an array that it accepts as a list: {type(e).__name__}: {e}")
                    ctx.ok(v.dtype == before.dtype and np.array_equal(v, before), key, f"{m} changed its argument {short(before)} to {short(v)}")
                    ctx.trace()


def t_constructors(ctx):
    """Building an object and asking it everything leaves the arguments of the constructor as they were."""
    ctx.bound("constructors", "every constructor that takes arrays, given lists, arrays of integers and of floats, and read-only ones")
    G = [[1, 0, 0, 1, 1], [0, 1, 0, 1, 0], [1, 1, 1, 0, 1]]
    K = komm
    cases = [
        ("BlockCode/G", lambda a: K.BlockCode(generator_matrix=a), G), ("BlockCode/H", lambda a: K.BlockCode(check_matrix=a), G), ("Systematic", lambda a: K.SystematicBlockCode(a), G),
        ("Systematic/set", lambda a: K.SystematicBlockCode([[1, 0], [1, 1], [0, 1]], a), [3, 1, 0]), ("Polar", lambda a: K.PolarCode(3, a), [4, 0, 2]), ("Convolutional", lambda a: K.ConvolutionalCode(a), [[7, 5, 3], [1, 2, 4]]),
        ("Convolutional/feedback", lambda a: K.ConvolutionalCode([[7, 5]], a), [3]), ("LowRate", lambda a: K.LowRateConvolutionalCode(a), [7, 5]), ("HighRate", lambda a: K.HighRateConvolutionalCode(a), [7, 5, 3]),
        ("Mealy", lambda a: K.MealyMachine(a, [[0, 1], [1, 0]]), [[1, 0], [0, 1]]), ("Mealy/outputs", lambda a: K.MealyMachine([[0, 1], [1, 0]], a), [[1, 0], [0, 3]]), ("Moore", lambda a: K.MooreMachine([[0, 1], [1, 0]], a), [1, 0]),
        ("Labeling", lambda a: K.Labeling(a), [[1, 0], [0, 1], [1, 1], [0, 0]]), ("Constellation", lambda a: K.Constellation(a), [[1.0], [-1.0], [3.0]]), ("Constellation/complex", lambda a: K.Constellation(a), [[1j], [2.0], [-1 - 1j]]),
        ("APSK", lambda a: K.APSKConstellation(a, (1.0, 2.0)), (4, 8)), ("Huffman", lambda a: K.HuffmanCode(a), [0.1, 0.6, 0.3]), ("Huffman/2", lambda a: K.HuffmanCode(a, 2), [0.1, 0.6, 0.3]), ("Fano", lambda a: K.FanoCode(a), [0.1, 0.6, 0.3]),
        ("Shannon", lambda a: K.ShannonCode(a), [0.1, 0.6, 0.3]), ("Tunstall", lambda a: K.TunstallCode(a, 3), [0.1, 0.6, 0.3]), ("lengths", lambda a: K.FixedToVariableCode.from_lengths(a), [3, 1, 3, 2]),
        ("codewords", lambda a: K.FixedToVariableCode.from_codewords(a), [(1, 0), (0,), (1, 1)]), ("sourcewords", lambda a: K.VariableToFixedCode.from_sourcewords(a), [(1, 0), (0,), (1, 1)]),
        ("Quantizer", lambda a: K.ScalarQuantizer(a, [0.0, 2.0]), [-1.0, 1.0, 3.0]), ("Quantizer/thresholds", lambda a: K.ScalarQuantizer([-1.0, 1.0, 3.0], a), [0.0, 2.0]), ("Markov", lambda a: K.MarkovChain(a), [[0.5, 0.5], [0.0, 1.0]]),
        ("Markov/rounded", lambda a: K.MarkovChain(a), [[0.1] * 9 + [0.1 + 1e-9]] * 10), ("Source/rounded", lambda a: K.DiscreteMemorylessSource(a), [0.1] * 9 + [0.1 + 1e-9]), ("DMC/rounded", lambda a: K.DiscreteMemorylessChannel(a), [[0.1] * 9 + [0.1 + 1e-9], [0.0] * 9 + [1 - 1e-9]]),
        ("Huffman/rounded", lambda a: K.HuffmanCode(a), [0.1] * 9 + [0.1 + 1e-9]), ("Fano/rounded", lambda a: K.FanoCode(a), [0.1] * 9 + [0.1 + 1e-9]), ("Shannon/rounded", lambda a: K.ShannonCode(a), [0.1] * 9 + [0.1 + 1e-9]), ("Tunstall/rounded", lambda a: K.TunstallCode(a, 5), [0.1] * 9 + [0.1 + 1e-9]),
        ("Source", lambda a: K.DiscreteMemorylessSource(a), [0.25, 0.75]), ("DMC", lambda a: K.DiscreteMemorylessChannel(a), [[0.5, 0.5, 0.0], [0.0, 0.5, 0.5]]), ("Sequence/bits", lambda a: K.BinarySequence(a), [1, 0, 0, 1]),
        ("Sequence/polar", lambda a: K.BinarySequence(polar_sequence=a), [1, -1, -1, 1]), ("ComplexSequence", lambda a: K.ComplexSequence(a), [1, 1j, -1]), ("coefficients", lambda a: K.BinaryPolynomial.from_coefficients(a), [1, 0, 1, 1]),
        ("exponents", lambda a: K.BinaryPolynomial.from_exponents(a), [5, 0, 3]), ("LZ77", lambda a: K.LempelZiv77Code(search_size=3, lookahead_size=2, source_cardinality=2, search_buffer=a), [1, 0, 1]),
        ("LZSS", lambda a: K.LempelZivSSCode(search_size=3, lookahead_size=2, source_cardinality=2, search_buffer=a), [1, 0, 1]),
    ]
    for name, build, arg in cases:
        for how in ("list", "array", "float", "readonly"):
            if how == "list":
                v = copy.deepcopy(arg)
            else:
                try:
                    v = np.array(arg)
                except ValueError:
                    continue
                if how == "float" and v.dtype.kind in "iu":
                    v = v.astype(float)
                v.flags.writeable = how != "readonly"
            before = copy.deepcopy(v)
            key = f"constructor/{name}/{how}"
            ctx.at(key)
            ctx.state()
            try:
                o = build(v)
            except Exception as e:
                ctx.ok(how in ("float", "array") or not isinstance(v, list), key, f"{type(e).__name__}: {e}")
                ctx.outcome((name, how))
                continue
            for k, f in calls_of(o, {}).items():
                C.answer(f, o)
                ctx.step()
            same = np.array_equal(v, before) and v.dtype == before.dtype if isinstance(v, np.ndarray) else v == before
            ctx.ok(same, key, f"the argument {short(before)} is now {short(v)}")
            ctx.trace()


def tasks(tier):
    deep = tier == "thorough"
    out = [(f"history/{i}", t_history, dict(depth=3 if deep else 2, part=i, parts=16, budget=30000 if deep else 2500)) for i in range(16)]
    out += [(f"neighbours/{i}", t_neighbours, dict(part=i, parts=8)) for i in range(8)]
    out += [(f"shared/{i}", t_shared, dict(part=i, parts=8)) for i in range(8)]
    out += [(f"refused/{i}", t_refused, dict(part=i, parts=8)) for i in range(8)]
    out += [("streams", t_streams, dict(tier=tier)), ("answers", t_answers, {}), ("arguments", t_arguments, {}), ("constructors", t_constructors, {}), ("copies", t_copies, {})]
    return out
