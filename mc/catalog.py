"""Representative objects of every public class with the calls that can be made on them: used by the checks that
quantify over histories (C30) and over containers and batch shapes (C19)."""

import functools
import inspect

import numpy as np

import komm

HAM = [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 0, 1, 1], [0, 0, 1, 0, 1, 1, 1], [0, 0, 0, 1, 1, 0, 1]]


def _terminated(mode, rows=((0b111, 0b101),), blocks=3):
    return komm.TerminatedConvolutionalCode(komm.ConvolutionalCode([list(r) for r in rows]), blocks, mode)


def _calls_block(n, k):
    m = [i % 2 for i in range(2 * k)]
    w = [int(i % 3 == 0) for i in range(2 * n)]
    return {
        "encode": lambda o: o.encode(m),
        "project_word": lambda o: o.project_word(w),
        "inverse_encode": lambda o: o.inverse_encode(o.encode(m)),
        "check": lambda o: o.check(w),
    }


def entries():
    """(name, make, calls) with calls: label -> function of the object."""
    out = []

    def add(name, make, calls=None):
        out.append((name, make, calls or {}))

    # ---- block codes
    B = _calls_block
    add("BlockCode/a", lambda: komm.BlockCode(HAM), B(7, 4))
    add("BlockCode/b", lambda: komm.BlockCode([[1, 1, 0, 1], [0, 1, 1, 0]]), B(4, 2))
    add("BlockCode/c", lambda: komm.BlockCode(check_matrix=[[1, 1, 0, 1], [0, 1, 1, 0]]), B(4, 2))
    add("BlockCode/d", lambda: komm.BlockCode([[1, 0], [1, 1]]), B(2, 2))
    add("SystematicBlockCode/a", lambda: komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1]]), B(5, 2))
    add("SystematicBlockCode/b", lambda: komm.SystematicBlockCode([[1, 0], [0, 1]], "right"), B(4, 2))
    add("SystematicBlockCode/c", lambda: komm.SystematicBlockCode([[1, 0], [0, 1]], [3, 0]), B(4, 2))
    add("CyclicCode/a", lambda: komm.CyclicCode(7, generator_polynomial=0b1011), B(7, 4))
    add("CyclicCode/b", lambda: komm.CyclicCode(7, generator_polynomial=0b1101, systematic=False), B(7, 4))
    add("CyclicCode/c", lambda: komm.CyclicCode(7, check_polynomial=0b1011), B(7, 3))
    add("BCHCode/a", lambda: komm.BCHCode(3, 3), B(7, 4))
    add("BCHCode/b", lambda: komm.BCHCode(4, 7), B(15, 5))
    add("HammingCode/a", lambda: komm.HammingCode(3), B(7, 4))
    add("HammingCode/b", lambda: komm.HammingCode(3, extended=True), B(8, 4))
    add("SimplexCode/a", lambda: komm.SimplexCode(3), B(7, 3))
    add("SimplexCode/b", lambda: komm.SimplexCode(3, extended=True), B(8, 4))
    add("GolayCode", lambda: komm.GolayCode(), B(23, 12))
    add("RepetitionCode/a", lambda: komm.RepetitionCode(5), B(5, 1))
    add("RepetitionCode/b", lambda: komm.RepetitionCode(4), B(4, 1))
    add("SingleParityCheckCode/a", lambda: komm.SingleParityCheckCode(5), B(5, 4))
    add("SingleParityCheckCode/b", lambda: komm.SingleParityCheckCode(3), B(3, 2))
    add("ReedMullerCode/a", lambda: komm.ReedMullerCode(1, 3), B(8, 4))
    add("ReedMullerCode/b", lambda: komm.ReedMullerCode(2, 3), B(8, 7))
    add("CordaroWagnerCode", lambda: komm.CordaroWagnerCode(8), B(8, 2))
    add("Lexicode", lambda: komm.Lexicode(6, 3), B(6, 3))
    add("PolarCode/a", lambda: komm.PolarCode(3, [0, 1, 2, 4]), B(8, 4))
    add("PolarCode/b", lambda: komm.PolarCode(2, [0]), B(4, 3))
    add("TerminatedConvolutionalCode/zero", lambda: _terminated("zero-termination"), B(10, 3))
    add("TerminatedConvolutionalCode/direct", lambda: _terminated("direct-truncation"), B(6, 3))
    add("TerminatedConvolutionalCode/biting", lambda: _terminated("tail-biting"), B(6, 3))
    add("SlepianArray/a", lambda: komm.SlepianArray(komm.BlockCode([[1, 1, 0, 1], [0, 1, 1, 0]])), {"row": lambda o: o.row(2), "col": lambda o: o.col(1), "entry": lambda o: o.entry(2, 3)})
    add("SlepianArray/b", lambda: komm.SlepianArray(komm.RepetitionCode(3)), {"row": lambda o: o.row(1), "col": lambda o: o.col(1), "entry": lambda o: o.entry(3, 1)})

    # ---- decoders
    def dec(*words):
        return {f"decode{i}": (lambda o, w=w: o.decode(w)) for i, w in enumerate(words)}

    w7 = [1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 1]
    s7 = [1.5, -0.5, 2.0, -1.0, 0.25, -3.0, 1.0] * 2
    add("ExhaustiveSearchDecoder/hard", lambda: komm.ExhaustiveSearchDecoder(komm.HammingCode(3)), dec(w7, w7[:7], [0] * 7))
    add("ExhaustiveSearchDecoder/soft", lambda: komm.ExhaustiveSearchDecoder(komm.HammingCode(3), "soft"), dec(s7, s7[::-1]))
    add("SyndromeTableDecoder", lambda: komm.SyndromeTableDecoder(komm.BlockCode(HAM)), dec(w7, [1] * 7))
    add("BerlekampDecoder", lambda: komm.BerlekampDecoder(komm.BCHCode(4, 5)), dec([1] * 15, [1, 0, 0, 1] + [0] * 11, [0] * 30))
    add("ReedDecoder/hard", lambda: komm.ReedDecoder(komm.ReedMullerCode(1, 3)), dec([1, 0, 1, 1, 0, 0, 1, 0], [1] * 16))
    add("ReedDecoder/soft", lambda: komm.ReedDecoder(komm.ReedMullerCode(1, 3), "soft"), dec([1.0, -0.5, 1, 2, -3, 0.5, -1, 2]))
    add("WagnerDecoder", lambda: komm.WagnerDecoder(komm.SingleParityCheckCode(4)), dec([1.0, -0.5, 2, 3], [-1.0, -0.5, 2, 3, 1, 1, 1, -1]))
    add("SCDecoder/soft", lambda: komm.SCDecoder(komm.PolarCode(3, [0, 1, 2, 4])), dec([1.0, -4.0, -3.0, 2.0, -2.0, 3.0, 4.0, -1.0], [0.5] * 8))
    add("SCDecoder/hard", lambda: komm.SCDecoder(komm.PolarCode(2, [0]), output_type="hard"), dec([1.0, -4.0, -3.0, 2.0]))
    for mode, n in (("zero-termination", 10), ("direct-truncation", 6)):
        w = [i % 3 % 2 for i in range(n)]
        s = [((-1) ** i) * (1 + i % 4) / 2 for i in range(n)]
        add(f"ViterbiDecoder/{mode}/hard", lambda mode=mode: komm.ViterbiDecoder(_terminated(mode)), dec(w, w * 2))
        add(f"ViterbiDecoder/{mode}/soft", lambda mode=mode: komm.ViterbiDecoder(_terminated(mode), "soft"), dec(s, s * 2))
        add(f"BCJRDecoder/{mode}", lambda mode=mode: komm.BCJRDecoder(_terminated(mode)), dec(s, s * 2))
        add(f"BCJRDecoder/{mode}/hard", lambda mode=mode: komm.BCJRDecoder(_terminated(mode), "hard"), dec(s))

    # ---- convolutional codes and machines
    enc = {"encode": lambda o: o.encode([1, 0, 1, 1, 0, 1] * 2)}
    add("ConvolutionalCode/ff", lambda: komm.ConvolutionalCode([[0b111, 0b101]]), enc)
    add("ConvolutionalCode/two", lambda: komm.ConvolutionalCode([[0b11, 0b10, 0b11], [0b10, 0b1, 0b1]]), enc)
    add("ConvolutionalCode/fb", lambda: komm.ConvolutionalCode([[0b11, 0b1]], [0b111]), enc)
    add("LowRate", lambda: komm.LowRateConvolutionalCode([0b111, 0b101]), enc)
    add("HighRate", lambda: komm.HighRateConvolutionalCode([0b11, 0b10, 0b101]), enc)
    mm = lambda: komm.MealyMachine([[0, 1], [2, 3], [0, 1], [2, 3]], [[0, 3], [1, 2], [3, 0], [2, 1]])
    add("MealyMachine", mm, {
        "process0": lambda o: o.process([1, 0, 1, 1], 0), "process2": lambda o: o.process([1, 1, 0], 2),
        "viterbi": lambda o: o.viterbi([0, 3, 1], lambda y, z: float(bin(y ^ z).count("1"))),
    })
    add("MooreMachine", lambda: komm.MooreMachine([[0, 1], [0, 1]], [0, 1]), {"process": lambda o: o.process([1, 0, 1], 0)})

    # ---- labelings and constellations
    bits6 = [0, 1, 1, 0, 1, 0] * 2
    lab = {"i2b": lambda o: o.indices_to_bits([1, 0, 3, 2]), "b2i": lambda o: o.bits_to_indices(bits6[: o.num_bits * 2])}
    add("NaturalLabeling", lambda: komm.NaturalLabeling(2), lab)
    add("ReflectedLabeling", lambda: komm.ReflectedLabeling(3), lab)
    add("ReflectedRectangularLabeling", lambda: komm.ReflectedRectangularLabeling((1, 2)), lab)
    add("Labeling", lambda: komm.Labeling([[0, 0], [1, 1], [0, 1], [1, 0]]), lab)
    add("ProductLabeling", lambda: komm.ProductLabeling(komm.NaturalLabeling(1), komm.ReflectedLabeling(2)), lab)
    cons = {
        "i2s": lambda o: o.indices_to_symbols([1, 0, 1]),
        "closest": lambda o: o.closest_indices([0.3 + 0.1j, -0.2j] if o.matrix.dtype.kind == "c" else [0.3, -0.7, 1.1, 0.0] * o.dimension),
        "posteriors": lambda o: o.posteriors([0.3 + 0.1j, -0.2j] if o.matrix.dtype.kind == "c" else [0.3, -0.7, 1.1, 0.0] * o.dimension, 2.0),
    }
    for nm, mk in {
        "PAMConstellation": lambda: komm.PAMConstellation(4), "ASKConstellation": lambda: komm.ASKConstellation(4, 1.0, 0.125),
        "PSKConstellation": lambda: komm.PSKConstellation(8), "QAMConstellation": lambda: komm.QAMConstellation(16),
        "QAMConstellation/rect": lambda: komm.QAMConstellation((2, 4)), "CrossQAMConstellation": lambda: komm.CrossQAMConstellation(32),
        "APSKConstellation": lambda: komm.APSKConstellation((4, 8), (1.0, 2.0)), "OrthogonalConstellation": lambda: komm.OrthogonalConstellation(3),
        "BiorthogonalConstellation": lambda: komm.BiorthogonalConstellation(4), "SimplexConstellation": lambda: komm.SimplexConstellation(3),
        "Constellation": lambda: komm.Constellation([[0.0, 1.0], [1.0, 0.0], [-1.0, -1.0]]), "Constellation/c": lambda: komm.Constellation([[0], [1j], [2 + 1j]]),
    }.items():
        add(nm, mk, cons)

    # ---- sources, channels (deterministic answers only)
    add("DiscreteMemorylessSource", lambda: komm.DiscreteMemorylessSource([0.5, 0.25, 0.25]))
    add("MarkovChain/a", lambda: komm.MarkovChain([[0.5, 0.5, 0.0], [0.25, 0.5, 0.25], [0.0, 0.5, 0.5]]), {"period": lambda o: o.period(1), "acc": lambda o: o.accessible_states_from(0)})
    add("MarkovChain/b", lambda: komm.MarkovChain([[1.0, 0.0, 0.0], [0.25, 0.5, 0.25], [0.0, 0.0, 1.0]]), {"period": lambda o: o.period(1), "acc": lambda o: o.accessible_states_from(1)})
    ch = {"mi": lambda o: o.mutual_information([0.25, 0.75]), "cap": lambda o: o.capacity("e")}
    add("BinarySymmetricChannel", lambda: komm.BinarySymmetricChannel(0.1), ch)
    add("BinaryErasureChannel", lambda: komm.BinaryErasureChannel(0.1), ch)
    add("ZChannel", lambda: komm.ZChannel(0.1), ch)
    add("DiscreteMemorylessChannel", lambda: komm.DiscreteMemorylessChannel([[0.9, 0.05, 0.05], [0.0, 0.5, 0.5]]), ch)

    # ---- lossless and integer codes
    src = [0, 1, 2, 0, 0, 2, 1]
    fv = {"encode": lambda o: o.encode(src), "decode": lambda o: o.decode(o.encode(src)), "rate": lambda o: o.rate([0.5, 0.25, 0.25])}
    add("FixedToVariableCode/a", lambda: komm.FixedToVariableCode.from_codewords([(0,), (1, 0), (1, 1)]), fv)
    add("FixedToVariableCode/b", lambda: komm.FixedToVariableCode.from_codewords([(1,), (0, 0), (0, 1)]), fv)
    add("HuffmanCode", lambda: komm.HuffmanCode([0.5, 0.25, 0.25]), fv)
    add("ShannonCode", lambda: komm.ShannonCode([0.5, 0.3, 0.2]), fv)
    add("FanoCode", lambda: komm.FanoCode([0.5, 0.3, 0.2]), fv)
    vf = {"encode": lambda o: o.encode(src), "decode": lambda o: o.decode(o.encode(src)), "rate": lambda o: o.rate([0.5, 0.25, 0.25])}
    add("TunstallCode", lambda: komm.TunstallCode([0.5, 0.25, 0.25], 3), vf)
    add("VariableToFixedCode", lambda: komm.VariableToFixedCode.from_sourcewords([(0, 0), (0, 1), (0, 2), (1,), (2,)]), vf)
    for nm, mk in {
        "LempelZiv77Code": lambda: komm.LempelZiv77Code(search_size=8, lookahead_size=4, source_cardinality=3), "LempelZivSSCode": lambda: komm.LempelZivSSCode(search_size=8, lookahead_size=4, source_cardinality=3),
        "LempelZiv78Code": lambda: komm.LempelZiv78Code(3), "LempelZivWelchCode": lambda: komm.LempelZivWelchCode(3),
    }.items():
        tk = {"tokens": lambda o: o.source_to_tokens(src * 3), "source": lambda o: o.tokens_to_source(o.source_to_tokens(src * 2))} if "77" in nm or "SS" in nm else {}
        add(nm, mk, {"encode": lambda o: o.encode(src * 3), "decode": lambda o: o.decode(o.encode(src)), "encode2": lambda o: o.encode([0] * 9), **tk})
    ic = {"encode": lambda o: o.encode([1, 4, 2]), "decode": lambda o: o.decode(o.encode([3, 1]))}
    add("FibonacciCode", lambda: komm.FibonacciCode(), ic)
    add("UnaryCode", lambda: komm.UnaryCode(), ic)

    # ---- quantizers, pulses, sequences
    qz = {"digitize": lambda o: o.digitize([-0.3, 0.2, 5.0]), "quantize": lambda o: o.quantize([-0.3, 0.2, 5.0])}
    add("ScalarQuantizer", lambda: komm.ScalarQuantizer([-1.0, 0.0, 1.2], [-0.3, 0.8]), qz)
    add("UniformQuantizer", lambda: komm.UniformQuantizer(4, 0.5, 0.25), qz)
    pl = {"w": lambda o: o.waveform([0.0, 0.3, 1.5]), "s": lambda o: o.spectrum([0.0, 0.3, 1.5]), "r": lambda o: o.autocorrelation([0.0, 0.3]), "d": lambda o: o.energy_spectral_density([0.0, 0.3]), "t": lambda o: o.taps(4, (-1, 2))}
    for nm, mk in {
        "RectangularPulse": lambda: komm.RectangularPulse(0.5), "ManchesterPulse": lambda: komm.ManchesterPulse(), "GaussianPulse": lambda: komm.GaussianPulse(0.5),
        "SincPulse": lambda: komm.SincPulse(), "RaisedCosinePulse": lambda: komm.RaisedCosinePulse(0.5), "BeaulieuPulse": lambda: komm.BeaulieuPulse(0.5),
        "RootRaisedCosine": lambda: komm.RaisedCosinePulse(0.5).root(), "RootBeaulieu": lambda: komm.BeaulieuPulse(0.5).root(),
    }.items():
        add(nm, mk, pl)
    ac = {"ac": lambda o: o.autocorrelation([0, -1, 2]), "cac": lambda o: o.cyclic_autocorrelation([0, -1, 2], normalized=True)}
    add("BinarySequence/bit", lambda: komm.BinarySequence([0, 1, 1, 0, 1]), ac)
    add("BinarySequence/polar", lambda: komm.BinarySequence(polar_sequence=[1, -1, -1]), ac)
    add("BarkerSequence", lambda: komm.BarkerSequence(7), ac)
    add("LFSRSequence", lambda: komm.LFSRSequence(0b1011), ac)
    add("WalshHadamardSequence", lambda: komm.WalshHadamardSequence(4, "sequency", 2), ac)
    add("ComplexSequence", lambda: komm.ComplexSequence([1, 1j, -1]), ac)
    add("ZadoffChuSequence", lambda: komm.ZadoffChuSequence(5, 2), ac)

    # ---- twins: one parameter changed at a time
    add("SystematicBlockCode/a2", lambda: komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1]], "right"), B(5, 2))
    add("SystematicBlockCode/a3", lambda: komm.SystematicBlockCode([[1, 1, 0], [0, 1, 1]], [1, 3]), B(5, 2))
    add("SystematicBlockCode/a4", lambda: komm.SystematicBlockCode([[0, 1, 0], [0, 1, 1]]), B(5, 2))
    add("CyclicCode/a2", lambda: komm.CyclicCode(7, generator_polynomial=0b1011, systematic=False), B(7, 4))
    add("BCHCode/b2", lambda: komm.BCHCode(4, 5), B(15, 7))
    add("ReedMullerCode/c", lambda: komm.ReedMullerCode(1, 4), B(16, 5))
    add("Lexicode/b", lambda: komm.Lexicode(6, 2), B(6, 5))
    add("PolarCode/a2", lambda: komm.PolarCode(3, [0, 1, 2, 3]), B(8, 4))
    add("TerminatedConvolutionalCode/zero2", lambda: _terminated("zero-termination", ((0b111, 0b110),)), B(10, 3))
    add("TerminatedConvolutionalCode/zero3", lambda: _terminated("zero-termination", blocks=2), B(8, 2))
    add("SyndromeTableDecoder/b", lambda: komm.SyndromeTableDecoder(komm.CyclicCode(7, generator_polynomial=0b1101)), dec(w7, [1] * 7))
    add("ExhaustiveSearchDecoder/b", lambda: komm.ExhaustiveSearchDecoder(komm.BlockCode(HAM)), dec(w7, w7[:7], [0] * 7))
    add("BerlekampDecoder/b", lambda: komm.BerlekampDecoder(komm.BCHCode(4, 7)), dec([1] * 15, [1, 0, 0, 1] + [0] * 11, [0] * 30))
    add("ReedDecoder/b", lambda: komm.ReedDecoder(komm.ReedMullerCode(2, 4)), dec([1, 0, 1, 1, 0, 0, 1, 0] * 2))
    add("SCDecoder/b", lambda: komm.SCDecoder(komm.PolarCode(3, [0, 1, 2, 3])), dec([1.0, -4.0, -3.0, 2.0, -2.0, 3.0, 4.0, -1.0], [0.5] * 8))
    s10 = [((-1) ** i) * (1 + i % 4) / 2 for i in range(10)]
    for nm, D in (("ViterbiDecoder", lambda c: komm.ViterbiDecoder(c, "soft")), ("BCJRDecoder", komm.BCJRDecoder)):
        add(f"{nm}/twin", lambda D=D: D(_terminated("zero-termination", ((0b111, 0b110),))), dec(s10, s10 * 2))
    add("ConvolutionalCode/ff2", lambda: komm.ConvolutionalCode([[0b111, 0b110]]), enc)
    add("ConvolutionalCode/fb2", lambda: komm.ConvolutionalCode([[0b11, 0b1]], [0b101]), enc)
    add("LowRate/2", lambda: komm.LowRateConvolutionalCode([0b111, 0b110]), enc)
    add("HighRate/2", lambda: komm.HighRateConvolutionalCode([0b11, 0b01, 0b101]), enc)
    add("MealyMachine/2", lambda: komm.MealyMachine([[0, 1], [2, 3], [0, 1], [2, 3]], [[3, 0], [1, 2], [3, 0], [2, 1]]), {
        "process0": lambda o: o.process([1, 0, 1, 1], 0), "process2": lambda o: o.process([1, 1, 0], 2),
        "viterbi": lambda o: o.viterbi([0, 3, 1], lambda y, z: float(bin(y ^ z).count("1"))),
    })
    add("MooreMachine/2", lambda: komm.MooreMachine([[0, 1], [0, 1]], [1, 0]), {"process": lambda o: o.process([1, 0, 1], 0)})
    add("NaturalLabeling/3", lambda: komm.NaturalLabeling(3), lab)
    add("ReflectedLabeling/2", lambda: komm.ReflectedLabeling(2), lab)
    add("ReflectedRectangularLabeling/2", lambda: komm.ReflectedRectangularLabeling((2, 1)), lab)
    add("ProductLabeling/2", lambda: komm.ProductLabeling(komm.ReflectedLabeling(2), komm.NaturalLabeling(1)), lab)
    add("Labeling/2", lambda: komm.Labeling([[0, 0], [0, 1], [1, 1], [1, 0]]), lab)
    for nm, mk in {
        "PAMConstellation/d": lambda: komm.PAMConstellation(4, 3.0), "ASKConstellation/a": lambda: komm.ASKConstellation(4, 2.0, 0.125), "ASKConstellation/p": lambda: komm.ASKConstellation(4, 1.0, 0.25),
        "PSKConstellation/a": lambda: komm.PSKConstellation(8, 2.0), "PSKConstellation/p": lambda: komm.PSKConstellation(8, phase_offset=1 / 16), "PSKConstellation/4": lambda: komm.PSKConstellation(4),
        "QAMConstellation/d": lambda: komm.QAMConstellation(16, 3.0), "QAMConstellation/dd": lambda: komm.QAMConstellation(16, (2.0, 3.0)), "QAMConstellation/rect2": lambda: komm.QAMConstellation((4, 2)),
        "QAMConstellation/p": lambda: komm.QAMConstellation(16, phase_offset=1 / 8), "CrossQAMConstellation/d": lambda: komm.CrossQAMConstellation(32, 3.0), "CrossQAMConstellation/p": lambda: komm.CrossQAMConstellation(32, phase_offset=1 / 8),
        "APSKConstellation/a": lambda: komm.APSKConstellation((4, 8), (1.0, 3.0)), "APSKConstellation/p": lambda: komm.APSKConstellation((4, 8), (1.0, 2.0), (0.0, 1 / 16)), "APSKConstellation/o": lambda: komm.APSKConstellation((8, 4), (1.0, 2.0)),
        "OrthogonalConstellation/a": lambda: komm.OrthogonalConstellation(3, 2.0), "BiorthogonalConstellation/a": lambda: komm.BiorthogonalConstellation(4, 2.0), "SimplexConstellation/a": lambda: komm.SimplexConstellation(3, 2.0),
        "Constellation/2": lambda: komm.Constellation([[0.0, 1.0], [1.0, 0.0], [-1.0, 1.0]]),
    }.items():
        add(nm, mk, cons)
    add("DiscreteMemorylessSource/2", lambda: komm.DiscreteMemorylessSource([0.25, 0.25, 0.5]))
    add("MarkovChain/c", lambda: komm.MarkovChain([[0.5, 0.0, 0.5], [0.25, 0.5, 0.25], [0.5, 0.5, 0.0]]), {"period": lambda o: o.period(1), "acc": lambda o: o.accessible_states_from(0)})
    add("BinarySymmetricChannel/2", lambda: komm.BinarySymmetricChannel(0.2), ch)
    add("BinaryErasureChannel/2", lambda: komm.BinaryErasureChannel(0.2), ch)
    add("ZChannel/2", lambda: komm.ZChannel(0.2), ch)
    add("DiscreteMemorylessChannel/2", lambda: komm.DiscreteMemorylessChannel([[0.5, 0.5, 0.0], [0.0, 0.5, 0.5]]), ch)
    add("FixedToVariableCode/c", lambda: komm.FixedToVariableCode.from_codewords([(0,), (0, 1), (1, 1)]), {"encode": lambda o: o.encode(src), "rate": lambda o: o.rate([0.5, 0.25, 0.25])})
    for nm, mk in {
        "HuffmanCode/p": lambda: komm.HuffmanCode([0.5, 0.3, 0.2]), "HuffmanCode/low": lambda: komm.HuffmanCode([0.5, 0.25, 0.25], policy="low"), "HuffmanCode/b": lambda: komm.HuffmanCode([0.5, 0.25, 0.25], source_block_size=2),
        "ShannonCode/p": lambda: komm.ShannonCode([0.5, 0.25, 0.25]), "ShannonCode/b": lambda: komm.ShannonCode([0.5, 0.3, 0.2], source_block_size=2),
        "FanoCode/p": lambda: komm.FanoCode([0.2, 0.3, 0.5]), "FanoCode/b": lambda: komm.FanoCode([0.5, 0.3, 0.2], source_block_size=2),
    }.items():
        add(nm, mk, {"encode": lambda o: o.encode((src + [0, 1])[: 7 // o.source_block_size * o.source_block_size]), "rate": lambda o: o.rate([0.5, 0.25, 0.25])})
    for nm, mk in {
        "TunstallCode/p": lambda: komm.TunstallCode([0.25, 0.5, 0.25], 3), "TunstallCode/l": lambda: komm.TunstallCode([0.5, 0.25, 0.25], 2),
        "VariableToFixedCode/2": lambda: komm.VariableToFixedCode.from_sourcewords([(0,), (1, 0), (1, 1), (1, 2), (2,)]),
    }.items():
        add(nm, mk, {"encode": lambda o: o.encode(src), "rate": lambda o: o.rate([0.5, 0.25, 0.25])})
    for nm, mk in {
        "LempelZiv77Code/2": lambda: komm.LempelZiv77Code(search_size=5, lookahead_size=4, source_cardinality=3), "LempelZivSSCode/2": lambda: komm.LempelZivSSCode(search_size=5, lookahead_size=4, source_cardinality=3),
        "LempelZiv78Code/2": lambda: komm.LempelZiv78Code(4), "LempelZivWelchCode/2": lambda: komm.LempelZivWelchCode(4), "LempelZivWelchCode/t": lambda: komm.LempelZivWelchCode(3, 3),
    }.items():
        tk = {"tokens": lambda o: o.source_to_tokens(src * 3), "source": lambda o: o.tokens_to_source(o.source_to_tokens(src * 2))} if "77" in nm or "SS" in nm else {}
        add(nm, mk, {"encode": lambda o: o.encode(src * 3), "decode": lambda o: o.decode(o.encode(src)), "encode2": lambda o: o.encode([0] * 9), **tk})
    add("ScalarQuantizer/l", lambda: komm.ScalarQuantizer([-1.0, 0.5, 1.2], [-0.3, 0.8]), qz)
    add("ScalarQuantizer/t", lambda: komm.ScalarQuantizer([-1.0, 0.0, 1.2], [-0.4, 0.1]), qz)
    add("UniformQuantizer/s", lambda: komm.UniformQuantizer(4, 1.0, 0.25), qz)
    add("UniformQuantizer/o", lambda: komm.UniformQuantizer(4, 0.5, 0.0), qz)
    for nm, mk in {
        "RectangularPulse/2": lambda: komm.RectangularPulse(0.25), "GaussianPulse/2": lambda: komm.GaussianPulse(1.0), "RaisedCosinePulse/2": lambda: komm.RaisedCosinePulse(0.25), "BeaulieuPulse/2": lambda: komm.BeaulieuPulse(0.25),
    }.items():
        add(nm, mk, pl)
    add("LFSRSequence/p", lambda: komm.LFSRSequence(0b1101), ac)
    add("LFSRSequence/s", lambda: komm.LFSRSequence(0b1011, 0b011), ac)
    add("WalshHadamardSequence/i", lambda: komm.WalshHadamardSequence(4, "sequency", 1), ac)
    add("WalshHadamardSequence/o", lambda: komm.WalshHadamardSequence(4, "natural", 2), ac)
    add("ComplexSequence/2", lambda: komm.ComplexSequence([1, -1j, -1]), ac)
    add("ZadoffChuSequence/2", lambda: komm.ZadoffChuSequence(5, 3), ac)
    add("BarkerSequence/2", lambda: komm.BarkerSequence(5), ac)
    add("BinarySequence/bit2", lambda: komm.BinarySequence([1, 1, 1, 0, 1]), ac)

    # ---- algebra
    p, q = komm.BinaryPolynomial(0b10111), komm.BinaryPolynomial(0b1011)
    add("BinaryPolynomial", lambda: komm.BinaryPolynomial(0b110101), {
        "add": lambda o: o + p, "mul": lambda o: o * p, "divmod": lambda o: divmod(o, q), "pow": lambda o: o**3, "eval": lambda o: o.evaluate(komm.FiniteBifield(3)(3)),
    })
    add("BinaryPolynomialFraction", lambda: komm.BinaryPolynomialFraction(0b110101, 0b111), {"add": lambda o: o + o, "inv": lambda o: o.inverse() if hasattr(o, "inverse") else 0})
    add("FiniteBifield", lambda: komm.FiniteBifield(3), {"el": lambda o: o(3) * o(5) + o(1), "inv": lambda o: o(3).inverse()})
    add("BinaryPolynomial/2", lambda: komm.BinaryPolynomial(0b110111), {
        "add": lambda o: o + p, "mul": lambda o: o * p, "divmod": lambda o: divmod(o, q), "pow": lambda o: o**3, "eval": lambda o: o.evaluate(komm.FiniteBifield(3)(3)),
    })
    add("FiniteBifield/2", lambda: komm.FiniteBifield(3, 0b1101), {"el": lambda o: o(3) * o(5) + o(1), "inv": lambda o: o(3).inverse()})
    add("FiniteBifield/4", lambda: komm.FiniteBifield(4), {"el": lambda o: o(3) * o(5) + o(1), "inv": lambda o: o(3).inverse()})
    return out


SKIP = {"from_codewords", "from_sourcewords", "from_coefficients", "from_exponents", "mid_riser", "mid_tread", "maximum_length_sequence"}


def discovered(cls):
    """Public attributes and methods that need no argument."""
    calls = {}
    for name in sorted(dir(cls)):
        if name.startswith("_") or name in SKIP:
            continue
        a = inspect.getattr_static(cls, name)
        if isinstance(a, (property, functools.cached_property)):
            calls["." + name] = lambda o, n=name: getattr(o, n)
        elif isinstance(a, (classmethod, staticmethod)):
            continue
        elif callable(a):
            try:
                sig = inspect.signature(a)
            except (TypeError, ValueError):
                continue
            req = [x for x in list(sig.parameters.values())[1:] if x.default is x.empty and x.kind not in (x.VAR_POSITIONAL, x.VAR_KEYWORD)]
            if not req:
                calls[name + "()"] = lambda o, n=name: getattr(o, n)()
    return calls


def canon(x, depth=0):
    """Comparable rendering of an answer."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, canon(x.ravel().tolist(), depth + 1))
    if isinstance(x, np.generic):
        return canon(x.item())
    if isinstance(x, bool):
        return x
    if isinstance(x, (float, complex)):
        return complex(x) if isinstance(x, complex) else float(x)
    if isinstance(x, (int, str)) or x is None:
        return x
    if isinstance(x, dict):
        return ("dict", sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((canon(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(v) for v in x])
    return ("repr", type(x).__name__, repr(x))


def answer(fn, o):
    try:
        return canon(fn(o))
    except Exception as e:
        return ("raises", type(e).__name__)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(b))
    if isinstance(a, complex) and isinstance(b, complex):
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
