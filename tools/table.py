EB, EC, ED = "_error_control_block/", "_error_control_convolutional/", "_error_control_decoders/"
prop(
    "C01", "A block code's matrices, maps and codeword list describe one linear code",
    "For every block code that can be constructed, the generator matrix, check matrix, message encoding, inverse encoding, projection, syndrome and codeword list describe one and the same binary linear code of the stated length and dimension. Encoding is a linear bijection from all messages onto the codeword list, its inverse returns every message and refuses every non-codeword, and a word has zero syndrome exactly when it is a codeword. Parameters that do not describe a code are rejected.",
    ["inputs", "configurations"],
    "All full-rank generator matrices, parity submatrices with every information set, and every divisor of x^n+1, up to the stated sizes, plus every named family; for each, all 2^k messages and all 2^n words.",
    "The tests compare a few codes with printed matrices and encode a few messages; agreement of eight views of the code over all messages and words of all small codes is never stated.",
    [EB + "base.py", EB + "BlockCode.py", EB + "SystematicBlockCode.py", EB + "CyclicCode.py", EB + "BCHCode.py", EB + "PolarCode.py", EB + "ReedMullerCode.py", "_util/matrices.py"],
    [("linear algebra over GF(2)", "_util/matrices.py"), ("systematic and cyclic fast paths", EB + "CyclicCode.py"), ("block-wise driver", "_util/decorators.py")],
    ["encode", "inverse_encode", "project_word", "check", "codewords", "generator_matrix", "check_matrix"],
    "exhaustive enumeration of codes x messages x words on the real code, against an independent GF(2) model",
    "Every code, message and word within the stated bounds is run through the real implementation and compared with span/kernel computed by an independent model; codes beyond the bounds are not covered.",
)
prop(
    "C02", "Weight distributions, distances and coset leaders are exact",
    "Minimum distance, codeword and coset-leader weight distributions, packing and covering radius and standard array of a code equal the values given by their definitions over all words. Every coset leader has minimum weight in its coset, is filed under its own syndrome, and the answers do not depend on which of these quantities was asked for first.",
    ["inputs", "histories", "configurations"],
    "All full-rank generator matrices up to 4x5 and the named families; all 2^n words; all orders in which the derived quantities can be queried.",
    "Tests pin the numbers of a few textbook codes; definitions quantify over all words of every code and all query orders share caches.",
    [EB + "base.py", EB + "SlepianArray.py", EB + "BlockCode.py", EB + "HammingCode.py", EB + "SimplexCode.py", EB + "RepetitionCode.py", EB + "SingleParityCheckCode.py", EB + "CordaroWagnerCode.py", EB + "GolayCode.py"],
    [("coset leader search by weight", EB + "base.py"), ("closed forms in named families", EB + "RepetitionCode.py"), ("caching of derived quantities", EB + "base.py")],
    ["minimum_distance", "coset_leaders", "codeword_weight_distribution", "covering_radius", "SlepianArray"],
    "exhaustive enumeration of codes x words and of query histories on the real code",
    "All words of all codes within the bounds; brute-force definitions as oracle.",
)
prop(
    "C03", "Hard decoders correct every error pattern they are entitled to correct",
    "A hard-decision decoder returns the transmitted message for every codeword and every error pattern of weight up to the code's (or the decoder's designed) correction capability. The nearest-codeword decoders return, for every received word, a message whose codeword is at minimum Hamming distance, and each decoder's answer for a word does not depend on the words decoded before or together with it. The Reed decoder decides each message bit by the majority of its check sums, weighted with soft inputs by the least reliability in each, so that any t unreliable positions of total reliability s are corrected if t + s is less than the minimum distance and all other reliabilities are at least one.",
    ["inputs", "fault_sequences", "configurations"],
    "All received words of all small codes for the complete decoders; all correctable error patterns for the bounded-distance decoders of the named families.",
    "Tests decode a handful of words per decoder; the guarantee is over every error pattern up to the capability.",
    [ED + "SyndromeTableDecoder.py", ED + "BerlekampDecoder.py", ED + "ReedDecoder.py", ED + "ExhaustiveSearchDecoder.py", ED + "base.py", EB + "BCHCode.py"],
    [("Berlekamp iteration and root search", ED + "BerlekampDecoder.py"), ("majority logic over check sums", ED + "ReedDecoder.py"), ("syndrome look-up table", ED + "SyndromeTableDecoder.py")],
    ["decode"],
    "exhaustive enumeration of error patterns (fault sequences) injected into codewords on the real decoders",
    "Every error pattern within the bounds is injected; longer codes and patterns beyond the bounds are not covered.",
)
prop(
    "C04", "Maximum-likelihood decoders always return an optimum codeword's message",
    "For every received word, hard or soft, each maximum-likelihood decoder returns a message whose codeword attains the optimum of the decoding metric over all codewords of the code, including terminated convolutional codes of any rate and termination that the decoder supports. Decoding several blocks in one call gives the same messages as decoding them one at a time.",
    ["inputs", "configurations"],
    "All received words over small quantised alphabets (zeros and ties included), for all small codes and all small convolutional encoders in every supported termination mode.",
    "Tests decode a few fixed words; optimality compares with every codeword for every received word, and memoryless or multi-input encoders are not tested at all.",
    [ED + "ExhaustiveSearchDecoder.py", ED + "WagnerDecoder.py", ED + "ViterbiDecoder.py", EC + "TerminatedConvolutionalCode.py", "_finite_state_machine/MealyMachine.py"],
    [("trellis search", "_finite_state_machine/MealyMachine.py"), ("tail handling", EC + "TerminatedConvolutionalCode.py"), ("least reliable bit flip", ED + "WagnerDecoder.py")],
    ["decode"],
    "exhaustive enumeration of quantised received words against brute-force optimum over all codewords",
    "Every received word over the stated alphabets is decoded by the real code and its metric compared with the optimum over the full codeword list; other real values are not covered.",
)
prop(
    "C05", "BCJR outputs are the exact a posteriori L-values of the message bits",
    "For every received vector of L-values, the BCJR decoder's soft output for each message bit equals the logarithm of the ratio of the total likelihood of the codewords whose message has that bit 0 to those whose bit is 1, in message order, for encoders of any rate and for every termination it supports. Hard outputs are the signs of the soft ones, and blocks decoded together give the same values as blocks decoded alone.",
    ["inputs", "configurations"],
    "All received vectors over small quantised L-value alphabets, for all small encoders (parallel edges, memoryless, several inputs) and both supported terminations.",
    "Tests print outputs for two single-input encoders; the a posteriori formula sums over every codeword, and order of bits for k >= 2 was never exercised.",
    [ED + "BCJRDecoder.py", "_finite_state_machine/MealyMachine.py", EC + "TerminatedConvolutionalCode.py"],
    [("forward-backward recursion", "_finite_state_machine/MealyMachine.py"), ("initial and final state distributions, marginals", ED + "BCJRDecoder.py")],
    ["decode"],
    "exhaustive enumeration of quantised received vectors against a posteriori sums over all codewords",
    "Every vector over the alphabets is decoded by the real code and compared with the sum over all codewords to 1e-8; other real values are not covered.",
)
prop(
    "C06", "Successive cancellation follows its definition for every frozen set",
    "For every polar code (every frozen set) and every vector of L-values, the successive cancellation decoder decides the active bits in order, each from the exact L-value of that bit given the received vector and the bits already decided, with frozen bits taken as zero; its soft outputs are those L-values and its hard outputs their signs.",
    ["inputs", "configurations"],
    "All frozen sets up to length 8 and received vectors over small quantised alphabets.",
    "Tests cover two codes and a few vectors; the definition sums over all completions for every frozen set.",
    [ED + "SCDecoder.py", EB + "PolarCode.py"],
    [("recursive f/g updates", ED + "SCDecoder.py")],
    ["decode"],
    "exhaustive enumeration of frozen sets x quantised received vectors against the summed definition",
    "Every frozen set and vector within the bounds is decoded by the real code and compared with sums over all completions of the decided prefix.",
)
prop(
    "C07", "Convolutional encoding is the power-series product u(D)G(D)",
    "Encoding a message with a convolutional encoder gives the coefficients of u(D)G(D), for every matrix of polynomial or rational generators, with and without feedback. Encoding in pieces while handing the state over gives the same output as encoding at once, and the state-space matrices and the finite-state machine describe exactly that encoder in every state, reachable or not. The constraint lengths, their sum and their maximum are those of the definition.",
    ["inputs", "histories", "configurations"],
    "All small generator and feedback polynomials of several rates plus the named encoders; all states x inputs; all short messages and all ways of cutting them; large encoders (memory up to 14, published codes, several inputs and feedback) with impulses, long streams, period-wise cuts and the full machine.",
    "Tests compare a few printed encodings; hand-over of the state and agreement of the four descriptions quantify over every state, input and cut.",
    [EC + "ConvolutionalCode.py", EC + "LowRateConvolutionalCode.py", EC + "HighRateConvolutionalCode.py", "_finite_state_machine/MealyMachine.py"],
    [("state-space realisation", EC + "ConvolutionalCode.py"), ("finite-state machine construction", EC + "LowRateConvolutionalCode.py")],
    ["encode", "encode_with_state", "state_space_representation", "finite_state_machine"],
    "explicit-state exploration: every encoder state x input and every message/cut within bounds, model traces replayed on the implementation",
    "Every encoder, state, message and cut within the bounds is executed on the real code and compared with long division of power series.",
)
prop(
    "C08", "Free distance and catastrophicity agree with the state graph",
    "The free distance reported for a convolutional encoder is the least weight of a nonzero output of finite weight, and an encoder is reported catastrophic exactly when some input of infinite weight gives an output of finite weight, for encoders of every rate, with or without feedback.",
    ["configurations", "histories"],
    "All small generator and feedback polynomials for rates 1/1, 1/2, 1/3, 2/2, 2/3 and beyond plus the named encoders and large ones (memory up to 14); the full reachable state graph of each. Catastrophicity of encoders too large for a state graph: the gcd of maximal minors, a criterion bound to the state graphs of the small encoders.",
    "Tests pin known values of table encoders; the claims quantify over all infinite inputs, decided here on the state graph.",
    [EC + "ConvolutionalCode.py", EC + "LowRateConvolutionalCode.py", EC + "HighRateConvolutionalCode.py", "_algebra/domain.py"],
    [("search of the code's trellis", EC + "ConvolutionalCode.py"), ("invariant factors", EC + "ConvolutionalCode.py")],
    ["free_distance", "is_catastrophic"],
    "explicit-state search of every encoder's reachable state graph (shortest nonzero finite-weight path, zero-output cycles)",
    "The full state graph of each encoder within the bounds is searched; the graph is tied to the implementation's encoding by C07.",
)
prop(
    "C09", "Terminated convolutional codes consist of the encoder's properly ended paths",
    "A terminated convolutional code is exactly the set of outputs of the encoder over paths starting at state zero (direct truncation), starting and ending at state zero (zero termination), or ending in their starting state (tail-biting). Encoding maps every message to such a path that carries the message, generator matrix and dimensions agree with it, and a termination that is impossible for an encoder is refused instead of giving words that are not in the code.",
    ["inputs", "configurations"],
    "All small encoders (feed-forward, feedback, memoryless, several inputs) x numbers of blocks x terminations; all messages.",
    "Tests check a few generator matrices; that every path really ends where the termination says is a claim over all messages and encoders.",
    [EC + "TerminatedConvolutionalCode.py", EC + "ConvolutionalCode.py"],
    [("tail computation by pseudo-inverse", EC + "TerminatedConvolutionalCode.py"), ("closing state of tail-biting", EC + "TerminatedConvolutionalCode.py")],
    ["encode", "generator_matrix", "inverse_encode", "check"],
    "explicit-state path enumeration in the encoder's state graph compared with the implementation on every message",
    "Every message of every terminated code within the bounds is encoded by the real code and looked up among the enumerated paths.",
)
prop(
    "C10", "Finite-state machines: every algorithm agrees with enumerating all paths",
    "For every finite-state machine, processing an input follows the transition and output tables and hands the state over; the Viterbi algorithm returns, for each final state, a path of least total metric and that metric; the streaming version gives the same survivors; and the forward-backward algorithm returns the exact conditional input distributions. Parallel edges, unreachable states and ties are no exception.",
    ["inputs", "histories", "configurations"],
    "All machines up to 3 states / 2 inputs / 2-3 outputs (up to relabelling where stated), all starting states, all short observation sequences.",
    "Tests use two machines with one input sequence each; the algorithms must be optimal on every machine and sequence.",
    ["_finite_state_machine/MealyMachine.py", "_finite_state_machine/MooreMachine.py"],
    [("Viterbi add-compare-select", "_finite_state_machine/MealyMachine.py"), ("forward-backward", "_finite_state_machine/MealyMachine.py")],
    ["process", "viterbi", "viterbi_streaming", "forward_backward", "input_edges", "output_edges"],
    "exhaustive enumeration of machines x observation sequences, all paths of each explored explicitly",
    "All machines and sequences within the bounds run on the real code; the oracle enumerates every path.",
)
prop(
    "C11", "The stream Viterbi decoder follows a best path however the stream is cut",
    "Fed with a stream, the stream decoder emits for every received block one message block, delayed by exactly the traceback length: first the filling, then blocks that lie on a path of least metric from the stated starting state given all blocks received so far. The output depends only on the stream, not on how it is cut into calls, and decoding does not change the input.",
    ["inputs", "histories"],
    "All small encoders, traceback lengths and starting states; all received streams over small alphabets; all cuts into calls.",
    "Tests decode one stream in one or two calls; survivor selection and carried-over state must be right for every stream and cut.",
    [EC + "ViterbiStreamDecoder.py", "_finite_state_machine/MealyMachine.py"],
    [("carried-over metrics and survivors", EC + "ViterbiStreamDecoder.py")],
    ["decode"],
    "exhaustive exploration of received streams and call histories on the real decoder, all paths as oracle",
    "Every stream and cut within the bounds is executed; optimal blocks come from enumerating every path.",
)
LC, AL = "_lossless_coding/", "_algebra/"
prop(
    "C12", "Fixed-to-variable codes are classified exactly and decode what they encode",
    "For every list of codewords, the code is called uniquely decodable, or prefix-free, exactly when it is by definition. A uniquely decodable code refuses nothing it should accept: every message encodes to the concatenation of its codewords and decodes back, and every string that is no concatenation of codewords is refused; a code that is not uniquely decodable refuses to encode or decode. Codeword lengths satisfying the Kraft inequality, and only those, give a code with these lengths.",
    ["inputs", "configurations"],
    "All lists of codewords up to the stated number and length over 2 and 3 symbols, all messages and all target strings up to the stated lengths; all length vectors.",
    "Tests classify a few textbook codes; unique decodability quantifies over all infinite families of factorisations and losslessness over all messages of all codes.",
    [LC + "FixedToVariableCode.py", LC + "util.py"],
    [("Sardinas-Patterson and prefix tests", LC + "util.py"), ("parsing of the bit stream", LC + "FixedToVariableCode.py")],
    ["encode", "decode", "is_uniquely_decodable", "is_prefix_free", "from_lengths"],
    "exhaustive enumeration of codes x messages x strings; unique decodability decided by reachability in the flower automaton product",
    "Every code, message and string within the bounds is run on the real code; larger codes are not covered.",
)
prop(
    "C13", "Huffman codes are optimal; Shannon and Fano codes follow their definitions",
    "For every probability vector and block size, the Huffman code is a prefix code whose expected length is the least among all prefix codes (with the least longest word under the low policy), the Shannon code has the lengths ceil(-log p), the Fano code splits every set of symbols as evenly as possible, every code is lossless, and its rate is its expected length per source symbol. Invalid probability vectors are rejected.",
    ["inputs", "configurations"],
    "All vectors of weights with a fixed total for up to the stated number of symbols (ties and zeros included), block sizes 1 to 3, every policy.",
    "Tests compare rates of a few sources; optimality compares with all prefix codes, and ties and zero probabilities are the delicate inputs.",
    [LC + "HuffmanCode.py", LC + "ShannonCode.py", LC + "FanoCode.py", LC + "util.py", LC + "FixedToVariableCode.py"],
    [("tree merging and tie policy", LC + "HuffmanCode.py"), ("extended distributions", LC + "util.py"), ("balanced splitting", LC + "FanoCode.py")],
    ["enc_mapping", "rate", "encode", "decode"],
    "exhaustive enumeration of probability vectors; optimum by exhaustive search over all full trees",
    "All weight vectors within the bounds; the optimum is over every full binary tree profile.",
)
prop(
    "C14", "Variable-to-fixed and Tunstall codes are classified exactly, optimal, lossless",
    "A variable-to-fixed code is called uniquely encodable, prefix-free or fully covering exactly when its source words are; if usable, encoding any source sequence and decoding gives the sequence back, possibly completed to the end of its last word, and other strings are refused. A code built from a list of source words numbers them in order with the least block size that suffices. A Tunstall code is the complete prefix-free dictionary that fits in the block with the greatest expected source word length, and its rate is the block size over that length.",
    ["inputs", "configurations"],
    "All lists of source words up to the stated number and length, all sources and target strings up to the stated lengths; all weight vectors and block sizes for Tunstall codes.",
    "Tests cover a few dictionaries; unusual dictionaries, incomplete last words and optimality over all trees are beyond samples.",
    [LC + "VariableToFixedCode.py", LC + "TunstallCode.py", LC + "util.py"],
    [("greedy growth of the tree", LC + "TunstallCode.py"), ("covering and encodability tests", LC + "VariableToFixedCode.py")],
    ["encode", "decode", "is_uniquely_encodable", "is_fully_covering", "rate"],
    "exhaustive enumeration of dictionaries x sources x strings; optimum over all complete trees",
    "All dictionaries, sources and weight vectors within the bounds are run on the real code.",
)
prop(
    "C15", "Lempel-Ziv codes are lossless and parse as published, for every source",
    "For every alphabet size, target alphabet, window, look-ahead and initial buffer, LZ77, LZSS, LZ78 and LZW encode every source sequence into words over the target alphabet that decode back to it, whose parsing into phrases and whose field widths are those of the published algorithm (any longest match in the window is admissible).",
    ["inputs", "configurations"],
    "All source sequences up to the stated lengths for all small parameter sets, and structured long sequences over alphabets up to 70000 symbols.",
    "Tests round-trip a few random texts; corner cases are overlapping matches, matches into the initial buffer, dictionary growth exactly at powers of the target size and wide alphabets.",
    [LC + "LempelZiv77Code.py", LC + "LempelZivSSCode.py", LC + "LempelZiv78Code.py", LC + "LempelZivWelchCode.py", LC + "util.py"],
    [("sliding window search", LC + "LempelZiv77Code.py"), ("growing dictionary and index width", LC + "LempelZivWelchCode.py"), ("mixed radix words", LC + "util.py")],
    ["encode", "decode"],
    "exhaustive enumeration of sources x parameters on the real encoders and decoders, tokens checked by an explicit parser model",
    "Every source within the bounds is encoded, its tokens validated step by step against the published parsing, and decoded.",
)
prop(
    "C16", "Unary and Fibonacci codes are bijections between integers and bit strings",
    "Encoding a sequence of admissible integers gives the concatenation of their codewords, decoding gives the sequence back, every bit string that is a concatenation of codewords decodes to the integers it stands for and re-encodes to itself, and inadmissible integers and strings that end inside a codeword are refused or treated as documented.",
    ["inputs"],
    "All bit strings up to the stated length, all sequences of small integers, all integers up to the stated bound and neighbours of Fibonacci numbers below 2^62.",
    "Tests use small integers; exactness of Fibonacci coding for large integers and behaviour over all strings cannot be sampled.",
    ["_integer_coding/FibonacciCode.py", "_integer_coding/UnaryCode.py", "_integer_coding/base.py"],
    [("Zeckendorf representation", "_integer_coding/FibonacciCode.py")],
    ["encode", "decode"],
    "exhaustive enumeration of bit strings and integer sequences on the real coder, run as a two-way transducer check",
    "Every string and integer within the bounds; the reference is an independent greedy Zeckendorf representation.",
)
prop(
    "C17", "Binary polynomials and their fractions obey the laws of GF(2)[X] and GF(2)(X)",
    "Sums, products, quotients, remainders, powers, gcd, extended gcd, lcm, evaluation, composition, reciprocal, degree, coefficient and exponent views, irreducibility, primitivity, factorisation, order and conversions of binary polynomials agree with their definitions for all operands; fractions are kept in lowest terms and form a field; the same generic algorithms over the integers are right as well. Division by zero is refused.",
    ["inputs"],
    "All pairs (and triples for the laws) of polynomials up to the stated degrees, all pairs of fractions, all integers within bounds.",
    "Tests check examples and random pairs; ring laws and divisibility hold for every operand or the codes built on them break for particular parameters.",
    [AL + "BinaryPolynomial.py", AL + "BinaryPolynomialFraction.py", AL + "Integers.py", AL + "domain.py", AL + "ring.py", AL + "field.py"],
    [("carry-free arithmetic on integers", AL + "BinaryPolynomial.py"), ("Euclidean algorithms", AL + "domain.py"), ("normalisation of fractions", AL + "BinaryPolynomialFraction.py")],
    ["__add__", "__mul__", "__divmod__", "gcd", "xgcd", "lcm", "is_irreducible", "is_primitive", "factorize"],
    "exhaustive enumeration of operands on the real code against definitions",
    "All operands within the bounds. lcm of three or more operands is a recorded known finding.",
)
prop(
    "C18", "FiniteBifield is the field GF(2^k) for every irreducible modulus",
    "For every degree and irreducible modulus, the elements form a field of 2^k elements: sums, products, quotients, inverses and powers obey the field laws and agree with arithmetic modulo the modulus, whatever representative an element was built from; primitive elements, logarithms, conjugates, minimal polynomials are right for every element; reducible moduli and zero divisors are refused.",
    ["inputs", "configurations"],
    "Every degree up to 5 with every irreducible modulus and all pairs and triples of elements; larger degrees with all elements; every polynomial as a candidate modulus.",
    "Tests use a few elements of a few fields; the field laws are over all elements and all moduli.",
    [AL + "FiniteBifield.py", AL + "BinaryPolynomial.py", AL + "field.py"],
    [("reduction modulo the modulus", AL + "FiniteBifield.py"), ("minimal polynomials by conjugates", AL + "FiniteBifield.py")],
    ["__mul__", "inverse", "logarithm", "conjugates", "minimal_polynomial"],
    "exhaustive enumeration of field elements and moduli on the real code against polynomial arithmetic",
    "All elements (and pairs, triples) of all fields within the bounds.",
)
LB, CO, CH, SO, QU = "_labelings/", "_constellations/", "_channels/", "_sources/", "_quantization/"
prop(
    "C20", "Labelings are bijections between indices and bit blocks, as they are defined",
    "Every labeling of m bits maps the indices 0..2^m-1 one-to-one onto all blocks of m bits, block by block in any batch; natural, reflected, product and rectangular labelings are the ones of their definitions (reflected neighbours differ in one bit). Inverse maps undo the maps, and the soft marginals are the logarithms of the ratios of the metric sums over indices with the bit 0 and with the bit 1. Invalid matrices, indices and bits are refused.",
    ["inputs", "configurations"],
    "All permutations of bit blocks as labeling matrices up to 3 bits, all natural/reflected labelings to the stated width, all products, all index sequences and bit strings up to the stated lengths, all metric vectors over a small alphabet.",
    "Tests print a few matrices and map a few indices; the bijection and the marginals are over all labelings, all inputs and all metrics.",
    [LB + "base.py", LB + "Labeling.py", LB + "NaturalLabeling.py", LB + "ReflectedLabeling.py", LB + "ProductLabeling.py", LB + "ReflectedRectangularLabeling.py"],
    [("direct computation of bits", LB + "NaturalLabeling.py"), ("Gray code", LB + "ReflectedLabeling.py"), ("marginal sums", LB + "base.py")],
    ["indices_to_bits", "bits_to_indices", "marginalize"],
    "exhaustive enumeration of labelings x inputs on the real code against the definitions",
    "All labelings and inputs within the bounds.",
)
prop(
    "C21", "Constellations match their parameters; closed forms and demappers agree",
    "Each named constellation has the points that its parameters describe; its mean, mean and minimum energies and distances equal the values computed from the points; mapping of indices to symbols and nearest-point decisions and posterior probabilities agree with brute force over the points for every received value, for one symbol or for a batch, ties being resolved in favour of some nearest point. Parameters that describe no constellation are refused.",
    ["inputs", "configurations"],
    "All parameter combinations of each family up to the stated orders; a grid of received points that includes every decision boundary and its neighbours; all priors and noise levels of a small set.",
    "Tests check a few orders at a few points; fast demappers must agree with the nearest point over the whole plane for every order and parameter.",
    [CO + "base.py", CO + "Constellation.py", CO + "ASKConstellation.py", CO + "PAMConstellation.py", CO + "PSKConstellation.py", CO + "QAMConstellation.py", CO + "APSKConstellation.py", CO + "CrossQAMConstellation.py", CO + "OrthogonalConstellation.py", CO + "BiorthogonalConstellation.py", CO + "SimplexConstellation.py"],
    [("rounding demappers", CO + "PAMConstellation.py"), ("phase demapper", CO + "PSKConstellation.py"), ("posteriors", CO + "base.py")],
    ["indices_to_symbols", "closest_indices", "closest_symbols", "posteriors", "minimum_distance", "mean_energy"],
    "exhaustive enumeration of parameters x lattice of received values on the real code against brute force over the points",
    "Every lattice point (boundaries included) for all parameters within the bounds; the plane itself is a continuum and is covered only on the lattice.",
)
prop(
    "C22", "Channels act on each symbol independently, by exactly their transition law",
    "For every input sequence, over all outcomes of the random generator, the output of a discrete channel has exactly the probability given by the product of its transition probabilities, the shape of the input is kept, the input itself is left alone, and randomness is drawn from the channel's own generator only. The Gaussian channel adds independent zero-mean normal noise of the stated power (split evenly over real and imaginary parts for complex inputs) and nothing else. Invalid probabilities, transition matrices and noise powers are refused.",
    ["inputs", "schedules", "configurations"],
    "All input sequences up to the stated length x every tape of uniform variates on a K-point lattice chosen so that the transition probabilities are exact multiples of 1/K, for all channels of the stated sizes.",
    "Tests draw pseudo-random samples with wide tolerances; enumerating every outcome of the generator gives the law itself.",
    [CH + "base.py", CH + "BinarySymmetricChannel.py", CH + "BinaryErasureChannel.py", CH + "ZChannel.py", CH + "DiscreteMemorylessChannel.py", CH + "GaussianChannel.py", "_util/global_rng.py"],
    [("sampling by comparison with uniforms", CH + "BinarySymmetricChannel.py"), ("sampling of rows", CH + "DiscreteMemorylessChannel.py"), ("noise power", CH + "GaussianChannel.py")],
    ["transmit", "transition_matrix"],
    "exhaustive enumeration of the nondeterministic choices (random tapes) of the real channel under a scripted generator",
    "Every tape of the lattice is replayed through the real transmit() by scripting the bit generator; the resulting counts are the exact law.",
)
prop(
    "C23", "Structural answers of Markov chains are right for every transition graph",
    "Accessibility, communicating classes, transient and recurrent states, irreducibility, periods, regularity, index of primitivity, absorbing states and absorbing chains are those of the transition graph, for every graph, whatever the transition probabilities on its edges and whichever questions were asked before. Matrices that are not stochastic are refused.",
    ["inputs", "histories", "configurations"],
    "All transition graphs up to 4 states (all 5-state graphs in the thorough tier up to symmetry), and all orders of queries on representative chains.",
    "Tests query a dozen chains; graph algorithms fail on particular graphs, and cached answers on particular query orders.",
    [SO + "MarkovChain.py"],
    [("reachability closure", SO + "MarkovChain.py"), ("periods", SO + "MarkovChain.py"), ("cached structure", SO + "MarkovChain.py")],
    ["communicating_classes", "transient_states", "period", "is_regular", "is_absorbing"],
    "explicit-state exploration of all transition graphs up to a size, real answers against reachability by search",
    "All graphs within the bounds; probabilities on the edges are varied over a few assignments.",
)
prop(
    "C24", "Stationary laws, absorption and simulation of Markov chains are exact",
    "For every chain, the stationary distribution is invariant and a distribution, mean visits, absorption times and absorption probabilities solve their first-step equations with states in increasing order, mean recurrence times match, and simulated paths and the symbols of memoryless sources have, over all outcomes of the random generator, exactly the law of the chain or source, starting where they should.",
    ["inputs", "schedules", "configurations"],
    "All chains with probabilities in multiples of 1/K up to the stated size; all tapes of uniform variates for simulated paths up to the stated length.",
    "Tests check a few chains and long pseudo-random runs; laws over every outcome of the generator and index orders for every class structure are out of reach of samples.",
    [SO + "MarkovChain.py", SO + "DiscreteMemorylessSource.py", "_util/information_theory.py"],
    [("linear systems over transient states", SO + "MarkovChain.py"), ("inverse-transform sampling", SO + "MarkovChain.py")],
    ["stationary_distribution", "mean_number_of_visits", "absorption_probabilities", "mean_time_to_absorption", "simulate", "emit"],
    "explicit-state enumeration of chains, exact rational reference; enumeration of all random tapes for simulation",
    "All chains on the lattice of probabilities within the bounds, in exact rational arithmetic on the reference side.",
)
prop(
    "C25", "Scalar quantizers send every input to the level of its cell",
    "A scalar quantizer sends every real input to the level of the cell that contains it (a fixed rule at thresholds), element by element, and its reported distortion is that of the mapping it performs; a uniform quantizer covers the range it was given with equally spaced levels and picks a nearest one; a Lloyd-Max quantizer satisfies the nearest-level and centroid conditions for its density. Levels and thresholds that do not interlace are refused.",
    ["inputs", "configurations"],
    "All level/threshold sets on a small lattice x inputs at, between and next to every threshold; all uniform parameters on a lattice; a finite family of densities.",
    "Tests use a few quantizers at a few inputs; totality and cell membership are over all inputs, especially boundaries and values outside of the range.",
    [QU + "ScalarQuantizer.py", QU + "UniformQuantizer.py", QU + "LloydMaxQuantizer.py", QU + "base.py"],
    [("search of the cell", QU + "ScalarQuantizer.py"), ("rounding", QU + "UniformQuantizer.py"), ("alternating optimisation", QU + "LloydMaxQuantizer.py")],
    ["digitize", "quantize", "mean_squared_error", "levels", "thresholds"],
    "exhaustive enumeration of quantizers x lattice of inputs (boundaries and neighbours) on the real code",
    "All quantizers on the lattice, all lattice inputs; distortions to 1e-5; Lloyd-Max for a finite family of densities only.",
)
SB, SC, PU = "_sequences_binary/", "_sequences_complex/", "_pulses/"
prop(
    "C26", "Binary sequences are those of their definitions, for every register",
    "An LFSR sequence satisfies its recurrence from its start state for every feedback polynomial and state, and has maximum length and a two-valued cyclic autocorrelation exactly when the polynomial is primitive and the state is non-zero; maximum-length sequences of every offered degree are maximum-length; Walsh-Hadamard sequences of one order are mutually orthogonal in every ordering and are sorted as the ordering says; Barker sequences have off-peak autocorrelations of magnitude at most one; bit and polar forms of every sequence describe each other. Parameters that describe no register or sequence are refused.",
    ["inputs", "configurations"],
    "All feedback polynomials x all start states up to the stated degree; all offered maximum-length degrees; all Walsh-Hadamard lengths, orderings and indices up to the stated length; all binary sequences up to the stated length.",
    "Tests look at a few registers; the recurrence, period and correlation claims are over all polynomials and all start states.",
    [SB + "BinarySequence.py", SB + "LFSRSequence.py", SB + "WalshHadamardSequence.py", SB + "BarkerSequence.py", SB + "sequences.py"],
    [("shift register", SB + "LFSRSequence.py"), ("orderings", SB + "WalshHadamardSequence.py"), ("conversion of forms", SB + "BinarySequence.py")],
    ["bit_sequence", "polar_sequence", "cyclic_autocorrelation"],
    "explicit-state exploration of every register (polynomial x state) on the real code against the recurrence",
    "All registers, orders and sequences within the bounds.",
)
prop(
    "C27", "Autocorrelations are the sums of their definitions for every list of shifts",
    "For every real, integer or complex sequence and every list of shifts (negative, repeated, beyond the length, or none), the (cyclic) autocorrelation of the sequence has the value of its defining sum at each of these shifts, in order, normalised by the energy when asked; sequence objects answer the same about themselves; Zadoff-Chu sequences have constant amplitude and zero cyclic autocorrelation and are refused when root and length are not coprime or the length is not an odd prime.",
    ["inputs", "configurations"],
    "All sequences over small real and complex alphabets up to the stated length x lists of shifts over several periods; all Zadoff-Chu lengths and roots up to the stated size.",
    "Tests use a handful of sequences with the default shifts.",
    [SC + "ComplexSequence.py", SC + "ZadoffChuSequence.py", SC + "sequences.py", SB + "BinarySequence.py", "_util/sequences.py"],
    [("linear and cyclic sums", "_util/sequences.py"), ("phases", SC + "ZadoffChuSequence.py")],
    ["autocorrelation", "cyclic_autocorrelation", "sequence"],
    "exhaustive enumeration of sequences x shifts on the real code against the defining sums",
    "All sequences within the bounds.",
)
prop(
    "C28", "Bit conversion, rate conversion, convolution and spectra follow definitions",
    "Converting integers to bits and back is the identity for every width, bit order and batch shape, including words wider than machine integers; up- and downsampling by any factor and offset along any axis keep exactly the stated samples and are inverses in the stated sense; convolution and the Fourier transform along any axis of an array of any shape equal the defining sum on every slice along that axis.",
    ["inputs", "configurations"],
    "All words up to the stated width in both orders (and selected wider ones); all shapes, axes, factors and offsets up to the stated sizes.",
    "Tests pick a few shapes; errors live at particular combinations of axis, shape, offset and width.",
    ["_util/bit_operations.py", "_util/signal_processing.py"],
    [("packing", "_util/bit_operations.py"), ("axis handling", "_util/signal_processing.py")],
    ["bits_to_int", "int_to_bits", "sampling_rate_expand", "sampling_rate_compress", "convolve", "fourier_transform"],
    "exhaustive enumeration of words, and of shapes x axes x factors x offsets, on the real code against direct definitions",
    "All combinations within the bounds; entries of the arrays are distinct markers, so that misplaced samples are seen.",
)
prop(
    "C29", "Information measures and capacities have their defining values in any base",
    "Entropy, relative entropy, mutual information (from marginals and channel) and channel capacity have the values of their definitions for every distribution and every channel, in every logarithm base; closed-form capacities equal the maximum of the mutual information; relative entropy is infinite exactly when the supports demand it; invalid distributions, matrices and bases are refused.",
    ["inputs", "configurations"],
    "All distributions and transition matrices on lattices of probabilities up to the stated sizes x bases; extreme probabilities down to subnormal numbers.",
    "Tests compare a few textbook values; zero entries, degenerate channels and extreme probabilities matter for every input.",
    ["_util/information_theory.py", "_util/validators.py", CH + "base.py", CH + "BinarySymmetricChannel.py", CH + "BinaryErasureChannel.py", CH + "ZChannel.py", CH + "DiscreteMemorylessChannel.py"],
    [("plogp sums", "_util/information_theory.py"), ("Blahut-Arimoto", CH + "DiscreteMemorylessChannel.py"), ("closed forms", CH + "ZChannel.py")],
    ["entropy", "binary_entropy", "relative_entropy", "mutual_information", "capacity"],
    "exhaustive enumeration of distributions and channels on a lattice, real answers against exact definitions",
    "Lattice probabilities only; capacities of general channels to 1e-4 nats.",
)
prop(
    "C31", "All answers of a pulse describe one pulse, that of its definition",
    "Waveform, spectrum, autocorrelation, energy spectral density, energy, taps and root of every pulse belong to one and the same pulse, the one of its definition, for every parameter, time and frequency, including the singular points of the closed forms, and for arrays of any shape. Parameters outside of their range are refused.",
    ["inputs", "configurations"],
    "All parameters, times and frequencies of a lattice that contains every breakpoint and removable singularity with their neighbours.",
    "Tests evaluate pulses at a few points; the closed forms have removable singularities at parameter-dependent points.",
    [PU + f for f in ("base.py", "RectangularPulse.py", "ManchesterPulse.py", "GaussianPulse.py", "SincPulse.py", "RaisedCosinePulse.py", "BeaulieuPulse.py", "Pulse.py", "util.py")],
    [("closed forms and their limits", PU + "util.py"), ("root pulses", PU + "RaisedCosinePulse.py")],
    ["waveform", "spectrum", "autocorrelation", "energy_spectral_density", "energy", "taps"],
    "exhaustive enumeration of parameters x lattice of times/frequencies (all singular points) on the real code against quadrature",
    "The continuum of times and parameters is covered on the lattice only; comparisons to 1e-7.",
)
prop(
    "C32", "Q-functions and box-plus have their defining values, far into the tails",
    "The Gaussian Q-function and its inverse, the Marcum Q-function and the box-plus of L-values have the values of their definitions for every argument (infinite ones included), element by element for arrays of every shape; box-plus is the L-value of the sum of two independent bits.",
    ["inputs"],
    "All argument tuples of lattices reaching far into the tails; all pairs of L-values of a lattice with infinities and integer types.",
    "Tests use a few moderate arguments; truncated series, overflow and cancellation appear only for particular arguments.",
    ["_util/special_functions.py", "_error_control_decoders/util.py"],
    [("series", "_util/special_functions.py"), ("box-plus", "_util/special_functions.py")],
    ["gaussian_q", "gaussian_q_inv", "marcum_q", "boxplus"],
    "exhaustive enumeration of lattices of arguments on the real code against quadrature of the definitions",
    "Lattice arguments only; relative errors of 1e-8 or less.",
)
prop(
    "C19", "A batch is its blocks: any batch shape, container, numeric type or layout",
    "An operation on a batch of blocks gives the answers of the operation on each block, placed where the block was, for every batch shape and order of the blocks; the answer does not depend on whether the data come as lists, tuples or arrays, on the numeric type that represents them, or on their memory layout; data handed to an operation or a constructor are never modified. Data whose length is not a whole number of blocks are refused.",
    ["inputs", "configurations"],
    "Every operation of every public class x all (or a stated structured set of) blocks, all pairs of blocks, batch shapes up to three axes, containers, fourteen numeric types and six memory layouts, and batches of many blocks (about a thousand).",
    "Tests pass int64 arrays or lists of one shape; overflow, sign and aliasing errors depend on the type and layout, which users choose freely.",
    ["_util/decorators.py", EB + "base.py", ED + "base.py", ED + "ReedDecoder.py", ED + "WagnerDecoder.py", "_labelings/base.py", CO + "base.py", QU + "base.py", "_util/bit_operations.py", "_util/sequences.py", PU + "base.py", LC + "FixedToVariableCode.py"],
    [("block-wise and vectorised driver", "_util/decorators.py"), ("conversions of types", ED + "base.py")],
    ["encode", "decode", "indices_to_bits", "bits_to_indices", "modulate", "closest_indices", "posteriors", "__call__", "transmit"],
    "exhaustive enumeration of blocks x batch shapes x containers x types x layouts on the real code, each against the block alone",
    "All combinations within the bounds; the answer for a block alone, in the plainest container, is decided by the other checks.",
)
prop(
    "C30", "Answers do not depend on earlier calls, on other objects or on shared parts",
    "The answer of a query or operation depends on the object's parameters and the arguments only: not on which calls were made before on the same object, on another object of the same class or family, or on objects that share a part with it (a code with several decoders and terminations, a field with several codes). Copies of an object answer the same and are independent of it; arrays that operations return are the caller's to modify.",
    ["histories", "configurations"],
    "All sequences of calls up to the stated depth on representative objects of every public class, all interleavings with calls on neighbours, all ordered pairs of calls on objects with a shared part, copies taken at every point; each family with twins that differ in one parameter.",
    "Caches are pervasive (per object, per class and global); tests make one call on a fresh object, so a cache that is keyed wrongly or a buffer that is shared does not show.",
    [EB + "base.py", EB + "BlockCode.py", EB + "SlepianArray.py", EC + "ConvolutionalCode.py", EC + "TerminatedConvolutionalCode.py", EC + "ViterbiStreamDecoder.py", EC + "base.py", "_finite_state_machine/MealyMachine.py", AL + "FiniteBifield.py", LC + "FixedToVariableCode.py", LB + "Labeling.py", CO + "base.py", SO + "MarkovChain.py", SB + "LFSRSequence.py"],
    [("cached methods and properties", EB + "base.py"), ("stream states", EC + "ViterbiStreamDecoder.py"), ("tables of fields", AL + "FiniteBifield.py")],
    ["all public methods and attributes"],
    "explicit exploration of all call histories to a depth, and of interleavings between objects, on the real code",
    "Histories up to the stated depth on about 150 representative objects; answers compared with those of a fresh object in a fresh process.",
)
