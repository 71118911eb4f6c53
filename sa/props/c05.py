"""C05: constructors and functions accept exactly the documented parameter domain."""
from .rows import *

TITLE = "Parameters are accepted exactly on their documented domain"
RULE = ("Interval/abstract interpretation of every constructor and parameterised function over regions of its documented parameter "
        "domain: on a region outside the domain every path must raise ValueError/TypeError (no normal exit may remain), and on boundary "
        "and interior regions of the domain a normal exit must remain.")
ASSUME = ENGINE_ASSUMPTIONS + ["documented domains are transcribed from the class/function documentation into sa/props/c05.py",
                               "NaN lies outside every documented interval and is not a probability"]
MIN = {"obligations": 200}
EPS = 2.0 ** -30

ROWS = []


def rej(target, doc, *overs, **kw):
    for o in overs:
        ROWS.append(Row(target, o, "reject", doc, **kw))


def acc(target, doc, *overs, **kw):
    for o in overs:
        ROWS.append(Row(target, o, "accept", doc, **kw))


def interval(target, p, lo, hi, doc, lo_open=False, hi_open=False, **kw):
    """real parameter in an interval"""
    if lo > -INF:
        rej(target, doc, {p: FLT(-INF, lo if lo_open else lo - EPS)}, {p: FLT(lo - 1, lo if lo_open else lo - EPS)}, **kw)
        acc(target, doc, {p: CONST(float(lo) + (EPS if lo_open else 0))}, **kw)
    if hi < INF:
        rej(target, doc, {p: FLT(hi if hi_open else hi + EPS, INF)}, {p: FLT(hi + EPS, hi + 1)}, **kw)
        acc(target, doc, {p: CONST(float(hi))}, **kw)
    rej(target, doc + " (not NaN)", {p: CONST(float("nan"))}, **kw)
    m = (lo + hi) / 2 if hi < INF else lo + 3.5
    acc(target, doc, {p: CONST(m)}, {p: FLT(m - EPS, m + EPS)}, **kw)


NAN = float("nan")


def imin(target, p, lo, doc, other=None, accept=True, **kw):
    """integer parameter >= lo"""
    other = other or {}
    rej(target, doc, {**other, p: INT_(-INF, lo - 1)}, {**other, p: CONST(lo - 1)}, **kw)
    if accept:
        acc(target, doc, {**other, p: CONST(lo)}, {**other, p: INT_(lo, lo + 1)}, {**other, p: CONST(lo + 1)}, **kw)


def oneof(target, p, good, doc, other=None, **kw):
    other = other or {}
    rej(target, doc, {**other, p: S("no-such-option")}, **kw)
    if good and kw.pop("accept", True):
        acc(target, doc, *[{**other, p: S(g)} for g in good], **kw)


def arr(*rows):
    """exact nested list"""
    return lambda c, name: const([list(r) if isinstance(r, tuple) else r for r in rows], tagp(name)) if False else mkarr(c, name, rows)


def mkarr(c, name, rows):
    def build_(x):
        if isinstance(x, (tuple, list)):
            items = tuple(build_(y) for y in x)
            return mk(Seq("list", items, join_all(items) if items else BOT, num_const(len(items)), rootp(name)), tagp(name))
        return const(x, tagp(name))
    return build_(tuple(rows))


NEGSOME = lambda dims: A(dims, -1, 2, kinds=FLOAT, ex=((-1, -EPS),))
BIGSUM = lambda dims: FA(dims, 0.51, 0.9)

# ---------------------------------------------------------------- algebra
rej("BinaryPolynomialFraction", "denominator must be non-zero", {"denominator": CONST(0)}, exc=("ZeroDivisionError", "ValueError"), variant=1)
acc("BinaryPolynomialFraction", "denominator must be non-zero", {"denominator": CONST(1)}, {"denominator": CONST(6), "numerator": CONST(3)}, variant=1)
imin("FiniteBifield", "degree", 1, "degree must be a positive integer")
rej("FiniteBifield", "modulus degree must equal the field degree", {"degree": CONST(3), "modulus": CONST(0b111)}, {"degree": CONST(2), "modulus": CONST(0b1011)}, {"degree": CONST(3), "modulus": CONST(1)})
rej("FiniteBifield", "modulus must be irreducible", {"degree": CONST(2), "modulus": CONST(0b101)}, {"degree": CONST(4), "modulus": CONST(0b10101)},
    {"degree": CONST(3), "modulus": CONST(0b1111)}, {"degree": CONST(4), "modulus": CONST(0b10001)},
    # products of irreducible factors without roots: degrees 2+3, 3+3 (equal and distinct), 4*4, 3*4, 2*2*3
    *[{"degree": CONST(m.bit_length() - 1), "modulus": CONST(m)} for m in (0b110001, 0b100011, 0b1000101, 0b1111111, 0b100000101,
                                                                              0b10101101, 0b110111011, 0b101010101, 0b10010111)])
acc("FiniteBifield", "modulus must be irreducible", {"degree": CONST(2), "modulus": CONST(0b111)}, {"degree": CONST(4), "modulus": CONST(0b11111)},
    {"degree": CONST(3), "modulus": CONST(0b1101)}, {"degree": CONST(1), "modulus": CONST(0b11)},
    {"degree": CONST(6), "modulus": CONST(0b1001001)}, {"degree": CONST(8), "modulus": CONST(0b100011011)}, {"degree": CONST(5), "modulus": CONST(0b111101)})

# ---------------------------------------------------------------- channels, sources
for _c, _p in (("BinaryErasureChannel", "erasure_probability"), ("BinarySymmetricChannel", "crossover_probability"), ("ZChannel", "decay_probability")):
    interval(_c, _p, 0, 1, f"{_p} must lie in [0, 1]")
    acc(_c, f"{_p} must lie in [0, 1]", {_p: CONST(0)}, {_p: CONST(1)})
interval("GaussianChannel", "noise_power", 0, INF, "noise_power must be non-negative")
for _c, _p, _n in (("DiscreteMemorylessChannel", "transition_matrix", ("X", "Y")), ("MarkovChain", "transition_matrix", ("S", "S"))):
    rej(_c, "transition probabilities must be non-negative", {_p: NEGSOME(_n)}, {_p: arr((1.5, -0.5), (0.5, 0.5))}, {_p: arr((0.5, 0.5), (-0.25, 1.25))},
        {_p: arr((1.0, 0.0), (-1e-10, 1.0))}, {_p: arr((1.0, -1e-12), (0.5, 0.5))})
    rej(_c, "rows of the transition matrix must sum to one", {_p: arr((0.5, 0.25), (0.5, 0.5))}, {_p: arr((0.5, 0.5), (0.75, 0.5))},
        {_p: arr((1.0, 0.0), (0.0, 0.0))}, {_p: arr((0.75, 0.75), (0.25, 0.25))}, {_p: arr((0.25, 0.25), (0.75, 0.75))},
        {_p: arr((0.5, 0.501), (0.5, 0.499))}, {_p: arr((0.5, 0.5), (0.5, 0.499))}, {_p: arr((0.5, 0.5), (NAN, 0.5))})
    rej(_c, "transition matrix must be two-dimensional", {_p: FA(("S",), 0, 1)}, {_p: FA(("a", "b", "c"), 0, 1)}, {_p: FA((1, 1, 1), 1, 1)}, {_p: FA((2, 1, 2), 1, 1)})
    acc(_c, "valid transition matrix", {_p: arr((0.5, 0.5), (0.25, 0.75))}, {_p: arr((1.0, 0.0), (0.0, 1.0))}, {_p: arr((0.1, 0.9), (0.7, 0.3))},
        {_p: arr((1.0,))}, {_p: arr((0.5, 0.5 + 1e-12), (0.5 - 1e-12, 0.5))}, {_p: arr((0.1, 0.2, 0.7), (0.7, 0.1, 0.2), (0.2, 0.7, 0.1))})
rej("MarkovChain", "transition matrix must be square", {"transition_matrix": PMF((2, 3))}, {"transition_matrix": PMF((3, 2))})
acc("DiscreteMemorylessChannel", "rectangular transition matrices are valid", {"transition_matrix": PMF((2, 3))}, {"transition_matrix": PMF((3, 2))})


def pmfrows(target, **kw):
    p = "pmf"
    rej(target, "probabilities must be non-negative", {p: NEGSOME(("S",))}, {p: arr(1.5, -0.5)}, {p: arr(0.5, 0.75, -0.25)},
        {p: arr(1.0, -1e-10)}, {p: arr(-1e-12, 0.5, 0.5)}, **kw)
    rej(target, "probabilities must sum to one", {p: arr(0.5, 0.25)}, {p: arr(0.5, 0.5, 0.5)}, {p: arr(0.75, 0.5)},
        {p: arr(0.5, 0.499)}, {p: arr(0.5, 0.501)}, {p: arr(NAN, 0.5)}, {p: arr(0.0, 0.0)}, **kw)


for _c in ("HuffmanCode", "FanoCode", "ShannonCode", "TunstallCode", "DiscreteMemorylessSource"):
    pmfrows(_c)
    acc(_c, "valid pmf", {"pmf": arr(0.5, 0.5)}, {"pmf": arr(0.25, 0.5, 0.25)}, {"pmf": arr(0.1, 0.2, 0.7)}, {"pmf": arr(0.7, 0.1, 0.2)},
        {"pmf": arr(*[0.1] * 10)}, {"pmf": arr(0.5, 0.5 + 1e-12)}, {"pmf": arr(0.5, 0.5 - 1e-12)})
    rej(_c, "pmf must be one-dimensional", {"pmf": FA(("a", "b"), 0, 1)}, {"pmf": FA((1, 1), 1, 1)})
imin("DiscreteMemorylessSource", "pmf", 1, "cardinality must be at least 1", variant=1)
rej("ShannonCode", "zero probabilities are not allowed", {"pmf": arr(0.5, 0.5, 0.0)}, {"pmf": arr(0.0, 1.0)})
acc("HuffmanCode", "zero probabilities are allowed", {"pmf": arr(0.5, 0.5, 0.0)})
for _c in ("HuffmanCode", "FanoCode", "ShannonCode"):
    rej(_c, "source_block_size must be at least 1", {"source_block_size": INT_(-INF, 0)}, {"source_block_size": CONST(0)})
    acc(_c, "source_block_size must be at least 1", {"source_block_size": CONST(1)}, {"source_block_size": CONST(2)})
oneof("HuffmanCode", "policy", ["high", "low"], "policy must be 'high' or 'low'")
oneof("HuffmanCode", "assignment", ["tree", "canonical"], "assignment must be 'tree' or 'canonical'")
rej("TunstallCode", "2**target_block_size must reach the source cardinality", {"pmf": arr(0.25, 0.5, 0.25), "target_block_size": CONST(1)},
    {"pmf": PMF((5,)), "target_block_size": CONST(2)}, {"pmf": PMF((17,)), "target_block_size": INT_(0, 4)})
acc("TunstallCode", "2**target_block_size must reach the source cardinality", {"pmf": PMF((3,)), "target_block_size": CONST(2)},
    {"pmf": PMF((4,)), "target_block_size": CONST(2)}, {"pmf": PMF((2,)), "target_block_size": CONST(1)}, {"pmf": PMF((4,)), "target_block_size": NONE_()})

# ---------------------------------------------------------------- constellations, labelings
rej("BiorthogonalConstellation", "order must be even", *[{"order": CONST(x)} for x in (1, 3, 5, 7, 63)])
acc("BiorthogonalConstellation", "order must be even", *[{"order": CONST(x)} for x in (2, 4, 6, 64)])
rej("CrossQAMConstellation", "order must be 2**k with k odd and k >= 5", {"order": INT_(1, 31)}, {"order": CONST(8)}, {"order": CONST(2)},
    *[{"order": CONST(x)} for x in (33, 64, 48, 96, 100, 127, 129, 256, 1024, 384)])
acc("CrossQAMConstellation", "order must be 2**k with k odd and k >= 5", *[{"order": CONST(x)} for x in (32, 128, 512, 2048)])
rej("QAMConstellation", "a single order must be a perfect square", *[{"orders": CONST(x)} for x in (2, 3, 8, 15, 17, 32, 63, 65)], variant=1)
acc("QAMConstellation", "a single order must be a perfect square", *[{"orders": CONST(x)} for x in (1, 4, 9, 16, 64, 256, 1 << 60)], variant=1)
acc("QAMConstellation", "pairs of orders need not be square", {"orders": T(CONST(2), CONST(4))})
rej("Constellation", "matrix must be two-dimensional", {"matrix": FA(("a", "b", "c"))}, {"matrix": CA(("a", "b", "c"))})
acc("Constellation", "matrix must be two-dimensional", {"matrix": FA(("M", "N"))}, {"matrix": CA(("M", "N"))})
rej("Labeling", "matrix must be two-dimensional", {"matrix": A(("M",))}, {"matrix": A(("a", "b", "c"))})
rej("Labeling", "matrix must have shape (2**m, m)", {"matrix": A((3, 2))}, {"matrix": A((5, 2))}, {"matrix": A((8, 2))}, {"matrix": A((2, 2))}, {"matrix": A((4, 3))}, {"matrix": A((1, 1))}, {"matrix": A((1, 2))}, {"matrix": A((1, 3))})
rej("Labeling", "matrix entries must be 0 or 1", {"matrix": A((4, 2), -3, 4, ex=((2, 4),))}, {"matrix": A((4, 2), -3, 4, ex=((-3, -1),))},
    {"matrix": A((4, 2), 0, 2, ex=((2, 2),))}, {"matrix": A((2, 1), -1, 1, ex=((-1, -1),))},
    {"matrix": arr((0, 0), (0, 1), (1, 0), (1, 2))}, {"matrix": arr((0, 0), (0, 1), (1, 0), (1, -1))}, {"matrix": arr((0,), (2,))}, {"matrix": arr((-1,), (1,))})
rej("Labeling", "rows of the matrix must be distinct", {"matrix": arr((0, 0), (0, 1), (0, 1), (1, 1))}, {"matrix": arr((1,), (1,))})
acc("Labeling", "valid labeling matrix", {"matrix": arr((0, 0), (0, 1), (1, 1), (1, 0))}, {"matrix": arr((1,), (0,))})
imin("NaturalLabeling", "num_bits", 1, "num_bits must be a positive integer")
imin("ReflectedLabeling", "num_bits", 1, "num_bits must be a positive integer")
rej("ReflectedRectangularLabeling", "a single num_bits must be even and positive", *[{"num_bits": CONST(x)} for x in (1, 3, 0, -2, 5)], {"num_bits": INT_(-INF, 0)})
acc("ReflectedRectangularLabeling", "a single num_bits must be even and positive", *[{"num_bits": CONST(x)} for x in (2, 4, 6)])
rej("ReflectedRectangularLabeling", "num_bits pair must contain positive integers", {"num_bits": T(INT_(-INF, 0), INT_(1))}, {"num_bits": T(INT_(1), INT_(-INF, 0))}, variant=1)
acc("ReflectedRectangularLabeling", "num_bits pair must contain positive integers", {"num_bits": T(CONST(1), CONST(1))}, {"num_bits": T(CONST(1), CONST(2))}, variant=1)
imin("ProductLabeling", "repeat", 1, "repeat must be a positive integer")
rej("ProductLabeling", "at least one labeling is required", {"*labelings": T(), "repeat": CONST(1)})

# ---------------------------------------------------------------- block codes
MAT = lambda: A(("r", "n"))
rej("BlockCode", "exactly one of generator_matrix and check_matrix", {"generator_matrix": None}, {"generator_matrix": MAT(), "check_matrix": MAT()},
    {"generator_matrix": NONE_(), "check_matrix": NONE_()})
acc("BlockCode", "exactly one of generator_matrix and check_matrix", {"generator_matrix": MAT()}, {"generator_matrix": NONE_(), "check_matrix": MAT()})
imin("HammingCode", "mu", 2, "mu must satisfy mu >= 2")
imin("SimplexCode", "kappa", 2, "kappa must satisfy kappa >= 2")
imin("RepetitionCode", "n", 1, "n must be a positive integer")
imin("SingleParityCheckCode", "n", 1, "n must be a positive integer")
imin("CordaroWagnerCode", "n", 2, "n must satisfy n >= 2")
rej("ReedMullerCode", "rho and mu must satisfy 0 <= rho < mu", {"rho": INT_(-INF, -1), "mu": INT_(1)}, {"rho": CONST(2), "mu": INT_(1, 2)}, {"rho": CONST(3), "mu": CONST(3)},
    {"rho": CONST(0), "mu": CONST(0)}, {"rho": INT_(5, INF), "mu": INT_(1, 5)})
acc("ReedMullerCode", "rho and mu must satisfy 0 <= rho < mu", {"rho": CONST(0), "mu": CONST(1)}, {"rho": CONST(2), "mu": CONST(3)}, {"rho": CONST(1), "mu": CONST(4)})
rej("Lexicode", "n and d must satisfy 1 <= d <= n", {"n": INT_(1), "d": INT_(-INF, 0)}, {"n": CONST(3), "d": INT_(4)}, {"n": INT_(1, 4), "d": INT_(5)}, {"n": INT_(-INF, 0), "d": INT_(1)})
acc("Lexicode", "n and d must satisfy 1 <= d <= n", {"n": CONST(3), "d": CONST(3)}, {"n": CONST(3), "d": CONST(1)}, {"n": CONST(1), "d": CONST(1)})
rej("PolarCode", "mu must be at least 1", {"mu": INT_(-INF, 0), "frozen": arr(0)}, {"mu": CONST(0), "frozen": arr(0)})
rej("PolarCode", "frozen bits must lie in [0, 2**mu)", {"mu": CONST(2), "frozen": arr(0, 4)}, {"mu": CONST(2), "frozen": arr(-1, 0)}, {"mu": CONST(3), "frozen": arr(8)},
    {"mu": CONST(3), "frozen": A(("nf",), -9, 20, ex=((8, 20),))}, {"mu": CONST(3), "frozen": A(("nf",), -9, 7, ex=((-9, -1),))})
rej("PolarCode", "frozen bits must be distinct", {"mu": CONST(2), "frozen": arr(1, 1)}, {"mu": CONST(3), "frozen": arr(0, 2, 1, 2)})
acc("PolarCode", "valid frozen set", {"mu": CONST(2), "frozen": arr(0, 1, 2)}, {"mu": CONST(2), "frozen": arr(3)}, {"mu": CONST(3), "frozen": arr(7, 0)})
rej("BCHCode", "mu must satisfy mu >= 2", {"mu": INT_(-INF, 1), "delta": CONST(3)}, {"mu": CONST(1), "delta": CONST(2)})
rej("BCHCode", "delta must satisfy 2 <= delta <= 2**mu - 1", {"mu": CONST(3), "delta": INT_(-INF, 1)}, {"mu": CONST(3), "delta": INT_(8)}, {"mu": CONST(4), "delta": CONST(16)}, {"mu": CONST(4), "delta": CONST(1)})
acc("BCHCode", "delta must satisfy 2 <= delta <= 2**mu - 1", {"mu": CONST(3), "delta": CONST(3)}, {"mu": CONST(3), "delta": CONST(7)}, {"mu": CONST(2), "delta": CONST(3)})
rej("CyclicCode", "exactly one of generator_polynomial and check_polynomial", {"generator_polynomial": None, "length": CONST(7)},
    {"length": CONST(7), "generator_polynomial": CONST(0b1011), "check_polynomial": CONST(0b10111)}, {"length": CONST(7), "generator_polynomial": CONST(0b1011), "check_polynomial": CONST(0b1011)})
rej("CyclicCode", "generator_polynomial must divide X**n + 1", {"length": CONST(7), "generator_polynomial": CONST(0b111)}, {"length": CONST(5), "generator_polynomial": CONST(0b1011)},
    {"length": CONST(8), "generator_polynomial": CONST(0b1011)}, variant=1)
acc("CyclicCode", "generator_polynomial must divide X**n + 1", {"length": CONST(7), "generator_polynomial": CONST(0b1011)}, {"length": CONST(7), "generator_polynomial": CONST(0b11)}, {"length": CONST(23), "generator_polynomial": CONST(0b101011100011)}, variant=1)
rej("CyclicCode", "check_polynomial must divide X**n + 1", {"length": CONST(7), "check_polynomial": CONST(0b111)}, {"length": CONST(9), "check_polynomial": CONST(0b1011)}, variant=2)
acc("CyclicCode", "check_polynomial must divide X**n + 1", {"length": CONST(7), "check_polynomial": CONST(0b10111)}, {"length": CONST(7), "check_polynomial": CONST(0b1101)}, variant=2)
rej("SystematicBlockCode", "information_set string must be 'left' or 'right'", {"information_set": S("middle")})
acc("SystematicBlockCode", "information_set string must be 'left' or 'right'", {"information_set": S("left")}, {"information_set": S("right")})
rej("SystematicBlockCode", "information_set must be a k-sublist of [0, n)", {"parity_submatrix": A((2, 3)), "information_set": A((3,), 0, 4)},
    {"parity_submatrix": A((2, 3)), "information_set": A((1,), 0, 4)}, {"parity_submatrix": A((2, 3)), "information_set": arr(0, -1)},
    {"parity_submatrix": A((2, 3)), "information_set": arr(0, 5)}, {"parity_submatrix": A((2, 3)), "information_set": arr(1, 6)}, {"parity_submatrix": A((2, 3)), "information_set": arr(1, 1)}, variant=1)
acc("SystematicBlockCode", "information_set must be a k-sublist of [0, n)", {"parity_submatrix": A((2, 3)), "information_set": arr(0, 4)},
    {"parity_submatrix": A((2, 3)), "information_set": arr(3, 1)}, variant=1)

# ---------------------------------------------------------------- convolutional codes, decoders
rej("ConvolutionalCode", "feedforward_polynomials must be two-dimensional", {"feedforward_polynomials": A(("n",), 1, INF)}, {"feedforward_polynomials": A(("a", "b", "c"), 1, INF)})
rej("ConvolutionalCode", "feedback_polynomials must be a k-vector", {"feedback_polynomials": A(("k", "n"), 1, INF)}, {"feedforward_polynomials": A((2, 3), 1, INF), "feedback_polynomials": A((3,), 1, INF)},
    {"feedforward_polynomials": A((2, 3), 1, INF), "feedback_polynomials": A((1,), 1, INF)}, variant=1)
acc("ConvolutionalCode", "feedback_polynomials must be a k-vector", {"feedforward_polynomials": A((2, 3), 1, INF), "feedback_polynomials": A((2,), 1, INF)}, variant=1)
rej("HighRateConvolutionalCode", "h_row must be a vector", {"h_row": A(("k", "n"), 1, INF)})
rej("LowRateConvolutionalCode", "g_row must be a vector", {"g_row": A(("k", "n"), 1, INF)})
oneof("TerminatedConvolutionalCode", "mode", ["direct-truncation", "zero-termination", "tail-biting"], "mode must be one of the three termination modes")
oneof("BCJRDecoder", "output_type", ["hard", "soft"], "output_type must be 'hard' or 'soft'")
rej("ViterbiDecoder", "tail-biting codes are not supported", {"code": O("TerminatedConvolutionalCode", 2)}, exc=("NotImplementedError", "ValueError"))
acc("ViterbiDecoder", "tail-biting codes are not supported", {"code": O("TerminatedConvolutionalCode", 1)}, {"code": O("TerminatedConvolutionalCode", 0)})
oneof("ViterbiDecoder", "input_type", ["hard", "soft"], "input_type must be 'hard' or 'soft'")
oneof("ExhaustiveSearchDecoder", "input_type", ["hard", "soft"], "input_type must be 'hard' or 'soft'")
oneof("ReedDecoder", "input_type", ["hard", "soft"], "input_type must be 'hard' or 'soft'")
oneof("SCDecoder", "output_type", ["hard", "soft"], "output_type must be 'hard' or 'soft'")
oneof("ViterbiStreamDecoder", "input_type", ["hard", "soft"], "input_type must be 'hard' or 'soft'")

# ---------------------------------------------------------------- lossless coding
for _c in ("LempelZiv77Code", "LempelZivSSCode"):
    imin(_c, "search_size", 1, "search_size must be at least 1")
    imin(_c, "lookahead_size", 1, "lookahead_size must be at least 1")
    rej(_c, "search_buffer must have length search_size", {"search_size": CONST(4), "search_buffer": A((3,))}, {"search_size": CONST(4), "search_buffer": A((5,))}, variant=1)
    acc(_c, "search_buffer must have length search_size", {"search_size": CONST(4), "search_buffer": A((4,))}, variant=1)
for _c in ("LempelZiv77Code", "LempelZivSSCode", "LempelZiv78Code", "LempelZivWelchCode"):
    imin(_c, "source_cardinality", 2, "source_cardinality must be at least 2")
    imin(_c, "target_cardinality", 2, "target_cardinality must be at least 2")
_F2V = dict(source_cardinality=CONST(2), target_cardinality=CONST(2), source_block_size=CONST(1))


def mapping(d):
    def f(c, name):
        items = tuple((k, const(v)) for k, v in d.items())
        return mk(Map(items, join_all([const(k) for k in d]), join_all([v for _, v in items]), num_const(len(items)), rootp(name)), tagp(name))
    return f


def f2v(doc, good, *cases):
    (acc if good else rej)("FixedToVariableCode", doc, *[{**_F2V, **{k: v for k, v in c.items()}} for c in cases])


imin("FixedToVariableCode", "source_cardinality", 2, "source_cardinality must be at least 2", accept=False)
imin("FixedToVariableCode", "target_cardinality", 2, "target_cardinality must be at least 2", accept=False)
imin("FixedToVariableCode", "source_block_size", 1, "source_block_size must be at least 1", accept=False)
# one violated parameter at a time, everything else consistent with it
rej("FixedToVariableCode", "source_cardinality must be at least 2", {**_F2V, "source_cardinality": CONST(1), "enc_mapping": mapping({(0,): (0,)})}, {**_F2V, "source_cardinality": CONST(0), "enc_mapping": mapping({})})
rej("FixedToVariableCode", "target_cardinality must be at least 2", {**_F2V, "target_cardinality": CONST(1), "enc_mapping": mapping({(0,): (0,), (1,): (0, 0)})})
rej("FixedToVariableCode", "source_block_size must be at least 1", {**_F2V, "source_block_size": CONST(0), "enc_mapping": mapping({(): (0,)})})
f2v("encoding domain must be all source blocks", False, {"enc_mapping": mapping({(0,): (0,)})}, {"enc_mapping": mapping({(0,): (0,), (2,): (1,)})},
    {"enc_mapping": mapping({(0,): (0,), (1,): (1,), (2,): (1, 1)})}, {"enc_mapping": mapping({(0, 0): (0,), (1, 1): (1,)})})
f2v("codewords must be over the target alphabet", False, {"enc_mapping": mapping({(0,): (0,), (1,): (2,)})}, {"enc_mapping": mapping({(0,): (0,), (1,): (-1, 0)})},
    {"enc_mapping": mapping({(0,): (0, 0, 2), (1,): (1,)})})
f2v("valid encoding mapping", True, {"enc_mapping": mapping({(0,): (0,), (1,): (1, 1)})}, {"target_cardinality": CONST(3), "enc_mapping": mapping({(0,): (0,), (1,): (2,)})})
_V2F = dict(source_cardinality=CONST(2), target_cardinality=CONST(2), target_block_size=CONST(1))
imin("VariableToFixedCode", "source_cardinality", 2, "source_cardinality must be at least 2", accept=False)
imin("VariableToFixedCode", "target_cardinality", 2, "target_cardinality must be at least 2", accept=False)
imin("VariableToFixedCode", "target_block_size", 1, "target_block_size must be at least 1", accept=False)
rej("VariableToFixedCode", "source_cardinality must be at least 2", {**_V2F, "source_cardinality": CONST(1), "dec_mapping": mapping({(0,): (0,), (1,): (0, 0)})}, {**_V2F, "source_cardinality": CONST(0), "dec_mapping": mapping({})})
rej("VariableToFixedCode", "target_cardinality must be at least 2", {**_V2F, "target_cardinality": CONST(1), "dec_mapping": mapping({(0,): (0,)})})
rej("VariableToFixedCode", "target_block_size must be at least 1", {**_V2F, "target_block_size": CONST(0), "dec_mapping": mapping({(): (0,)})})
rej("VariableToFixedCode", "decoding domain must be target blocks", {**_V2F, "dec_mapping": mapping({(0,): (0,), (2,): (1,)})}, {**_V2F, "dec_mapping": mapping({(0, 0): (0,)})})
rej("VariableToFixedCode", "sourcewords must be non-empty and over the source alphabet", {**_V2F, "dec_mapping": mapping({(0,): (0,), (1,): (2,)})},
    {**_V2F, "dec_mapping": mapping({(0,): (0,), (1,): ()})}, {**_V2F, "dec_mapping": mapping({(0,): (0, -1), (1,): (1,)})})
acc("VariableToFixedCode", "valid decoding mapping", {**_V2F, "dec_mapping": mapping({(0,): (0,), (1,): (1, 1)})}, {**_V2F, "dec_mapping": mapping({(0,): (0,)})})

# ---------------------------------------------------------------- pulses, quantisers, sequences
interval("RaisedCosinePulse", "rolloff", 0, 1, "rolloff must lie in [0, 1]")
interval("BeaulieuPulse", "rolloff", 0, 1, "rolloff must lie in [0, 1]")
interval("RectangularPulse", "width", 0, 1, "width must lie in (0, 1]", lo_open=True)
interval("GaussianPulse", "half_power_bandwidth", 0, INF, "half_power_bandwidth must be positive", lo_open=True)
imin("UniformQuantizer", "num_levels", 2, "num_levels must be greater than 1")
imin("LloydMaxQuantizer", "num_levels", 2, "num_levels must be greater than 1", accept=False)
interval("UniformQuantizer", "step", 0, INF, "step must be positive", lo_open=True)
rej("ScalarQuantizer", "there must be one threshold fewer than levels", {"levels": FA((4,)), "thresholds": FA((4,))}, {"levels": FA((4,)), "thresholds": FA((2,))},
    {"levels": FA((2,)), "thresholds": FA((0,))})
rej("ScalarQuantizer", "levels and thresholds must interleave in increasing order", {"levels": arr(0.0, 1.0, 2.0), "thresholds": arr(1.5, 0.5)},
    {"levels": arr(2.0, 1.0, 0.0), "thresholds": arr(1.5, 0.5)}, {"levels": arr(0.0, 1.0, 2.0), "thresholds": arr(0.5, 0.75)}, {"levels": arr(0.0, 1.0), "thresholds": arr(1.0)}, {"levels": arr(0.0, 0.0), "thresholds": arr(0.0)})
acc("ScalarQuantizer", "levels and thresholds must interleave in increasing order", {"levels": arr(0.0, 1.0, 2.0), "thresholds": arr(0.5, 1.5)})
rej("BarkerSequence", "length must be one of 2, 3, 4, 5, 7, 11, 13", *[{"length": CONST(x)} for x in (0, 1, 6, 8, 9, 10, 12, 14)], {"length": INT_(14)}, {"length": INT_(-INF, 1)}, {"length": INT_(8, 10)})
acc("BarkerSequence", "length must be one of 2, 3, 4, 5, 7, 11, 13", *[{"length": CONST(x)} for x in (2, 3, 4, 5, 7, 11, 13)])
rej("BinarySequence", "exactly one of bit_sequence and polar_sequence", {"bit_sequence": None}, {"bit_sequence": A(("n",)), "polar_sequence": A(("n",), -1, 1)})
acc("BinarySequence", "exactly one of bit_sequence and polar_sequence", {"bit_sequence": A(("n",))}, {"bit_sequence": NONE_(), "polar_sequence": A(("n",), -1, 1)})
rej("WalshHadamardSequence", "length must be a power of two", *[{"length": CONST(x), "index": CONST(0)} for x in (3, 6, 5, 12, 7, 48)])
acc("WalshHadamardSequence", "length must be a power of two", *[{"length": CONST(x), "index": CONST(0), "ordering": S("natural")} for x in (1, 2, 4, 32)])
rej("WalshHadamardSequence", "index must lie in [0, length)", {"length": CONST(8), "index": INT_(8)}, {"length": CONST(8), "index": INT_(-INF, -1)}, {"length": CONST(4), "index": CONST(4)})
acc("WalshHadamardSequence", "index must lie in [0, length)", {"length": CONST(8), "index": CONST(7), "ordering": S("natural")}, {"length": CONST(8), "index": CONST(0), "ordering": S("sequency")},
    {"length": CONST(8), "index": CONST(7), "ordering": S("sequency")}, {"length": CONST(1), "index": CONST(0), "ordering": S("natural")})
rej("WalshHadamardSequence", "ordering must be a known ordering", {"length": CONST(8), "index": CONST(0), "ordering": S("alphabetic")})
rej("ZadoffChuSequence", "length must be odd", *[{"length": CONST(x), "root_index": CONST(1)} for x in (2, 4, 64, 10)])
acc("ZadoffChuSequence", "length must be odd", *[{"length": CONST(x), "root_index": CONST(1)} for x in (3, 5, 63, 139)])
rej("ZadoffChuSequence", "root_index must lie in [1, length)", {"length": CONST(7), "root_index": INT_(-INF, 0)}, {"length": CONST(7), "root_index": INT_(7)}, {"length": CONST(3), "root_index": CONST(3)})
acc("ZadoffChuSequence", "root_index must lie in [1, length)", {"length": CONST(7), "root_index": CONST(6)}, {"length": CONST(7), "root_index": CONST(1)})

# ---------------------------------------------------------------- functions and methods
for _f in ("sampling_rate_compress", "sampling_rate_expand"):
    rej(_f, "factor must be a positive integer", {"factor": INT_(-INF, 0), "offset": CONST(0)}, {"factor": CONST(0), "offset": CONST(0)})
    acc(_f, "factor must be a positive integer", {"factor": CONST(1), "offset": CONST(0)}, {"factor": CONST(3), "offset": CONST(0)})
    rej(_f, "offset must lie in [0, factor)", {"factor": CONST(3), "offset": INT_(3)}, {"factor": CONST(3), "offset": INT_(-INF, -1)}, {"factor": CONST(1), "offset": CONST(1)})
    acc(_f, "offset must lie in [0, factor)", {"factor": CONST(3), "offset": CONST(2)}, {"factor": CONST(3), "offset": CONST(0)})
rej("marcum_q", "m must be positive", {"m": INT_(-INF, 0)}, {"m": CONST(0)})
acc("marcum_q", "m must be positive", {"m": CONST(1)}, {"m": CONST(2)})
rej("marcum_q", "a and x must be non-negative", {"a": FA(("L",), -INF, INF, ex=((-INF, -EPS),))}, {"x": FA(("L",), -INF, INF, ex=((-INF, -EPS),))}, {"a": CONST(-0.5), "x": CONST(1.0)}, {"a": CONST(0.5), "x": CONST(-1.0)})
acc("marcum_q", "a and x must be non-negative", {"a": CONST(0.0), "x": CONST(0.0)}, {"a": CONST(1.0), "x": CONST(2.0)})
rej("binary_entropy_inv", "h must lie in [0, 1]", {"h": FLT(1 + EPS, INF)}, {"h": FLT(-INF, -EPS)})
acc("binary_entropy_inv", "h must lie in [0, 1]", {"h": CONST(0.0)}, {"h": CONST(1.0)}, {"h": CONST(0.5)})
for _f in ("entropy", "relative_entropy"):
    rej(_f, "probabilities must be non-negative", {"pmf": NEGSOME(("S",))}, {"pmf": arr(1.5, -0.5)})
    rej(_f, "probabilities must sum to one", {"pmf": arr(0.5, 0.25)}, {"pmf": arr(0.75, 0.5)})
    rej(_f, "base must be 'e' or a positive real other than 1", {"base": CONST(NAN)}, {"base": FLT(-INF, 0)}, {"base": CONST(1.0)}, {"base": CONST(1)}, {"base": CONST(0)}, {"base": S("x")})
    acc(_f, "base must be 'e' or a positive real other than 1", {"base": S("e")}, {"base": CONST(2.0)}, {"base": CONST(0.5)}, {"base": CONST(10)})
rej("relative_entropy", "probabilities must be non-negative", {"qmf": NEGSOME(("S",))}, {"qmf": arr(1.5, -0.5)})
rej("relative_entropy", "the two pmfs must have the same shape", {"pmf": PMF((1,)), "qmf": PMF((2,))}, {"pmf": PMF((2,)), "qmf": PMF((1,))}, {"pmf": PMF((2,)), "qmf": PMF((3,))}, {"pmf": PMF((4,)), "qmf": PMF((3,))})
rej("boxplus", "inputs must have the same shape", {"a": FA((2,)), "b": FA((3,))}, {"a": FA((2, 3)), "b": FA((3,))}, {"a": FA((1,)), "b": FA((3,))})
acc("boxplus", "inputs must have the same shape", {"a": FA((2, 3)), "b": FA((2, 3))})
for _f in ("bits_to_int", "int_to_bits"):
    oneof(_f, "bit_order", ["LSB-first", "MSB-first"], "bit_order must be 'LSB-first' or 'MSB-first'")
rej("convolve", "at least one input must be one-dimensional", {"input1": FA(("a", "b")), "input2": FA(("c", "d"))}, {"input1": FA(("a", "b", "e")), "input2": FA(("c", "d"))})
acc("convolve", "at least one input must be one-dimensional", {"input1": FA(("a", "b")), "input2": FA(("d",))}, {"input1": FA(("d",)), "input2": FA(("a", "b"))})
for _c, _m in (("DiscreteMemorylessChannel", "mutual_information"), ("DiscreteMemorylessChannel", "capacity"), ("BinarySymmetricChannel", "mutual_information"),
               ("BinarySymmetricChannel", "capacity"), ("BinaryErasureChannel", "mutual_information"), ("BinaryErasureChannel", "capacity"), ("ZChannel", "mutual_information"), ("ZChannel", "capacity")):
    rej(_c, f"{_m}: base must be 'e' or a positive real other than 1", {"base": FLT(-INF, 0)}, {"base": CONST(1.0)}, {"base": S("x")}, {"base": CONST(NAN)}, member=_m)
    acc(_c, f"{_m}: base must be 'e' or a positive real other than 1", {"base": S("e")}, {"base": CONST(3.0)}, member=_m)
for _c in ("DiscreteMemorylessChannel", "BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel"):
    rej(_c, "mutual_information: probabilities must be non-negative", {"input_pmf": NEGSOME(("S",))}, member="mutual_information")
for _c in ("BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel"):
    rej(_c, "mutual_information: input_pmf must have one entry per input symbol", {"input_pmf": PMF((3,))}, {"input_pmf": PMF((1,))}, member="mutual_information")
rej("DiscreteMemorylessChannel", "mutual_information: input_pmf must have one entry per input symbol", {"input_pmf": PMF((3,))}, {"input_pmf": PMF((5,))}, member="mutual_information",
    ctor={"transition_matrix": PMF((4, 3))})
for _c in ("FixedToVariableCode", "VariableToFixedCode"):
    rej(_c, "rate: probabilities must be non-negative", {"pmf": NEGSOME(("S",))}, member="rate")


def jobs(prog, tier):
    pub, fn = prog.public_classes(), prog.public_functions()
    return [("row", i) for i, r in enumerate(ROWS) if r.target in pub or r.target in fn]


def job(prog, j):
    return check_row(prog, ROWS[j[1]], "parameter-domain")
