"""C13: operations refuse arguments that violate their precondition."""
from .rows import *
from .c05 import arr, mapping, NEGSOME, EPS

TITLE = "Operations refuse arguments that violate their precondition"
RULE = ("Abstract interpretation of every operation over regions of arguments that violate a documented precondition (a size that does not fit the object, symbols outside the "
        "alphabet, an object the operation does not apply to): no path may return normally while no documented error is reachable; on the neighbouring valid regions a normal exit "
        "must remain.")
ASSUME = ENGINE_ASSUMPTIONS + ["documented preconditions are transcribed from the operation's documentation into sa/props/c13.py"]
MIN = {"obligations": 200}

ROWS = []
ANYERR = ("ValueError", "TypeError", "IndexError", "ZeroDivisionError", "NotImplementedError", "KeyError", "RuntimeError", "AssertionError")


def rej(target, member, doc, *overs, ctor=None, **kw):
    kw.setdefault("exc", ("ValueError", "TypeError"))
    for o in overs:
        ROWS.append(Row(target, o, "reject", doc, member=member, ctor=ctor, **kw))


def acc(target, member, doc, *overs, ctor=None, **kw):
    for o in overs:
        ROWS.append(Row(target, o, "accept", doc, member=member, ctor=ctor, **kw))


def size(target, member, p, n, doc, *, el=A, ctor=None, single=False, **kw):
    """the last dimension of argument p must be a multiple of n (or exactly n)"""
    bad = [n + 1, 2 * n - 1] + ([1] if n > 2 else [])
    if n > 1:
        for b in dict.fromkeys(bad):
            rej(target, member, doc, {p: el((b,))}, {p: el((3, b))}, {p: el((n, b))}, {p: el(("s", b))}, ctor=ctor, **kw)
    acc(target, member, doc, {p: el((n,))}, {p: el((2 * n,))}, {p: el((3, n))}, {p: el(("s", 2 * n))}, ctor=ctor, **kw)


# ---------------------------------------------------------------- block codes and their decoders
GEN = A((2, 5))
CODES = [
    ("BlockCode", 0, dict(generator_matrix=GEN), 2, 5), ("SystematicBlockCode", 0, dict(parity_submatrix=A((3, 4)), information_set=S("left")), 3, 7),
    ("HammingCode", 0, dict(mu=CONST(3)), 4, 7), ("HammingCode", 1, dict(mu=CONST(3)), 4, 8), ("SimplexCode", 0, dict(kappa=CONST(3)), 3, 7),
    ("GolayCode", 0, {}, 12, 23), ("GolayCode", 1, {}, 12, 24), ("RepetitionCode", 0, dict(n=CONST(5)), None, 5), ("SingleParityCheckCode", 0, dict(n=CONST(5)), 4, 5),
    ("CordaroWagnerCode", 0, dict(n=CONST(5)), 2, 5), ("ReedMullerCode", 0, dict(rho=CONST(1), mu=CONST(3)), 4, 8),
    ("PolarCode", 0, dict(mu=CONST(3), frozen=arr(0, 1, 2, 4)), 4, 8), ("CyclicCode", 1, dict(length=CONST(7), generator_polynomial=CONST(0b1011)), 4, 7),
]
for _c, _v, _k, _dim, _n in CODES:
    if _dim:
        size(_c, "encode", "input", _dim, "encode: the last dimension must be a multiple of the code dimension", ctor=_k, variant=_v)
    for _m in ("inverse_encode", "check", "project_word"):
        size(_c, _m, "input", _n, f"{_m}: the last dimension must be a multiple of the code length", ctor=_k, variant=_v)

# a word with a non-zero syndrome, wherever the non-zero syndrome bit is (`check` is replaced by its contract)
def litarr(*rows):
    xs = [x for r in rows for x in r]
    return A((len(rows), len(rows[0])), min(xs), max(xs), dt="i64", ex=tuple((x, x) for x in sorted(set(xs))), aux=frozenset([("lit", tuple(rows))]))


for _c, _v, _k, _dim, _n in CODES:
    for _s in (litarr((1, 1, 1), (1, 1, 1)), litarr((0, 0, 0), (1, 1, 1)), litarr((1, 1, 1), (0, 0, 0)), litarr((0, 0, 1), (0, 0, 0)), litarr((0, 0, 0), (0, 1, 0)), litarr((1, 0, 0), (0, 0, 0))):
        rej(_c, "inverse_encode", "inverse_encode: the input must consist of codewords", {"input": A((2, _n))}, ctor=_k, variant=_v, stub={"check": _s})
    acc(_c, "inverse_encode", "inverse_encode: the input must consist of codewords", {"input": A((2, _n))}, ctor=_k, variant=_v, stub={"check": litarr((0, 0, 0), (0, 0, 0))})

# ---------------------------------------------------------------- convolutional codes
_CC = dict(feedforward_polynomials=A((2, 3), 1, INF))
for _v in (0, 1):
    _k = dict(_CC, **({"feedback_polynomials": A((2,), 1, INF)} if _v else {}))
    rej("ConvolutionalCode", "encode_with_state", "initial_state must be one-dimensional", {"initial_state": A((1, 2))}, {"initial_state": A(("s", "t"))}, ctor=_k, variant=_v)
_FF = dict(feedforward_polynomials=arr((7, 5)))
rej("ConvolutionalCode", "encode_with_state", "initial_state must have one entry per memory element", {"initial_state": A((1,))}, {"initial_state": A((3,))}, {"initial_state": A((0,))}, ctor=_FF)
acc("ConvolutionalCode", "encode_with_state", "initial_state must have one entry per memory element", {"initial_state": A((2,))}, ctor=_FF)
for _mem in ("is_catastrophic",):
    rej("ConvolutionalCode", _mem, f"{_mem}: only defined for polynomial generator matrices",
        {}, ctor=dict(feedforward_polynomials=arr((7, 5)), feedback_polynomials=arr(7)), variant=1, exc=ANYERR)

# ---------------------------------------------------------------- labelings
LABS = [("Labeling", 0, dict(matrix=A((4, 2))), 4, 2), ("NaturalLabeling", 0, dict(num_bits=CONST(2)), 4, 2), ("NaturalLabeling", 0, dict(num_bits=CONST(3)), 8, 3),
        ("ReflectedLabeling", 0, dict(num_bits=CONST(2)), 4, 2), ("ReflectedLabeling", 0, dict(num_bits=CONST(3)), 8, 3),
        ("ReflectedRectangularLabeling", 0, dict(num_bits=CONST(4)), 16, 4), ("ReflectedRectangularLabeling", 1, dict(num_bits=T(CONST(1), CONST(2))), 8, 3),
        ("ProductLabeling", 0, {"*labelings": T(O("NaturalLabeling", num_bits=CONST(1)), O("ReflectedLabeling", num_bits=CONST(2))), "repeat": CONST(1)}, 8, 3)]
for _c, _v, _k, _M, _m in LABS:
    _d = "indices_to_bits: indices must lie in [0, 2**m)"
    rej(_c, "indices_to_bits", _d, {"indices": A(("L",), -9, 40, ex=((_M, 40),))}, {"indices": A(("L",), -9, 40, ex=((-9, -1),))}, {"indices": A(("s", "L"), 0, 4 * _M, ex=((_M, _M),))},
        {"indices": A((3,), _M, INF)}, {"indices": A((3,), -INF, -1)}, ctor=_k, variant=_v)
    acc(_c, "indices_to_bits", _d, {"indices": A((3,), 0, 0)}, {"indices": A((3,), _M - 1, _M - 1)}, {"indices": A(("L",), 0, _M - 1)}, ctor=_k, variant=_v)
    _d = "bits_to_indices: elements must be bits"
    rej(_c, "bits_to_indices", _d, {"bits": A((2 * _m,), -9, 9, ex=((2, 9),))}, {"bits": A((2 * _m,), -9, 9, ex=((-9, -1),))}, {"bits": A((_m,), 2, 2)}, {"bits": A((3, _m), -1, -1)}, ctor=_k, variant=_v)
    size(_c, "bits_to_indices", "bits", _m, "bits_to_indices: the last dimension must be a multiple of the number of bits", ctor=_k, variant=_v)
    size(_c, "marginalize", "metrics", _M, "marginalize: the last dimension must be a multiple of the cardinality", el=lambda d: FA(d, 0, 1), ctor=_k, variant=_v)

# ---------------------------------------------------------------- constellations
CONS = [("Constellation", 0, dict(matrix=FA((5, 3))), 5, 3, FA), ("Constellation", 1, dict(matrix=CA((5, 3))), 5, 3, CA), ("OrthogonalConstellation", 0, dict(order=CONST(4)), 4, 4, FA),
        ("BiorthogonalConstellation", 0, dict(order=CONST(6)), 6, 3, FA), ("SimplexConstellation", 0, dict(order=CONST(4)), 4, None, FA),
        ("PSKConstellation", 0, dict(order=CONST(8)), 8, 1, CA), ("ASKConstellation", 0, dict(order=CONST(4)), 4, 1, CA), ("PAMConstellation", 0, dict(order=CONST(4)), 4, 1, FA),
        ("QAMConstellation", 0, dict(orders=T(CONST(2), CONST(4))), 8, 1, CA), ("APSKConstellation", 0, dict(orders=T(CONST(4), CONST(12))), 16, 1, CA)]
for _c, _v, _k, _M, _N, _el in CONS:
    if _N and _N > 1:
        for _m in ("closest_indices", "closest_symbols", "posteriors"):
            size(_c, _m, "received", _N, f"{_m}: the last dimension must be a multiple of the constellation dimension", el=_el, ctor=_k, variant=_v)
    for _m in ("mean", "mean_energy", "posteriors"):
        _i = 1 if _m == "posteriors" and _el is CA else 0
        rej(_c, _m, f"{_m}: priors must have one entry per symbol", {"priors": PMF((_M + 1,))}, {"priors": PMF((_M - 1,))}, {"priors": PMF((1,))}, ctor=_k, variant=_v, idx=_i)
        acc(_c, _m, f"{_m}: priors must have one entry per symbol", {"priors": PMF((_M,))}, {"priors": NONE_()}, ctor=_k, variant=_v, idx=_i)
        rej(_c, _m, f"{_m}: priors must be a pmf", {"priors": NEGSOME((_M,))}, {"priors": arr(*([0.75] * _M))}, ctor=_k, variant=_v, idx=_i)

# ---------------------------------------------------------------- lossless and integer coding
for _c, _k in (("FixedToVariableCode", dict(source_cardinality=CONST(2), target_cardinality=CONST(2), source_block_size=CONST(2),
                                            enc_mapping=mapping({(0, 0): (0,), (0, 1): (1, 0), (1, 0): (1, 1, 0), (1, 1): (1, 1, 1)}))),):
    rej(_c, "encode", "encode: the input length must be a multiple of the source block size", {"input": A((3,))}, {"input": A((7,))}, ctor=_k)
    acc(_c, "encode", "encode: the input length must be a multiple of the source block size", {"input": A((4,))}, ctor=_k)
    rej(_c, "encode", "encode: the input must be made of source words", {"input": A((4,), 2, 9)}, {"input": A((2,), -4, -1)}, ctor=_k)
    rej(_c, "decode", "decode: the input must be a sequence of codewords", {"input": A((2,), 2, 9)}, {"input": A((5,), -4, -1)}, {"input": A((4,), 1, 1)}, ctor=_k)
    acc(_c, "decode", "decode: the input must be a sequence of codewords", {"input": A((4,), 0, 0)}, {"input": A((6,), 1, 1)}, ctor=_k)
_AMB = dict(source_cardinality=CONST(3), target_cardinality=CONST(2), source_block_size=CONST(1), enc_mapping=mapping({(0,): (0,), (1,): (1,), (2,): (0, 1)}))
for _m in ("encode", "decode"):
    rej("FixedToVariableCode", _m, f"{_m}: the code must be uniquely decodable", {"input": A((4,))}, ctor=_AMB)
_V = dict(source_cardinality=CONST(2), target_cardinality=CONST(2), target_block_size=CONST(2), dec_mapping=mapping({(0, 0): (0, 0), (0, 1): (0, 1), (1, 0): (1,)}))
rej("VariableToFixedCode", "decode", "decode: the input length must be a multiple of the target block size", {"input": A((3,))}, {"input": A((1,))}, ctor=_V)
acc("VariableToFixedCode", "decode", "decode: the input length must be a multiple of the target block size", {"input": A((4,), 0, 0)}, ctor=_V)
rej("VariableToFixedCode", "decode", "decode: the input must be a sequence of codewords", {"input": A((4,), 2, 9)}, {"input": A((2,), -4, -1)}, {"input": A((2,), 1, 1)}, ctor=_V)
rej("VariableToFixedCode", "encode", "encode: the input must be made of source symbols", {"input": A((3,), 2, 9)}, {"input": A((2,), -4, -1)}, ctor=_V)
_NC = dict(source_cardinality=CONST(2), target_cardinality=CONST(2), target_block_size=CONST(1), dec_mapping=mapping({(0,): (0,), (1,): (0, 1)}))
for _m in ("encode", "decode"):
    rej("VariableToFixedCode", _m, f"{_m}: the code must be fully covering", {"input": A((4,))}, ctor=_NC)
# the predicates answered by their contract for these very codes, so that only the refusal itself remains to be decided
_YES, _NO = CONST(True), CONST(False)
for _m in ("encode", "decode"):
    rej("VariableToFixedCode", _m, f"{_m}: the code must be fully covering", {"input": arr(0)}, ctor=_NC,
        stub={"is_fully_covering": _NO, "is_uniquely_encodable": _YES, "is_prefix_free": _NO if _m == "decode" else _YES})
    acc("VariableToFixedCode", _m, f"{_m}: the code must be fully covering", {"input": arr(0, 0)}, ctor=_V,
        stub={"is_fully_covering": _YES, "is_uniquely_encodable": _YES, "is_prefix_free": _YES})
    rej("VariableToFixedCode", _m, f"{_m}: the code must be uniquely encodable", {"input": arr(0)},
        ctor=dict(source_cardinality=CONST(2), target_cardinality=CONST(3), target_block_size=CONST(1), dec_mapping=mapping({(0,): (0,), (1,): (1,), (2,): (0, 1)})),
        stub={"is_fully_covering": _YES, "is_uniquely_encodable": _NO, "is_prefix_free": _NO if _m == "decode" else _YES})
    rej("FixedToVariableCode", _m, f"{_m}: the code must be uniquely decodable", {"input": arr(0)}, ctor=_AMB,
        stub={"is_uniquely_decodable": _NO, "is_prefix_free": _NO if _m == "encode" else _YES})
_F = dict(source_cardinality=CONST(2), target_cardinality=CONST(2), source_block_size=CONST(2),
          enc_mapping=mapping({(0, 0): (0,), (0, 1): (1, 0), (1, 0): (1, 1, 0), (1, 1): (1, 1, 1)}))
rej("FixedToVariableCode", "decode", "decode: the last codeword must be complete", {"input": arr(1)}, {"input": arr(1, 1)}, {"input": arr(0, 1)}, {"input": arr(0, 1, 0, 1, 1)},
    ctor=_F, stub={"is_uniquely_decodable": _YES, "is_prefix_free": _YES})
acc("FixedToVariableCode", "decode", "decode: the last codeword must be complete", {"input": arr(0, 1, 0)}, {"input": arr(1, 1, 1)}, ctor=_F,
    stub={"is_uniquely_decodable": _YES, "is_prefix_free": _YES})
for _c in ("HuffmanCode", "FanoCode", "ShannonCode"):
    _k = dict(pmf=arr(0.5, 0.25, 0.25), source_block_size=CONST(2))
    rej(_c, "encode", "encode: the input length must be a multiple of the source block size", {"input": A((3,), 0, 2)}, {"input": A((5,), 0, 2)}, ctor=_k)
for _c in ("FixedToVariableCode", "HuffmanCode"):
    rej(_c, "rate", "rate: pmf must be a pmf", {"pmf": NEGSOME(("S",))}, {"pmf": arr(0.5, 0.25)}, {"pmf": arr(1.0, 0.5)})
rej("FixedToVariableCode", "from_codewords", "from_codewords: at least one codeword", {"codewords": arr()})
rej("FixedToVariableCode", "from_lengths", "from_lengths: the lengths must satisfy the Kraft inequality", {"lengths": arr(1, 1, 1), "target_cardinality": CONST(2)},
    {"lengths": arr(1, 2, 2, 2), "target_cardinality": CONST(2)}, {"lengths": arr(1, 1, 1, 1), "target_cardinality": CONST(3)}, {"lengths": A((5,), 1, 1), "target_cardinality": CONST(3), "source_cardinality": CONST(5)})
rej("FixedToVariableCode", "from_lengths", "from_lengths: lengths must be positive", {"lengths": arr(0, 1)}, {"lengths": A((2,), -5, 0)}, {"lengths": A((3,), -3, 4, ex=((-3, 0),))})
rej("FixedToVariableCode", "from_lengths", "from_lengths: lengths must be one-dimensional", {"lengths": A((2, 2), 1, 5)})
rej("FixedToVariableCode", "from_lengths", "from_lengths: target_cardinality must be at least 2", {"target_cardinality": INT_(-INF, 1)}, {"target_cardinality": CONST(1)})
rej("FixedToVariableCode", "from_lengths", "from_lengths: the number of lengths must be a power of the source cardinality", {"lengths": A((3,), 2, 5), "source_cardinality": CONST(2)},
    {"lengths": A((6,), 3, 5), "source_cardinality": CONST(3)})
rej("VariableToFixedCode", "from_sourcewords", "from_sourcewords: at least one sourceword", {"sourcewords": arr()})
rej("VariableToFixedCode", "from_sourcewords", "from_sourcewords: target_cardinality must be at least 2", {"target_cardinality": INT_(-INF, 1)}, {"target_cardinality": CONST(1)})
LZ = [("LempelZiv77Code", dict(search_size=CONST(4), lookahead_size=CONST(3))), ("LempelZivSSCode", dict(search_size=CONST(4), lookahead_size=CONST(3))), ("LempelZiv78Code", {}), ("LempelZivWelchCode", {})]
for _c, _k in LZ:
    for _s in (2, 3):
        _kk = dict(_k, source_cardinality=CONST(_s), target_cardinality=CONST(2))
        rej(_c, "encode", "encode: the input must be made of source symbols", {"input": A(("L",), -5, 9, ex=((_s, 9),))}, {"input": A(("L",), -5, 9, ex=((-5, -1),))}, {"input": A((4,), _s, _s)},
            {"input": A((4,), -1, -1)}, ctor=_kk)
        acc(_c, "encode", "encode: the input must be made of source symbols", {"input": A((4,), 0, _s - 1)}, {"input": A((1,), _s - 1, _s - 1)}, ctor=_kk)
for _c, _lo in (("UnaryCode", 0), ("FibonacciCode", 1)):
    rej(_c, "encode", f"encode: integers must be at least {_lo}", {"input": A(("L",), -9, 9, ex=((-9, _lo - 1),))}, {"input": A((3,), _lo - 1, _lo - 1)}, {"input": A((1,), -INF, _lo - 1)})
    acc(_c, "encode", f"encode: integers must be at least {_lo}", {"input": A((3,), _lo, _lo)}, {"input": A((3,), _lo, 5)})
    rej(_c, "decode", "decode: the input must be binary", {"input": A(("L",), -9, 9, ex=((2, 9),))}, {"input": A(("L",), -9, 9, ex=((-9, -1),))}, {"input": A((2,), 2, 2)})
rej("UnaryCode", "decode", "decode: the last codeword must be complete", {"input": A((1,), 1, 1)}, {"input": A((3,), 1, 1)}, {"input": arr(1, 0, 1)})
acc("UnaryCode", "decode", "decode: the last codeword must be complete", {"input": A((3,), 0, 0)}, {"input": arr(1, 1, 0)})
rej("FibonacciCode", "decode", "decode: the last codeword must be complete", {"input": A((1,), 0, 0)}, {"input": A((5,), 0, 0)}, {"input": arr(1, 1, 0)}, {"input": arr(0, 1)})
acc("FibonacciCode", "decode", "decode: the last codeword must be complete", {"input": arr(1, 1)}, {"input": arr(0, 1, 1)})

# ---------------------------------------------------------------- sources, channels
_T = dict(transition_matrix=arr((0.5, 0.5), (0.25, 0.75)))
for _m in ("simulate_until_absorption", "mean_number_of_visits"):
    rej("MarkovChain", _m, f"{_m}: the chain must be absorbing", {}, ctor=_T, exc=ANYERR)
for _c in ("BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel"):
    rej(_c, "mutual_information", "mutual_information: input_pmf must have two entries", {"input_pmf": PMF((3,))}, {"input_pmf": PMF((1,))})
    rej(_c, "mutual_information", "mutual_information: input_pmf must be a pmf", {"input_pmf": NEGSOME((2,))}, {"input_pmf": arr(0.5, 0.25)}, {"input_pmf": arr(1.0, 0.5)})
    acc(_c, "mutual_information", "mutual_information: input_pmf must be a pmf", {"input_pmf": arr(0.5, 0.5)}, {"input_pmf": arr(1.0, 0.0)})

# ---------------------------------------------------------------- algebra, pulses
rej("BinaryPolynomial", "__divmod__", "division by the zero polynomial", {"den": O("BinaryPolynomial", value=CONST(0))}, exc=("ZeroDivisionError", "ValueError"))
rej("BinaryPolynomial", "__mod__", "division by the zero polynomial", {"other": O("BinaryPolynomial", value=CONST(0))}, exc=("ZeroDivisionError", "ValueError"))
rej("BinaryPolynomial", "__floordiv__", "division by the zero polynomial", {"other": O("BinaryPolynomial", value=CONST(0))}, exc=("ZeroDivisionError", "ValueError"))
rej("BinaryPolynomial", "__pow__", "negative powers of a polynomial", {"exponent": INT_(-INF, -1)}, {"exponent": CONST(-1)})
rej("LFSRSequence", "maximum_length_sequence", "only degrees 1 to 24 have a default primitive polynomial", {"degree": INT_(25)}, {"degree": CONST(0)}, {"degree": CONST(25)}, {"degree": INT_(-INF, 0)}, exc=ANYERR)
for _c in ("RaisedCosinePulse", "SincPulse", "GaussianPulse", "BeaulieuPulse"):
    rej(_c, "taps", "taps: pulses of infinite support need a span", {"span": NONE_()})
    acc(_c, "taps", "taps: pulses of infinite support need a span", {"span": T(CONST(-2), CONST(2))})
for _c in ("RectangularPulse", "ManchesterPulse"):
    acc(_c, "taps", "taps: pulses of finite support have a default span", {"span": NONE_()})


def jobs(prog, tier):
    pub = prog.public_classes()
    return [("row", i) for i, r in enumerate(ROWS) if r.target in pub]


def job(prog, j):
    return check_row(prog, ROWS[j[1]], "precondition")
