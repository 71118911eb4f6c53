"""Abstract entry states: for every public class, function and method of komm, what a caller may pass in.

A spec is a function (ctx, name) -> V.  ctx gives the interpreter, the abstract state and (for methods) the receiver,
so that sizes can be expressed relative to the receiver's own attributes (e.g. b * code.length)."""
from .domain import *
from .interp import Dead, State, Frame, FuncInfo
from . import ops
import ast


class Ctx:
    def __init__(self, sess, st, self_v=None, prefix=""):
        self.sess, self.I, self.st, self.self_v, self.prefix = sess, sess.I, st, self_v, prefix
        self.nosym = False

    def member(self, i, spec, name):
        """value of one member of a container: distinct symbol per exact position, none for summarised elements"""
        saved = self.prefix, self.nosym
        if i is None:
            self.nosym = True
        else:
            self.prefix = f"{self.prefix}{i}:"
        try:
            return spec(self, name)
        finally:
            self.prefix, self.nosym = saved

    def attr(self, name, of=None):
        v = of if of is not None else self.self_v
        for n in name.split("."):
            v = self.I.getattr_v(v, n, self.sess.node, self.st)
        return v


def tagp(name):
    return frozenset([("p", name)])


def rootp(name):
    return frozenset([("param", name)])


# ------------------------------------------------------------------ scalar specs
def I(lo=0, hi=INF):
    def f(c, name):
        if lo == hi:
            return V((num_const(lo),), tagp(name))
        if c.nosym:
            return mk(Num(lo, hi, INT), tagp(name))
        s = c.prefix + name
        c.I.symbounds[s] = (lo, hi)
        return mk(Num(lo, hi, INT, sym=p_sym(s)), tagp(name))
    f.spec = ("I", lo, hi)
    return f


def F(lo=-INF, hi=INF, nan=False):
    def f(c, name):
        return mk(Num(lo, hi, FLOAT, nan=nan), tagp(name))
    f.spec = ("F", lo, hi)
    return f


def C(v):
    """a concrete constant"""
    def f(c, name):
        return const(v, tagp(name))
    f.spec = ("C", v)
    return f


def BIG(lo=0):
    """an integer of arbitrary size: a polynomial's bit pattern, a bit string read as a number"""
    g = I(lo)

    def f(c, name):
        return g(c, name).tag(frozenset([("big",)]))
    return f


def B():
    return lambda c, name: mk(Num(0, 1, BOOL), tagp(name))


def S(*names):
    return lambda c, name: mk(Str(frozenset(names) if names else None), tagp(name))


def NONE_():
    return lambda c, name: const(None, tagp(name))


def ALT(*specs):
    return lambda c, name: join_all([s(c, name) for s in specs])


def NUMATTR(attr, lo=0, off=-1):
    """int in [lo, receiver.attr + off]"""
    def f(c, name):
        n = c.attr(attr).num()
        hi = n.hi + off if n is not None else INF
        s = c.prefix + name
        c.I.symbounds[s] = (lo, hi)
        return mk(Num(lo, hi, INT, sym=p_sym(s)), tagp(name))
    return f


# ------------------------------------------------------------------ dimensions
def dim(c, d, name):
    if isinstance(d, int):
        return num_const(d)
    if isinstance(d, str):
        if d.startswith("."):
            n = c.attr(d[1:]).num()
            if n is None:
                return Num(0, INF, INT)
            if n.lo < 1 and n.sym is not None and len(n.sym) == 1:
                (m, k), = n.sym
                if len(m) == 1 and k == 1:       # sizes of the objects under analysis are positive
                    lo, hi = c.st.facts.get(m[0], (-INF, INF))
                    c.st.facts[m[0]] = (max(lo, 1), hi)
                    return Num(1, n.hi, n.kinds, n.dt, n.nan, n.sym)
            return n
        lo = 1
        if d.startswith("0"):
            lo, d = 0, d[1:]
        if d in UNIT:
            return num_const(1)
        s = c.prefix + d
        c.I.symbounds.setdefault(s, (lo, INF))
        if d.startswith("*") or d in c.I.blocksyms:
            c.I.batch.add(s)
        return Num(lo, INF, INT, sym=p_sym(s))
    return d(c, name)


def MUL(*ds):
    def f(c, name):
        r = num_const(1)
        for d in ds:
            n = dim(c, d, name)
            r = mulnum(c, r, n)
        return r
    return f


def mulnum(c, a, b):
    v = c.I.binop(ast.Mult(), mk(a), mk(b), c.sess.node, c.st)
    return v.num()


def ADD(*ds):
    def f(c, name):
        v = const(0)
        for d in ds:
            v = c.I.binop(ast.Add(), v, mk(dim(c, d, name)), c.sess.node, c.st)
        return v.num()
    return f


# ------------------------------------------------------------------ array specs
UNIT = set()         # sizes taken to be one (block counts of single-block inputs)
BATCH = ("*s",)      # leading axes of every input that accepts batches (clients vary it)
SEEN = [0]           # how many batch arguments have been built (a client can tell which entry points take one)


def A(dims, lo=0, hi=1, kinds=INT, dt=None, nan=False, ex=(), aux=frozenset(), elemtags=NOTAGS):
    def f(c, name):
        shape = None
        if dims is not None:
            SEEN[0] += "*s" in dims
            shape = tuple(dim(c, d, name) for x in dims for d in (BATCH if x == "*s" else (x,)))
        h = hi if not callable(hi) else hi(c)
        d = dt or ("narrow" if kinds <= {"int", "bool"} else "f64")
        t = tagp(name) | elemtags
        el = mk(Num(lo, h, kinds, d, nan), t)
        return mk(Arr(shape, el, rootp(name), ex, aux), t)
    return f


def HIATTR(attr, off=-1):
    def f(c):
        n = c.attr(attr).num()
        return n.hi + off if n is not None else INF
    return f


def FA(dims, lo=-INF, hi=INF, **kw):
    return A(dims, lo, hi, kinds=FLOAT, **kw)


def CA(dims, **kw):
    return A(dims, -INF, INF, kinds=CPLX, **kw)


def PMF(dims):
    return A(dims, 0, 1, kinds=FLOAT, aux=frozenset([("sum" if len(dims) == 1 else "rowsum", (1 - 1e-9, 1 + 1e-9))]))


# ------------------------------------------------------------------ containers, objects
def L(elem, n="len"):
    def f(c, name):
        ln = dim(c, n, name)
        el = c.member(None, elem, name)
        return mk(Seq("list", None, el, ln, rootp(name)), tagp(name))
    return f


def T(*elems):
    def f(c, name):
        items = tuple(c.member(i, e, name).tag(tagp(f"{name}[{i}]")) for i, e in enumerate(elems))
        return mk(Seq("tuple", items, join_all(items), num_const(len(items)), frozenset()), tagp(name))
    return f


def TN(elem, lo=1):
    def f(c, name):
        return mk(Seq("tuple", None, c.member(None, elem, name), Num(lo, INF, INT), frozenset()), tagp(name))
    return f


def D(k, v):
    def f(c, name):
        return mk(Map(None, c.member(None, k, name), c.member(None, v, name), Num(1, INF, INT), rootp(name)), tagp(name))
    return f


def DC(**items):
    def f(c, name):
        it = tuple((k, s(c, name)) for k, s in items.items())
        return mk(Map(it, mk(Str(frozenset(items))), join_all([x for _, x in it]), num_const(len(it)), rootp(name)), tagp(name))
    return f


def FUNC(result=None):
    def f(c, name):
        if result is not None:
            r = result(c, name)
            return mk(Partial(mk(Ext("sa.const")), (r,), (), ("func", name)), tagp(name))
        return mk(Unk("caller function"), tagp(name))
    return f


def RNG():
    return lambda c, name: mk(Rng(("param", name)), tagp(name))


def O(cls, variant=0, **over):
    """an instance built by the class's own constructor from its entry spec"""
    def f(c, name):
        return c.sess.make(cls, variant, c.st, prefix=c.prefix + name + ".", over=over).tag(tagp(name))
    return f


def ELEM(cls, *args):
    """instance obtained by calling an instance (finite-field element)"""
    def f(c, name):
        o = c.sess.make(cls, 0, c.st, prefix=c.prefix + name + ".")
        return c.I.call(o, [a(c, name) for a in args], {}, c.sess.node, c.st)
    return f


WORD = TN(I(0, INF), 1)
BITS = lambda: A(("*s", "L"), 0, 1)
CARD = lambda: I(2)

# ------------------------------------------------------------------ constructors
POLY = lambda lo=0: O("BinaryPolynomial", 0 if lo == 0 else 1)

CTORS = {
    "BinaryPolynomial": [dict(value=BIG(0)), dict(value=BIG(1)), dict(value=BIG(2))],
    "BinaryPolynomialFraction": [dict(numerator=POLY(), denominator=POLY(1)), dict(numerator=I(0), denominator=I(1))],
    "FiniteBifield": [dict(degree=I(1)), dict(degree=I(1), modulus=O("BinaryPolynomial", 2))],
    "Integer": [dict(value=BIG(-INF))],
    "BinaryErasureChannel": [dict(erasure_probability=F(0, 1), rng=RNG())],
    "BinarySymmetricChannel": [dict(crossover_probability=F(0, 1), rng=RNG())],
    "DiscreteMemorylessChannel": [dict(transition_matrix=PMF(("X", "Y")), rng=RNG())],
    "GaussianChannel": [dict(noise_power=F(0, INF), rng=RNG())],
    "ZChannel": [dict(decay_probability=F(0, 1), rng=RNG())],
    "APSKConstellation": [dict(orders=T(I(1), I(1)), amplitudes=T(F(0.001), F(0.001)), phase_offsets=T(F(), F())),
                          dict(orders=TN(I(1)), amplitudes=TN(F(0.001)), phase_offsets=F())],
    "ASKConstellation": [dict(order=I(2), base_amplitude=F(0.001), phase_offset=F())],
    "BiorthogonalConstellation": [dict(order=I(2), amplitude=F(0.001))],
    "Constellation": [dict(matrix=FA(("M", "N"))), dict(matrix=CA(("M", "N")))],
    "CrossQAMConstellation": [dict(order=I(8), delta=F(0.001), phase_offset=F())],
    "OrthogonalConstellation": [dict(order=I(2), amplitude=F(0.001))],
    "PAMConstellation": [dict(order=I(2), delta=F(0.001))],
    "PSKConstellation": [dict(order=I(2), amplitude=F(0.001), phase_offset=F())],
    "QAMConstellation": [dict(orders=T(I(2), I(2)), deltas=T(F(0.001), F(0.001)), phase_offset=F()),
                         dict(orders=I(4), deltas=F(0.001), phase_offset=F())],
    "SimplexConstellation": [dict(order=I(2), base_amplitude=F(0.001))],
    "BCHCode": [dict(mu=I(3), delta=I(3))],
    "BlockCode": [dict(generator_matrix=A(("k", "n"))), dict(check_matrix=A(("m", "n")))],
    "CordaroWagnerCode": [dict(n=I(2))],
    "CyclicCode": [dict(length=I(1), generator_polynomial=O("BinaryPolynomial", 1), systematic=C(True)),
                   dict(length=I(1), generator_polynomial=I(1), systematic=C(False)),
                   dict(length=I(1), check_polynomial=I(1), systematic=B())],
    "GolayCode": [dict(extended=C(False)), dict(extended=C(True))],
    "HammingCode": [dict(mu=I(2), extended=C(False)), dict(mu=I(2), extended=C(True))],
    "Lexicode": [dict(n=I(1), d=I(1))],
    "PolarCode": [dict(mu=I(1), frozen=A(("nf",), 0, INF))],
    "ReedMullerCode": [dict(rho=I(0), mu=I(1))],
    "RepetitionCode": [dict(n=I(1))],
    "SimplexCode": [dict(kappa=I(2), extended=C(False)), dict(kappa=I(2), extended=C(True))],
    "SingleParityCheckCode": [dict(n=I(2))],
    "SlepianArray": [dict(code=O("BlockCode"))],
    "SystematicBlockCode": [dict(parity_submatrix=A(("k", "m")), information_set=S("left", "right")),
                            dict(parity_submatrix=A(("k", "m")), information_set=A(("k",), 0, INF, dt="i64"))],
    "CyclicRedundancyCheck": [dict()],
    "ConvolutionalCode": [dict(feedforward_polynomials=A(("k", "n"), 1, INF)),
                          dict(feedforward_polynomials=A(("k", "n"), 1, INF), feedback_polynomials=A(("k",), 1, INF))],
    "HighRateConvolutionalCode": [dict(h_row=A(("n",), 1, INF))],
    "LowRateConvolutionalCode": [dict(g_row=A(("n",), 1, INF))],
    "TerminatedConvolutionalCode": [dict(convolutional_code=O("ConvolutionalCode"), num_blocks=I(1), mode=S("direct-truncation")),
                                    dict(convolutional_code=O("ConvolutionalCode"), num_blocks=I(1), mode=S("zero-termination")),
                                    dict(convolutional_code=O("ConvolutionalCode"), num_blocks=I(1), mode=S("tail-biting"))],
    "ViterbiStreamDecoder": [dict(convolutional_code=O("ConvolutionalCode"), traceback_length=I(1), state=I(0), input_type=S("hard")),
                             dict(convolutional_code=O("ConvolutionalCode"), traceback_length=I(1), state=I(0), input_type=S("soft"))],
    "BCJRDecoder": [dict(code=O("TerminatedConvolutionalCode", 0), output_type=S("soft")),
                    dict(code=O("TerminatedConvolutionalCode", 1), output_type=S("hard")),
                    dict(code=O("TerminatedConvolutionalCode", 2), output_type=S("hard"))],
    "BerlekampDecoder": [dict(code=O("BCHCode"))],
    "ExhaustiveSearchDecoder": [dict(code=O("BlockCode"), input_type=S("hard")), dict(code=O("BlockCode"), input_type=S("soft"))],
    "ReedDecoder": [dict(code=O("ReedMullerCode"), input_type=S("hard")), dict(code=O("ReedMullerCode"), input_type=S("soft"))],
    "SCDecoder": [dict(code=O("PolarCode"), output_type=S("hard")), dict(code=O("PolarCode"), output_type=S("soft"))],
    "SyndromeTableDecoder": [dict(code=O("BlockCode"))],
    "ViterbiDecoder": [dict(code=O("TerminatedConvolutionalCode", 0), input_type=S("hard")),
                       dict(code=O("TerminatedConvolutionalCode", 1), input_type=S("soft")),
                       dict(code=O("TerminatedConvolutionalCode", 2), input_type=S("soft"))],
    "WagnerDecoder": [dict(code=O("SingleParityCheckCode"))],
    "MealyMachine": [dict(transitions=A(("S", "X"), 0, INF), outputs=A(("S", "X"), 0, INF))],
    "MooreMachine": [dict(transitions=A(("S", "X"), 0, INF), outputs=A(("S",), 0, INF))],
    "FibonacciCode": [dict()],
    "UnaryCode": [dict()],
    "Labeling": [dict(matrix=A(("M", "m")))],
    "NaturalLabeling": [dict(num_bits=I(1))],
    "ProductLabeling": [{"*labelings": T(O("Labeling"), O("NaturalLabeling")), "repeat": I(1)}],
    "ReflectedLabeling": [dict(num_bits=I(1))],
    "ReflectedRectangularLabeling": [dict(num_bits=I(1)), dict(num_bits=T(I(1), I(1)))],
    "FanoCode": [dict(pmf=PMF(("S",)), source_block_size=I(1))],
    "FixedToVariableCode": [dict(source_cardinality=I(2), target_cardinality=I(2), source_block_size=I(1), enc_mapping=D(WORD, WORD))],
    "HuffmanCode": [dict(pmf=PMF(("S",)), source_block_size=I(1), policy=S("high", "low"), assignment=S("tree", "canonical"))],
    "LempelZiv77Code": [dict(search_size=I(1), lookahead_size=I(1), source_cardinality=I(2), target_cardinality=I(2)),
                        dict(search_size=I(1), lookahead_size=I(1), source_cardinality=I(2), target_cardinality=I(2),
                             search_buffer=A(("sb",), 0, INF))],
    "LempelZiv78Code": [dict(source_cardinality=I(2), target_cardinality=I(2))],
    "LempelZivSSCode": [dict(search_size=I(1), lookahead_size=I(1), source_cardinality=I(2), target_cardinality=I(2)),
                        dict(search_size=I(1), lookahead_size=I(1), source_cardinality=I(2), target_cardinality=I(2),
                             search_buffer=A(("sb",), 0, INF))],
    "LempelZivWelchCode": [dict(source_cardinality=I(2), target_cardinality=I(2))],
    "ShannonCode": [dict(pmf=PMF(("S",)), source_block_size=I(1))],
    "TunstallCode": [dict(pmf=PMF(("S",)), target_block_size=I(1))],
    "VariableToFixedCode": [dict(target_cardinality=I(2), source_cardinality=I(2), target_block_size=I(1), dec_mapping=D(WORD, WORD))],
    "BeaulieuPulse": [dict(rolloff=F(0, 1))],
    "GaussianPulse": [dict(half_power_bandwidth=F(0.001))],
    "ManchesterPulse": [dict()],
    "RaisedCosinePulse": [dict(rolloff=F(0, 1))],
    "RectangularPulse": [dict(width=F(0.001, 1))],
    "SincPulse": [dict()],
    "LloydMaxQuantizer": [dict(input_pdf=FUNC(FA(("P",), 0)), input_range=T(F(), F()), num_levels=I(1))],
    "ScalarQuantizer": [dict(levels=FA(("Lv",)), thresholds=FA(("Th",)))],
    "UniformQuantizer": [dict(num_levels=I(2), step=F(0.001), offset=F())],
    "BarkerSequence": [dict(length=I(2))],
    "BinarySequence": [dict(bit_sequence=A(("n",))), dict(polar_sequence=A(("n",), -1, 1))],
    "LFSRSequence": [dict(feedback_polynomial=O("BinaryPolynomial", 1), start_state_polynomial=O("BinaryPolynomial", 1)),
                     dict(feedback_polynomial=I(1), start_state_polynomial=I(1))],
    "WalshHadamardSequence": [dict(length=I(1), ordering=S("natural", "sequency", "dyadic"), index=I(0))],
    "ComplexSequence": [dict(sequence=CA(("n",)))],
    "ZadoffChuSequence": [dict(length=I(1), root_index=I(1))],
    "DiscreteMemorylessSource": [dict(pmf=PMF(("S",)), rng=RNG()), dict(pmf=I(1), rng=RNG())],
    "MarkovChain": [dict(transition_matrix=PMF(("S", "S")), rng=RNG())],
}
ABSTRACT = {"Pulse": "abstract base", "GoldSequence": "placeholder without implementation",
            "KasamiSequence": "placeholder without implementation"}

# ------------------------------------------------------------------ methods
REAL = lambda: FA(("*s", "L"))
NARR = lambda lo, hi: A(("*s", "L"), lo, hi)
OPT = lambda s: [NONE_(), s]

# by (class-or-base, method): list of dicts ; by parameter name: default spec
SELFLIKE = {"BinaryPolynomial": POLY(1), "BinaryPolynomialFraction": O("BinaryPolynomialFraction"), "Integer": O("Integer"),
            "FiniteBifieldElement": ELEM("FiniteBifield", I(0))}

LOGBASE = ALT(F(1.001), S("e"))

PARAMS = {
    "base": LOGBASE,
    "normalized": B(),
    "mode": S("full", "valid", "same"),
    "axis": I(-1, -1),
    "exponent": I(0),
    "n": I(0),
    "state": NUMATTR("num_states"),
    "t": REAL(), "f": REAL(), "tau": REAL(),
    "samples_per_symbol": I(1),
    "span": ALT(NONE_(), T(I(-INF), I(-INF))),
    "width": ALT(NONE_(), I(1)),
    "shifts": ALT(NONE_(), A(("sh",), -INF, INF)),
    "bit_order": S("LSB-first", "MSB-first"),
    "input_pdf": FUNC(FA(("P",), 0)),
    "input_range": T(F(), F()),
    "points_per_interval": I(1),
}

METHODS = {
    # error control
    ("BlockCode", "encode"): [dict(input=A(("*s", MUL("b", ".dimension"))))],
    ("BlockCode", "project_word"): [dict(input=A(("*s", MUL("b", ".length"))))],
    ("BlockCode", "inverse_encode"): [dict(input=A(("*s", MUL("b", ".length"))))],
    ("BlockCode", "check"): [dict(input=A(("*s", MUL("b", ".length"))))],
    ("BCHCode", "bch_syndrome"): [dict(r_poly=O("BinaryPolynomial", 0))],
    ("SlepianArray", "entry"): [dict(i=I(0), j=I(0))],
    ("SlepianArray", "row"): [dict(i=I(0))],
    ("SlepianArray", "col"): [dict(j=I(0))],
    ("ConvolutionalCode", "encode"): [dict(input=A((MUL("b", ".num_input_bits"),)))],
    ("ConvolutionalCode", "encode_with_state"): [dict(input=A((MUL("b", ".num_input_bits"),)),
                                                      initial_state=A((".overall_constraint_length",)))],
    ("ViterbiStreamDecoder", "decode"): [dict(input=FA(("*s", MUL("b", ".convolutional_code.num_output_bits")))),
                                         dict(input=A(("*s", MUL("b", ".convolutional_code.num_output_bits"))))],
    ("ViterbiStreamDecoder", "metric_function"): [dict(y=I(0), z=FA(("n",)))],
    ("BlockDecoder", "decode"): [dict(input=FA(("*s", MUL("b", ".code.length")))),
                                 dict(input=A(("*s", MUL("b", ".code.length"))))],
    ("MealyMachine", "process"): [dict(input=A(("T",), 0, HIATTR("num_input_symbols")), initial_state=NUMATTR("num_states"))],
    ("MooreMachine", "process"): [dict(input=A(("T",), 0, HIATTR("num_input_symbols")), initial_state=NUMATTR("num_states"))],
    ("MealyMachine", "viterbi"): [dict(observed=FA(("T",)), metric_function=FUNC(F()), initial_metrics=ALT(NONE_(), FA((".num_states",))))],
    ("MealyMachine", "viterbi_streaming"): [dict(observed=FA(("T",)), metric_function=FUNC(F()), memory=DC(
        paths=A((".num_states", "tau"), 0, INF, dt="i64"), metrics=FA((".num_states", "tau"))))],
    ("MealyMachine", "forward_backward"): [dict(observed=FA(("T",)), metric_function=FUNC(F()),
                                                input_priors=ALT(NONE_(), FA(("T", ".num_input_symbols"), 0, 1)),
                                                initial_state_distribution=ALT(NONE_(), FA((".num_states",), 0, 1)),
                                                final_state_distribution=ALT(NONE_(), FA((".num_states",), 0, 1)))],
    # constellations, labelings, modulation
    ("Constellation", "mean"): [dict(priors=NONE_()), dict(priors=PMF((".order",)))],
    ("Constellation", "mean_energy"): [dict(priors=NONE_()), dict(priors=PMF((".order",)))],
    ("Constellation", "indices_to_symbols"): [dict(indices=A(("*s", "L"), 0, HIATTR("order")))],
    ("Constellation", "closest_indices"): [dict(received=FA(("*s", MUL("b", ".dimension")))), dict(received=CA(("*s", MUL("b", ".dimension"))))],
    ("Constellation", "closest_symbols"): [dict(received=FA(("*s", MUL("b", ".dimension")))), dict(received=CA(("*s", MUL("b", ".dimension"))))],
    ("Constellation", "posteriors"): [dict(received=FA(("*s", MUL("b", ".dimension"))), noise_power=F(0.001), priors=NONE_()),
                                      dict(received=CA(("*s", MUL("b", ".dimension"))), noise_power=F(0.001), priors=PMF((".order",)))],
    ("Labeling", "indices_to_bits"): [dict(indices=A(("*s", "L"), 0, HIATTR("cardinality")))],
    ("Labeling", "bits_to_indices"): [dict(bits=A(("*s", MUL("b", ".num_bits"))))],
    ("Labeling", "marginalize"): [dict(metrics=FA(("*s", MUL("b", ".cardinality")), 0, 1))],
    ("ProductLabeling", "from_matrices"): [{"*matrices": T(A(("M", "m")), A(("M2", "m2"))), "repeat": I(1)}],
    # channels, sources, quantization
    ("DiscreteMemorylessChannel", "mutual_information"): [dict(input_pmf=PMF((".input_cardinality",)), base=LOGBASE)],
    ("DiscreteMemorylessChannel", "transmit"): [dict(input=A(("*s", "L"), 0, HIATTR("input_cardinality")))],
    ("GaussianChannel", "transmit"): [dict(input=FA(("*s", "L"))), dict(input=CA(("*s", "L")))],
    ("DiscreteMemorylessSource", "emit"): [dict(shape=ALT(NONE_(), I(0), TN(I(0)))), dict(shape=T(I(1), I(1))), dict(shape=I(0, 0)), dict(shape=T()), dict(shape=NONE_()), dict(shape=I(1))],
    ("MarkovChain", "simulate"): [dict(steps=I(0), initial_state=NUMATTR("num_states"))],
    ("MarkovChain", "simulate_until_absorption"): [dict(initial_state=NUMATTR("num_states"))],
    ("ScalarQuantizer", "digitize"): [dict(input=FA(("*s", "L")))],
    ("ScalarQuantizer", "quantize"): [dict(input=FA(("*s", "L")))],
    ("UniformQuantizer", "mid_riser"): [dict(num_levels=I(2), step=F(0.001))],
    ("UniformQuantizer", "mid_tread"): [dict(num_levels=I(3), step=F(0.001))],
    # source coding
    ("IntegerCode", "encode"): [dict(input=A(("L",), 1, INF))],
    ("IntegerCode", "decode"): [dict(input=A(("L",), 0, 1))],
    ("FixedToVariableCode", "from_enc_mapping"): [dict(enc_mapping=D(WORD, WORD))],
    ("FixedToVariableCode", "from_codewords"): [dict(codewords=L(WORD), source_cardinality=ALT(NONE_(), I(2)))],
    ("FixedToVariableCode", "from_lengths"): [dict(lengths=A(("nl",), 1, INF), source_cardinality=ALT(NONE_(), I(2)), target_cardinality=I(2))],
    ("FixedToVariableCode", "rate"): [dict(pmf=PMF((".source_cardinality",)))],
    ("FixedToVariableCode", "encode"): [dict(input=A((MUL("b", ".source_block_size"),), 0, HIATTR("source_cardinality")))],
    ("FixedToVariableCode", "decode"): [dict(input=A(("L",), 0, HIATTR("target_cardinality")))],
    ("VariableToFixedCode", "from_dec_mapping"): [dict(dec_mapping=D(WORD, WORD))],
    ("VariableToFixedCode", "from_sourcewords"): [dict(sourcewords=L(WORD), target_cardinality=I(2))],
    ("VariableToFixedCode", "rate"): [dict(pmf=PMF((".source_cardinality",)))],
    ("VariableToFixedCode", "encode"): [dict(input=A(("L",), 0, HIATTR("source_cardinality")))],
    ("VariableToFixedCode", "decode"): [dict(input=A((MUL("b", ".target_block_size"),), 0, HIATTR("target_cardinality")))],
}
for _c in ("LempelZiv77Code", "LempelZiv78Code", "LempelZivSSCode", "LempelZivWelchCode"):
    METHODS[(_c, "encode")] = [dict(input=A(("L",), 0, HIATTR("source_cardinality")))]
    METHODS[(_c, "decode")] = [dict(input=A(("L",), 0, HIATTR("target_cardinality")))]
    METHODS[(_c, "source_to_tokens")] = [dict(source=A(("L",), 0, HIATTR("source_cardinality")))]
    METHODS[(_c, "target_to_tokens")] = [dict(target=A(("L",), 0, HIATTR("target_cardinality")))]
_tok = {"LempelZiv77Code": TN(I(0), 3), "LempelZiv78Code": T(I(0), I(0)), "LempelZivSSCode": ALT(T(I(0), I(0)), I(0))}
_tok["LempelZiv77Code"] = T(I(0), I(0), I(0))
for _c, _t in _tok.items():
    METHODS[(_c, "tokens_to_source")] = [dict(tokens=L(_t))]
    METHODS[(_c, "tokens_to_target")] = [dict(tokens=L(_t))]
METHODS.update({
    ("BinaryPolynomial", "from_coefficients"): [dict(coefficients=A(("n",)))],
    ("BinaryPolynomial", "from_exponents"): [dict(exponents=A(("n",), 0, INF))],
    ("BinaryPolynomial", "evaluate"): [dict(point=ELEM("FiniteBifield", I(0))), dict(point=O("Integer")), dict(point=I(0))],
    ("BinaryPolynomial", "xgcd"): [dict(poly1=POLY(), poly2=POLY(1))],
    ("BinaryPolynomial", "gcd"): [{"*poly": T(POLY(), POLY(), POLY())}],
    ("BinaryPolynomial", "lcm"): [{"*poly": T(POLY(1), POLY(1), POLY(1))}],
    ("LFSRSequence", "maximum_length_sequence"): [dict(degree=I(1), start_state_polynomial=O("BinaryPolynomial", 1))],
    ("FiniteBifield", "__call__"): [dict(value=BIG(0))],
})

FUNCS = {
    "autocorrelation": [dict(sequence=CA(("n",)), shifts=ALT(NONE_(), A(("sh",), -INF, INF)), normalized=B()),
                        dict(sequence=A(("n",), -INF, INF), shifts=NONE_(), normalized=B())],
    "cyclic_autocorrelation": [dict(sequence=CA(("n",)), shifts=ALT(NONE_(), A(("sh",), -INF, INF)), normalized=B()),
                               dict(sequence=A(("n",), -INF, INF), shifts=NONE_(), normalized=B())],
    "binary_entropy": [dict(p=FA(("*s", "L"), 0, 1)), dict(p=F(0, 1))],
    "binary_entropy_inv": [dict(h=F(0, 1))],
    "bits_to_int": [dict(input=A(("*s", "L")), bit_order=S("LSB-first", "MSB-first"))],
    "int_to_bits": [dict(input=A(("*s", "L"), 0, INF), width=I(1), bit_order=S("LSB-first", "MSB-first")), dict(input=BIG(0), width=I(1), bit_order=S("LSB-first", "MSB-first")), dict(input=A(("*s", "L"), 0, INF, dt="obj", elemtags=frozenset([("big",)])), width=I(1), bit_order=S("LSB-first", "MSB-first"))],
    "boxplus": [dict(a=REAL(), b=REAL())],
    "convolve": [dict(input1=FA(("*s", "L")), input2=FA(("L2",)), axis=I(-1, -1), mode=S("full", "valid", "same")),
                 dict(input1=CA(("L",)), input2=FA(("*s", "L2")))],
    "entropy": [dict(pmf=PMF(("S",)), base=LOGBASE)],
    "relative_entropy": [dict(pmf=PMF(("S",)), qmf=PMF(("S",)), base=LOGBASE)],
    "fourier_transform": [dict(waveform=FA(("*s", "L")), time_step=F(0.001), nfft=ALT(NONE_(), I(1)), axis=I(-1, -1)),
                          dict(waveform=FA(("L", "*s")), time_step=F(0.001), nfft=NONE_(), axis=I(0, 0)),
                          dict(waveform=FA(("L", "*s")), time_step=F(0.001), nfft=I(1), axis=I(0, 0)),
                          dict(waveform=FA(("*s", "L")), time_step=F(0.001), nfft=NONE_()),
                          dict(waveform=FA(("*s", "L")), time_step=F(0.001), nfft=I(1))],
    "gaussian_q": [dict(x=REAL())],
    "gaussian_q_inv": [dict(y=FA(("*s", "L"), 0, 1))],
    "marcum_q": [dict(m=I(1), a=FA(("*s", "L"), 0), x=FA(("*s", "L"), 0))],
    "sampling_rate_compress": [dict(input=FA(("*s", "L")), factor=I(1), offset=I(0), axis=I(-1, -1)), dict(input=FA(("L", "*s")), factor=I(1), offset=I(0), axis=I(0, 0))],
    "sampling_rate_expand": [dict(input=FA(("*s", "L")), factor=I(1), offset=I(0), axis=I(-1, -1)), dict(input=FA(("L", "*s")), factor=I(1), offset=I(0), axis=I(0, 0))],
}


# ------------------------------------------------------------------ session
class Session:
    """One interpreter plus entry-point plumbing (fresh root frame)."""

    def __init__(self, prog, interp):
        self.prog, self.I = prog, interp
        self.node = ast.parse("entry()").body[0].value
        self.node.lineno = 0
        self.public = prog.public_classes()
        self.funcs = prog.public_functions()
        m = prog.modules["komm"]
        modnode = ast.parse("def _entry_(): pass").body[0]
        self.fi = FuncInfo(modnode, m, None, "<caller>")
        self.root = interp.intern(interp.fids, ("entry",))
        interp.frames = [Frame(self.fi, self.root, self.root, NOTAGS)]
        interp.cur_module = m
        interp.keepfids.add(self.root)
        self.nobj = 0

    def state(self):
        st = State()
        st.envs[self.root] = {}
        return st

    def ctor_specs(self, cls):
        return CTORS.get(cls)

    def make(self, cls, variant, st, prefix="", over=None, root=None):
        ci = self.public[cls]
        spec = dict(CTORS[cls][variant])
        if over:
            spec.update(over)
        c = Ctx(self, st, prefix=prefix)
        pos, kw = [], {}
        for k, s in spec.items():
            if s is None:
                continue
            v = s(c, k)
            if k.startswith("*"):
                pos += list(v.alts[0].items)
            else:
                kw[k] = v
        # arguments live on in the object: retag aliasing as constructor arguments
        ren = frozenset()
        def f(a):
            r = getattr(a, "roots", None)
            if r and any(x[0] == "param" for x in r):
                return with_roots(a, frozenset(("param", prefix + "ctor." + x[1]) if x[0] == "param" else x for x in r))
            return a
        pos = [map_atoms(v, f) for v in pos]
        kw = {k: map_atoms(v, f) for k, v in kw.items()}
        self.nobj += 1
        oid = ("obj", "entry", prefix, cls, variant, self.nobj)
        if len(self.I.raises) == 1:
            self.I.raises[0].clear()         # failures while building the arguments belong to the arguments
        o = self.I.instantiate(ci, pos, kw, self.node, st, oid=oid)
        self.I.preexisting.add(oid)
        return o

    def freeze(self, st, o):
        """After construction: mark everything reachable from the object as its state."""
        pass
