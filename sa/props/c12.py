"""C12: constant tables and closed-form parameters."""
from .common import *
from ..lit import literal
from . import c06

TITLE = "Code tables and closed-form parameters match their mathematical definition"
RULE = ("Constant propagation and value numbering: the value that the source associates with every index of a built-in table (default "
        "primitive polynomials of degree 1..24, Barker sequences, Golay parity matrices) is read off the abstract run and checked by an "
        "independent computation (multiplicative order of X, aperiodic autocorrelation, weight enumeration); every closed-form parameter "
        "(length, dimension, redundancy, minimum distance, order, cardinality, period ...) is value-numbered as a polynomial of the constructor "
        "parameters and compared with the documented formula.")
ASSUME = ENGINE_ASSUMPTIONS + ["formulas and table meanings are those of the class documentation"]
MIN = {"table entries": 30, "formulas": 80}

# (class, variant, constructor overrides) -> {member: formula over the constructor's size parameters}
N_K = lambda n, k, **kw: dict(length=n, dimension=k, redundancy=f"({n}) - ({k})", **kw)
FORMULAS = [
    ("HammingCode", 0, {}, N_K("2**mu - 1", "2**mu - mu - 1", minimum_distance="3", packing_radius="1")),
    ("HammingCode", 1, {}, N_K("2**mu", "2**mu - mu - 1", minimum_distance="4", packing_radius="1")),
    ("SimplexCode", 0, {}, N_K("2**kappa - 1", "kappa", minimum_distance="2**(kappa - 1)")),
    ("SimplexCode", 1, {}, N_K("2**kappa", "kappa + 1", minimum_distance="2**(kappa - 1)")),
    ("GolayCode", 0, {}, N_K("23", "12", minimum_distance="7", packing_radius="3")),
    ("GolayCode", 1, {}, N_K("24", "12", minimum_distance="8", packing_radius="3")),
    ("RepetitionCode", 0, {}, N_K("n", "1", minimum_distance="n")),
    ("SingleParityCheckCode", 0, {}, N_K("n", "n - 1", minimum_distance="2")),
    ("Lexicode", 0, {}, dict(length="n", minimum_distance="d")),
    ("CordaroWagnerCode", 0, {}, dict(length="n", dimension="2", redundancy="n - 2")),
    ("BCHCode", 0, {}, dict(length="2**mu - 1")),
    ("ReedMullerCode", 0, {}, dict(length="2**mu")),
    ("PolarCode", 0, {}, dict(length="2**mu")),
    ("CyclicCode", 0, {}, dict(length="length")), ("CyclicCode", 2, {}, dict(length="length")),
    ("BlockCode", 0, {}, N_K("n", "k")), ("BlockCode", 1, {}, N_K("n", "n - m")),
    ("SystematicBlockCode", 0, {}, N_K("k + m", "k")), ("SystematicBlockCode", 1, {}, N_K("k + m", "k")),
    ("ConvolutionalCode", 0, {}, dict(num_input_bits="k", num_output_bits="n")),
    ("ConvolutionalCode", 1, {}, dict(num_input_bits="k", num_output_bits="n")),
    ("LowRateConvolutionalCode", 0, {}, dict(num_input_bits="1", num_output_bits="n")),
    ("HighRateConvolutionalCode", 0, {}, dict(num_input_bits="n - 1", num_output_bits="n")),
    ("Constellation", 0, {}, dict(order="M", dimension="N")), ("Constellation", 1, {}, dict(order="M", dimension="N")),
    ("PSKConstellation", 0, {}, dict(order="order", dimension="1")),
    ("ASKConstellation", 0, {}, dict(order="order", dimension="1")),
    ("PAMConstellation", 0, {}, dict(order="order", dimension="1")),
    ("CrossQAMConstellation", 0, {}, dict(order="order", dimension="1")),
    ("OrthogonalConstellation", 0, {}, dict(order="order", dimension="order")),
    ("SimplexConstellation", 0, {}, dict(order="order", dimension="order")),
    ("BiorthogonalConstellation", 0, {}, dict(order="order", dimension="order // 2")),
    ("Labeling", 0, {}, dict(cardinality="M", num_bits="m")),
    ("NaturalLabeling", 0, {}, dict(cardinality="2**num_bits", num_bits="num_bits")),
    ("ReflectedLabeling", 0, {}, dict(cardinality="2**num_bits", num_bits="num_bits")),
    ("BinarySymmetricChannel", 0, {}, dict(input_cardinality="2", output_cardinality="2")),
    ("BinaryErasureChannel", 0, {}, dict(input_cardinality="2", output_cardinality="3")),
    ("ZChannel", 0, {}, dict(input_cardinality="2", output_cardinality="2")),
    ("DiscreteMemorylessChannel", 0, {}, dict(input_cardinality="X", output_cardinality="Y")),
    ("DiscreteMemorylessSource", 0, {}, dict(cardinality="S")),
    ("MarkovChain", 0, {}, dict(num_states="S")),
    ("MealyMachine", 0, {}, dict(num_states="S", num_input_symbols="X")),
    ("MooreMachine", 0, {}, dict(num_states="S", num_input_symbols="X")),
    ("HuffmanCode", 0, {}, dict(source_cardinality="S", target_cardinality="2", source_block_size="source_block_size")),
    ("FanoCode", 0, {}, dict(source_cardinality="S", target_cardinality="2", source_block_size="source_block_size")),
    ("ShannonCode", 0, {}, dict(source_cardinality="S", target_cardinality="2", source_block_size="source_block_size")),
    ("TunstallCode", 0, {}, dict(source_cardinality="S", target_cardinality="2", target_block_size="target_block_size")),
    ("FixedToVariableCode", 0, {}, dict(source_cardinality="source_cardinality", target_cardinality="target_cardinality", source_block_size="source_block_size")),
    ("VariableToFixedCode", 0, {}, dict(source_cardinality="source_cardinality", target_cardinality="target_cardinality", target_block_size="target_block_size")),
    ("LempelZiv77Code", 0, {}, dict(window_size="search_size + lookahead_size")),
    ("LempelZivSSCode", 0, {}, dict(window_size="search_size + lookahead_size")),
    ("FiniteBifield", 0, {}, dict(order="2**degree", characteristic="2")),
    ("FiniteBifield", 1, {}, dict(characteristic="2")),
    ("BinarySequence", 0, {}, dict(length="n")), ("BinarySequence", 1, {}, dict(length="n")),
    ("ComplexSequence", 0, {}, dict(length="n")), ("ZadoffChuSequence", 0, {}, dict(length="length")),
]
FORMULAS += [(f"BarkerSequence", 0, dict(length=api.C(n)), dict(length=str(n))) for n in (2, 3, 4, 5, 7, 11, 13)]
FORMULAS += [("WalshHadamardSequence", 0, dict(length=api.C(n), index=api.C(0)), dict(length=str(n))) for n in (1, 2, 4, 8, 16, 32, 64)]
FORMULAS += [("CordaroWagnerCode", 0, dict(n=api.C(n)), dict(length=str(n), minimum_distance=str(-(-2 * n // 3) - 1))) for n in range(2, 40)]
FORMULAS += [("ReedMullerCode", 0, dict(rho=api.C(r), mu=api.C(m)), dict(length=str(2 ** m), minimum_distance=str(2 ** (m - r))))
             for m in range(2, 9) for r in range(0, m)]
FORMULAS += [("UniformQuantizer", 0, dict(num_levels=api.C(n)), dict(num_levels=str(n))) for n in (2, 3, 8)]
FORMULAS += [("ReflectedRectangularLabeling", 0, dict(num_bits=api.C(n)), dict(num_bits=str(n), cardinality=str(2 ** n))) for n in (2, 4, 6, 8)]
FORMULAS += [("QAMConstellation", 1, dict(orders=api.C(n)), dict(order=str(n), dimension="1")) for n in (4, 16, 64, 256)]
FORMULAS += [("LFSRSequence", 0, dict(feedback_polynomial=api.C((1 << m) | 1)), dict(length=str(2 ** m - 1))) for m in (1, 2, 5, 9)]

# terminated convolutional codes: the length of each termination mode, in the parameters of the convolutional code
N0, K0, MU = ("convolutional_code." + x for x in ("n", "k", "memory_order"))
FREE = {"num_blocks", N0, K0, MU, "convolutional_code.degree", "convolutional_code.overall_constraint_length"}
FORMULAS += [("TerminatedConvolutionalCode", v, {}, N_K(f"(num_blocks + {MU})*{N0}" if v == 1 else f"num_blocks*{N0}", f"num_blocks*{K0}"))
             for v in (0, 1, 2)]

# degree and memory of convolutional encoders with concrete polynomials, the largest degree at each position in turn
def polys(*rows):
    return api.T(*(polys(*r) if isinstance(r, tuple) else api.C(r) for r in rows))


for row, d in (((0b11, 0b1011), 3), ((0b1011, 0b11), 3), ((0b11, 0b10011, 0b101), 4), ((0b1, 0b1, 0b11), 1)):
    FORMULAS.append(("LowRateConvolutionalCode", 0, dict(g_row=polys(*row)), dict(num_input_bits="1", num_output_bits=str(len(row)), degree=str(d))))
    FORMULAS.append(("HighRateConvolutionalCode", 0, dict(h_row=polys(*row)), dict(num_input_bits=str(len(row) - 1), num_output_bits=str(len(row)), degree=str(d))))
for ff, fb, nu in (
    (((0b11, 0b1011),), None, (3,)), (((0b1011, 0b11),), None, (3,)), (((0b11, 0b101),), (0b10011,), (4,)), (((0b11, 0b10101),), (0b111,), (4,)),
    (((0b11001, 0b10111, 0), (0, 0b1010, 0b1101)), None, (4, 3)), (((0b11, 0b10, 0b11), (0b10, 0b1, 0b1)), None, (1, 1)),
    (((0b1, 0, 0b11), (0, 0b1, 0b101)), (0b1011, 0b111), (3, 2)), (((0b101, 0, 0b1), (0, 0b1, 0b11)), (0b11, 0b1011), (2, 3)),
):
    over = dict(feedforward_polynomials=polys(*ff), **({} if fb is None else dict(feedback_polynomials=polys(*fb))))
    FORMULAS.append(("ConvolutionalCode", 0 if fb is None else 1, over, dict(num_input_bits=str(len(ff)), num_output_bits=str(len(ff[0])),
                     degree=str(sum(nu)), overall_constraint_length=str(sum(nu)), memory_order=str(max(nu)))))

# bounded enumeration of the size parameters: a special case for one size would hide in the join of the symbolic run
for m in range(2, 11):
    for x in (0, 1):
        FORMULAS.append(("HammingCode", x, dict(mu=api.C(m)), N_K(str(2 ** m - 1 + x), str(2 ** m - 1 - m), minimum_distance=str(3 + x))))
        FORMULAS.append(("SimplexCode", x, dict(kappa=api.C(m)), N_K(str(2 ** m - 1 + x), str(m + x), minimum_distance=str(2 ** (m - 1)))))
for n in range(1, 33):
    FORMULAS.append(("RepetitionCode", 0, dict(n=api.C(n)), N_K(str(n), "1", minimum_distance=str(n))))
    if n > 1:
        FORMULAS.append(("SingleParityCheckCode", 0, dict(n=api.C(n)), N_K(str(n), str(n - 1), minimum_distance="2")))
        FORMULAS.append(("OrthogonalConstellation", 0, dict(order=api.C(n)), dict(order=str(n), dimension=str(n))))
        FORMULAS.append(("SimplexConstellation", 0, dict(order=api.C(n)), dict(order=str(n), dimension=str(n))))
    if n % 2 == 0:
        FORMULAS.append(("BiorthogonalConstellation", 0, dict(order=api.C(n)), dict(order=str(n), dimension=str(n // 2))))
for m in range(1, 11):
    for c in ("NaturalLabeling", "ReflectedLabeling"):
        FORMULAS.append((c, 0, dict(num_bits=api.C(m)), dict(num_bits=str(m), cardinality=str(2 ** m))))
    for c in ("PSKConstellation", "ASKConstellation", "PAMConstellation"):
        FORMULAS.append((c, 0, dict(order=api.C(2 ** m)), dict(order=str(2 ** m), dimension="1")))
    FORMULAS.append(("FiniteBifield", 0, dict(degree=api.C(m)), dict(order=str(2 ** m), characteristic="2")))
# (length, generator polynomial, check polynomial) of cyclic codes: dimension and redundancy are the two degrees
CYCLIC = ((7, 0b1011, 0b10111), (7, 0b10111, 0b1011), (7, 0b11, 0b1111111), (15, 0b10011, 0b100110101111), (15, 0b111010001, 0b11010001),
          (23, 0b110001110101, 0b1010010011111), (5, 0b100001, 0b1), (9, 0b1, 0b1000000001))
for n, g, h in CYCLIC:
    k = h.bit_length() - 1
    FORMULAS.append(("CyclicCode", 1, dict(length=api.C(n), generator_polynomial=api.C(g)), dict(length=str(n), redundancy=str(n - k))))
    FORMULAS.append(("CyclicCode", 2, dict(length=api.C(n), check_polynomial=api.C(h)), N_K(str(n), str(k))))

BARKER = (2, 3, 4, 5, 7, 11, 13)


def jobs(prog, tier):
    js = [("prim", n, 0) for n in range(1, 25)] + [("mls", n, 0) for n in range(1, 25)]
    js += [("barker", n, 0) for n in BARKER] + [("golay", x, 0) for x in (0, 1)]
    js += [("formula", k, 0) for k in range(len(FORMULAS))]
    return js


# ------------------------------------------------------------------ independent mathematics (plain integers)
def p2mod(a, m):
    d = m.bit_length()
    while a.bit_length() >= d:
        a ^= m << (a.bit_length() - d)
    return a


def p2mulmod(a, b, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = p2mod(a << 1, m), b >> 1
    return p2mod(r, m)


def p2powmod(e, m):
    r, x = p2mod(1, m), p2mod(2, m)
    while e:
        if e & 1:
            r = p2mulmod(r, x, m)
        x, e = p2mulmod(x, x, m), e >> 1
    return r


def primitive(p, n):
    """X has multiplicative order 2^n - 1 modulo p"""
    if not isinstance(p, int) or p.bit_length() != n + 1 or not p & 1:
        return False
    o, q, fs = 2 ** n - 1, 2, set()
    r = o
    while q * q <= r:
        while r % q == 0:
            fs.add(q)
            r //= q
        q += 1
    if r > 1:
        fs.add(r)
    one = p2mod(1, p)
    return p2powmod(o, p) == one and all(p2powmod(o // f, p) != one for f in fs)


def barker_ok(b):
    s = [1 - 2 * x for x in b]
    return all(abs(sum(s[i] * s[i + k] for i in range(len(s) - k))) <= 1 for k in range(1, len(s)))


def min_weight(P):
    """minimum distance of the code generated by [I | P]"""
    k = len(P)
    rows = [(1 << i) | (int("".join(map(str, r)), 2) << k) for i, r in enumerate(P)]
    best, w = 10 ** 9, 0
    for g in range(1, 1 << k):
        w ^= rows[(g & -g).bit_length() - 1]
        best = min(best, bin(w).count("1"))
    return best


# ------------------------------------------------------------------ reading values off the abstract run
def attr(u, name):
    c = api.Ctx(u.s, u.st0.copy(), u.obj)
    return c.attr(name)


def int_of(v):
    n = v.num() if v is not None else None
    return int(n.const) if n is not None and n.const is not None else None


def site(prog, cls, member=None):
    ci = prog.public_classes()[cls]
    return c06.relpath(ci.module.path), shortfunc(ci.qual) + (f".{member}" if member else "")


def expr(c, node):
    if isinstance(node, ast.Expression):
        return expr(c, node.body)
    if isinstance(node, ast.BinOp):
        return c.I.binop(node.op, expr(c, node.left), expr(c, node.right), c.sess.node, c.st)
    if isinstance(node, ast.Constant):
        return const(node.value)
    if isinstance(node, ast.Attribute):                 # x.y: a parameter of an argument object
        return mk(Num(0, INF, INT, sym=p_sym(ast.unparse(node))))
    if isinstance(node, ast.Name):
        return mk(api.dim(c, node.id, node.id))
    raise ValueError(ast.dump(node))


def job(prog, j):
    kind, a, _ = j
    out, counts, funcs = [], {}, set()

    def res():
        return {"findings": out, "counts": counts, "funcs": funcs, "notes": []}

    def entry(v, ok, cls, what, expl):
        counts["table entries"] = counts.get("table entries", 0) + 1
        path, q = site(prog, cls)
        if v is None:
            out.append(Finding("table", q, what, path, f"{what}: value not read off the source", "undecided", cls))
        elif not ok(v):
            out.append(Finding("table", q, what, path, f"{what} = {v if not isinstance(v, tuple) else '...'}: {expl}", entry=cls))
        else:
            counts["entries verified"] = counts.get("entries verified", 0) + 1

    if kind == "prim":
        u = build(prog, "FiniteBifield", 0, over=dict(degree=api.C(a)))
        funcs = {shortfunc(q) for q in u.I.analysed}
        v = int_of(attr(u, "modulus.value")) if u.obj is not None else None
        entry(v, lambda p: primitive(p, a), "FiniteBifield", f"default modulus of degree {a}", "not a primitive polynomial of that degree")
        return res()
    if kind == "mls":
        u = build(prog, "LFSRSequence", 0)
        if u.obj is None:
            return res()
        mem = members_of(prog, u.ci)
        if "maximum_length_sequence" in mem:
            ow, node = mem["maximum_length_sequence"]
            e = run_member(u, "maximum_length_sequence", ow, node, {}, 0, over=dict(degree=api.C(a), start_state_polynomial=api.C(1)))
            funcs = {shortfunc(q) for q in u.I.analysed}
            v = None
            if e.outcome == "ok" and e.result is not None and e.result.one(Obj) is not None:
                c = api.Ctx(u.s, e.st, e.result)
                v = int_of(c.attr("feedback_polynomial.value"))
            entry(v, lambda p: primitive(p, a), "LFSRSequence", f"feedback polynomial of degree {a}", "not a primitive polynomial of that degree")
        return res()
    if kind == "barker":
        u = build(prog, "BarkerSequence", 0, over=dict(length=api.C(a)))
        funcs = {shortfunc(q) for q in u.I.analysed}
        v = literal(attr(u, "bit_sequence")) if u.obj is not None else None
        entry(v, lambda b: len(b) == a and set(b) <= {0, 1} and barker_ok(b), "BarkerSequence", f"Barker sequence of length {a}",
              "an off-peak aperiodic autocorrelation value exceeds 1 in magnitude")
        return res()
    if kind == "golay":
        u = build(prog, "GolayCode", a)
        funcs = {shortfunc(q) for q in u.I.analysed}
        v = literal(attr(u, "parity_submatrix")) if u.obj is not None else None
        entry(v, lambda P: len(P) == 12 and all(len(r) == 11 + a for r in P) and min_weight(P) == 7 + a, "GolayCode",
              "extended Golay parity matrix" if a else "Golay parity matrix", f"does not generate a code of minimum distance {7 + a}")
        return res()
    cls, variant, over, rows = FORMULAS[a]
    u = build(prog, cls, variant, over=over)
    if u.obj is None:
        return res()
    mem = members_of(prog, u.ci)
    for n, f in rows.items():
        counts["formulas"] = counts.get("formulas", 0) + 1
        st = u.st0.copy()
        c = api.Ctx(u.s, st, u.obj)
        want = expr(c, ast.parse(f, mode="eval")).num()
        member, owner, node = n, u.ci, None
        if n in mem and isinstance(mem[n][1], ast.FunctionDef):
            owner, node = mem[n]
            e = run_member(u, n, owner, node, {}, 0)
            v, st = (e.result, e.st) if e.outcome == "ok" else (None, st)
            if e.outcome == "ok" and e.kind == "attribute":
                v = e.result
        else:
            v = attr(u, n)
        got = v.num() if v is not None else None
        vd = "undecided" if v is None or v.unk or len(v.alts) != 1 or got is None else c06.compare(u.I, u, got, want, st)
        if vd == "undecided" and cls == "TerminatedConvolutionalCode" and v is not None and not v.unk and len(v.alts) == 1 and got is not None and got.sym is not None \
                and set(c06.leaves(got.sym) or ["?"]) <= FREE and set(c06.leaves(want.sym)) <= FREE:
            vd = "violated"         # different polynomials of independent sizes
        if vd == "violated" and got.sym is not None and any(x.startswith("self.") for x in (c06.leaves(got.sym) or ["self."])) and not (got.hi < want.lo or got.lo > want.hi):
            vd = "undecided"        # an attribute without a symbolic definition
        path = c06.relpath(owner.module.path) if owner is not None else ""
        label = f"{cls}/{variant}.{n}" + (f" {describe(over)}" if over else "")
        if vd == "violated":
            out.append(Finding("formula", shortfunc(owner.qual) + "." + n, f"{n} = {f}", f"{path}:{getattr(node, 'lineno', 0)}",
                               f"{label} is {c06.dshow(got)} where {f} is documented", entry=cls))
        elif vd == "proven":
            counts["formulas proven"] = counts.get("formulas proven", 0) + 1
        else:
            out.append(Finding("formula", label, f, path, f"{label}: {v!r:.80} not comparable with {f}", "undecided", cls))
    funcs = {shortfunc(q) for q in u.I.analysed}
    return res()


def describe(over):
    return "(" + ", ".join(f"{k}={getattr(s, 'spec', ('C', '?'))[1]}" for k, s in over.items()) + ")"
