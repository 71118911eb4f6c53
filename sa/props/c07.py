"""C07: results stay in their alphabet."""
from .rows import *
from .c05 import mapping, arr

TITLE = "Results stay inside their documented alphabet"
RULE = ("Interval analysis of every operation that returns symbols of a finite alphabet (bits, source/target symbols, indices, states, channel "
        "outputs, polar values, probabilities), run once per class form with concrete alphabet sizes: the interval of the elements of the result "
        "must lie in the alphabet, and be of integer kind where integers are documented.  The analysis over-approximates, so containment is a proof; "
        "a bound above the alphabet is a violation where no unknown value is involved.")
ASSUME = ENGINE_ASSUMPTIONS + ["inputs lie in their own documented alphabets"]
MIN = {"closures proven": 250}

BIT = (0, 1, "int")
UP = lambda m: (0, m - 1, "int")
PROB = (0, 1, "real")
NONNEG = (0, INF, "real")

BLOCK = {m: BIT for m in ("encode", "inverse_encode", "check", "project_word", "generator_matrix", "check_matrix", "codewords", "coset_leaders",
                          "generator_matrix_right_inverse")}
BLOCK.update(codeword_weight_distribution=(0, INF, "int"), coset_leader_weight_distribution=(0, INF, "int"), length=(1, INF, "int"), dimension=(0, INF, "int"),
             redundancy=(0, INF, "int"), minimum_distance=(0, INF, "int"), rate=(0, INF, "real"))
PULSE = dict(energy=NONNEG, energy_spectral_density=NONNEG)
SEQ = dict(bit_sequence=BIT, polar_sequence=(-1, 1, "int"))
CONV = dict(encode=BIT, encode_with_state=[BIT, BIT], num_input_bits=(0, INF, "int"), num_output_bits=(1, INF, "int"), memory_order=(0, INF, "int"),
            overall_constraint_length=(0, INF, "int"), constraint_lengths=(0, INF, "int"), state_space_representation=[BIT] * 4, free_distance=(0, INF, "int"))


def fsm(s, x, y, moore=False):
    return dict(transitions=A((s, x), 0, s - 1), outputs=A((s,) if moore else (s, x), 0, y - 1))


def code(s, t, words):
    return dict(source_cardinality=CONST(s), target_cardinality=CONST(t), **words)


CASES = []
for v in range(len(CTORS["TerminatedConvolutionalCode"])):
    # the generator matrix of a tail-biting code is assembled by overlapping rows: only the operations that reduce modulo 2 again are decided
    CASES.append(("TerminatedConvolutionalCode", v, {}, {k: s for k, s in BLOCK.items() if k not in ("generator_matrix", "check_matrix")}))
for c in ("BlockCode", "SystematicBlockCode", "CyclicCode", "HammingCode", "SimplexCode", "GolayCode"):
    for v in range(len(CTORS[c])):
        CASES.append((c, v, {}, BLOCK))
for c in ("BCHCode", "ReedMullerCode", "PolarCode", "RepetitionCode", "SingleParityCheckCode", "CordaroWagnerCode", "Lexicode"):
    CASES.append((c, 0, {}, BLOCK))
for c in ("ConvolutionalCode", "HighRateConvolutionalCode", "LowRateConvolutionalCode"):
    for v in range(len(CTORS[c])):
        CASES.append((c, v, {}, CONV))
for c, v in (("BerlekampDecoder", 0), ("ExhaustiveSearchDecoder", 0), ("ExhaustiveSearchDecoder", 1), ("ReedDecoder", 0), ("ReedDecoder", 1), ("SCDecoder", 0),
             ("SyndromeTableDecoder", 0), ("ViterbiDecoder", 0), ("ViterbiDecoder", 1), ("ViterbiDecoder", 2), ("WagnerDecoder", 0), ("BCJRDecoder", 1), ("BCJRDecoder", 2),
             ("ViterbiStreamDecoder", 0), ("ViterbiStreamDecoder", 1)):
    CASES.append((c, v, {}, {"decode": BIT}))
CASES.append(("SlepianArray", 0, {}, dict(entry=BIT, row=BIT, col=BIT)))
for c, y in (("BinarySymmetricChannel", 2), ("BinaryErasureChannel", 3), ("ZChannel", 2)):
    CASES.append((c, 0, {}, dict(transmit=UP(y), transition_matrix=PROB)))
for x, y in ((2, 2), (3, 4), (5, 2)):
    CASES.append(("DiscreteMemorylessChannel", 0, dict(transition_matrix=PMF((x, y))), dict(transmit=UP(y), transition_matrix=PROB)))
for s in (2, 3, 7):
    CASES.append(("DiscreteMemorylessSource", 0, dict(pmf=PMF((s,))), dict(emit=UP(s), pmf=PROB)))
    CASES.append(("DiscreteMemorylessSource", 1, dict(pmf=CONST(s)), dict(emit=UP(s), pmf=PROB)))
    CASES.append(("MarkovChain", 0, dict(transition_matrix=PMF((s, s))), {
        "simulate": UP(s), "simulate_until_absorption": UP(s), "transition_matrix": PROB, "index_of_dispersion": NONNEG, "accessible_states_from": UP(s),
        "communicating_classes": UP(s), "recurrent_states": UP(s), "transient_states": UP(s), "period": (0, INF, "int")}))
for M, m in ((2, 1), (4, 2), (8, 3)):
    CASES.append(("Labeling", 0, dict(matrix=A((M, m))), dict(matrix=BIT, indices_to_bits=BIT, bits_to_indices=UP(M))))
    for c in ("NaturalLabeling", "ReflectedLabeling"):
        CASES.append((c, 0, dict(num_bits=CONST(m)), dict(matrix=BIT, indices_to_bits=BIT)))
    CASES.append(("ReflectedRectangularLabeling", 0, dict(num_bits=CONST(2 * m)), dict(matrix=BIT, indices_to_bits=BIT, bits_to_indices=UP(M * M))))
    for c in ("PSKConstellation", "ASKConstellation", "PAMConstellation", "OrthogonalConstellation", "SimplexConstellation", "BiorthogonalConstellation"):
        CASES.append((c, 0, dict(order=CONST(M)), dict(closest_indices=UP(M), posteriors=NONNEG, mean_energy=NONNEG)))
CASES.append(("ReflectedRectangularLabeling", 1, dict(num_bits=T(CONST(1), CONST(2))), dict(matrix=BIT, indices_to_bits=BIT, bits_to_indices=UP(8))))
CASES.append(("ProductLabeling", 0, {}, dict(matrix=BIT, indices_to_bits=BIT, bits_to_indices=(0, INF, "int"))))
CASES.append(("CrossQAMConstellation", 0, dict(order=CONST(32)), dict(posteriors=NONNEG, mean_energy=NONNEG)))
CASES.append(("QAMConstellation", 0, dict(orders=T(CONST(2), CONST(4))), dict(closest_indices=UP(8), posteriors=NONNEG, mean_energy=NONNEG)))
CASES.append(("QAMConstellation", 1, dict(orders=CONST(16)), dict(closest_indices=UP(16), posteriors=NONNEG, mean_energy=NONNEG)))
CASES.append(("APSKConstellation", 0, dict(orders=T(CONST(4), CONST(12))), dict(closest_indices=UP(16), posteriors=NONNEG, mean_energy=NONNEG)))
for M, N in ((2, 1), (5, 3)):
    for v, k in ((0, FA), (1, CA)):
        CASES.append(("Constellation", v, dict(matrix=k((M, N))), dict(closest_indices=UP(M), posteriors=NONNEG, mean_energy=NONNEG)))
for s, x, y in ((2, 2, 3), (4, 2, 8)):
    CASES.append(("MealyMachine", 0, fsm(s, x, y), dict(process=[UP(y), UP(s)], viterbi=[UP(x), None], forward_backward=NONNEG, num_states=(s, s, "int"),
                                                       num_input_symbols=(x, x, "int"), num_output_symbols=(1, y, "int"))))
    CASES.append(("MooreMachine", 0, fsm(s, x, y, True), dict(process=[UP(y), UP(s)], num_states=(s, s, "int"), num_input_symbols=(x, x, "int"), num_output_symbols=(1, y, "int"))))
for n in (2, 3, 8):
    CASES.append(("UniformQuantizer", 0, dict(num_levels=CONST(n)), dict(digitize=UP(n))))
    CASES.append(("ScalarQuantizer", 0, dict(levels=FA((n,)), thresholds=FA((n - 1,))), dict(digitize=UP(n))))
    CASES.append(("LloydMaxQuantizer", 0, dict(num_levels=CONST(n)), dict(digitize=UP(n))))
CASES.append(("FixedToVariableCode", 0, dict(source_cardinality=CONST(2), target_cardinality=CONST(2), source_block_size=CONST(1), enc_mapping=mapping({(0,): (0,), (1,): (1, 1)})),
              dict(encode=UP(2), decode=UP(2), lengths=(1, INF, "int"))))
CASES.append(("FixedToVariableCode", 0, dict(source_cardinality=CONST(2), target_cardinality=CONST(3), source_block_size=CONST(1), enc_mapping=mapping({(0,): (0,), (1,): (2,)})),
              dict(encode=UP(3), decode=UP(2), lengths=(1, INF, "int"))))
CASES.append(("VariableToFixedCode", 0, dict(source_cardinality=CONST(2), target_cardinality=CONST(2), target_block_size=CONST(1), dec_mapping=mapping({(0,): (0,), (1,): (1, 1)})),
              dict(encode=UP(2), decode=UP(2), lengths=(1, INF, "int"))))
for S_ in (2, 3, 5):
    for c in ("HuffmanCode", "FanoCode", "ShannonCode"):
        CASES.append((c, 0, dict(pmf=PMF((S_,)), source_block_size=CONST(1)), dict(encode=UP(2), decode=UP(S_), codewords=UP(2), lengths=(0, INF, "int"), rate=NONNEG)))
    CASES.append(("TunstallCode", 0, dict(pmf=PMF((S_,)), target_block_size=CONST(3)), dict(encode=UP(2), decode=UP(S_), sourcewords=UP(S_), lengths=(1, INF, "int"), rate=NONNEG)))
for s, t in ((2, 2), (3, 5)):
    # decoding of the dictionary coders is left out: the alphabet of its output depends on the tokens having been produced by the encoder
    for c in ("LempelZiv77Code", "LempelZivSSCode"):
        CASES.append((c, 0, dict(search_size=CONST(4), lookahead_size=CONST(3), source_cardinality=CONST(s), target_cardinality=CONST(t)), dict(encode=UP(t))))
    CASES.append(("LempelZiv78Code", 0, dict(source_cardinality=CONST(s), target_cardinality=CONST(t)), dict(encode=UP(t))))
CASES.append(("FibonacciCode", 0, {}, dict(encode=BIT, decode=(0, INF, "int"))))
CASES.append(("UnaryCode", 0, {}, dict(encode=BIT, decode=(0, INF, "int"))))
for n in (2, 5, 13):
    CASES.append(("BarkerSequence", 0, dict(length=CONST(n)), SEQ))
for v in (0, 1):
    CASES.append(("BinarySequence", v, {}, SEQ))
    CASES.append(("LFSRSequence", v, {}, SEQ))
for o in ("natural", "sequency", "dyadic"):
    CASES.append(("WalshHadamardSequence", 0, dict(length=CONST(4), index=CONST(1), ordering=S(o)), SEQ))
for c in ("BeaulieuPulse", "GaussianPulse", "ManchesterPulse", "RaisedCosinePulse", "RectangularPulse", "SincPulse"):
    CASES.append((c, 0, {}, PULSE))
for v in range(3):
    CASES.append(("BinaryPolynomial", v, {}, dict(coefficients=BIT, exponents=(0, INF, "int"), degree=(-1, INF, "int"))))
# the empty stream is a valid stream: its image must still be an array of integers
STREAM = ("DiscreteMemorylessChannel", "BinarySymmetricChannel", "BinaryErasureChannel", "ZChannel", "FixedToVariableCode", "VariableToFixedCode", "HuffmanCode", "FanoCode", "ShannonCode", "TunstallCode",
          "LempelZiv77Code", "LempelZivSSCode", "LempelZiv78Code", "LempelZivWelchCode", "FibonacciCode", "UnaryCode", "ConvolutionalCode", "LowRateConvolutionalCode",
          "HighRateConvolutionalCode", "MealyMachine", "MooreMachine", "UniformQuantizer", "ScalarQuantizer")
SOP = {"transmit": "input", "encode": "input", "decode": "input", "digitize": "input", "process": "input"}
FUNCS_ = {"int_to_bits": BIT, "bits_to_int": (0, INF, "int"), "gaussian_q": PROB, "binary_entropy_inv": (0, 1, "real"), "binary_entropy": NONNEG}


def jobs(prog, tier):
    pub = prog.public_classes()
    js = [("case", i, 0) for i, c in enumerate(CASES) if c[0] in pub]
    js += [("empty", i, 0) for i, c in enumerate(CASES) if c[0] in pub and c[0] in STREAM and (c[0], c[1]) not in {(x[0], x[1]) for x in CASES[:i]}]
    js.sort(key=lambda j: 0 if CASES[j[1]][0] in ("BerlekampDecoder", "BCHCode", "ReedDecoder", "CyclicCode", "TerminatedConvolutionalCode", "ViterbiDecoder", "BCJRDecoder", "BCHCode") else 1)
    return js + [("fun", f, 0) for f in FUNCS_ if f in prog.public_functions()]


def relp(p):
    return os.path.relpath(p, REPO) if os.path.isabs(p) else p


def nums(v, depth=0):
    """Nums making up the value (elements of containers), or None where unknown"""
    out = []
    if v is None or depth > 5:
        return [None]
    for a in v.alts:
        if isinstance(a, Num):
            out.append(a)
        elif isinstance(a, Arr):
            out += nums(a.elem, depth + 1)
        elif isinstance(a, Seq):
            if a.items is not None:
                for x in a.items:
                    out += nums(x, depth + 1)
            elif a.elem is not None:
                out += nums(a.elem, depth + 1)
        elif isinstance(a, SetA):
            out += nums(a.elem, depth + 1) if a.elem is not None else []
        else:
            out.append(None)
    return out


def etags(v, depth=0):
    out = set()
    if v is None or depth > 5:
        return out
    out |= v.tags
    for a in v.alts:
        if isinstance(a, Arr):
            out |= etags(a.elem, depth + 1)
        elif isinstance(a, Seq):
            for x in a.items if a.items is not None else (a.elem,):
                out |= etags(x, depth + 1)
    return out


def judge(val, spec, hard=False):
    """-> 'proven' | 'undecided' | text of the violation"""
    lo, hi, kind = spec
    ns = nums(val)
    if any(n is None for n in ns):
        return "undecided unknown"
    for n in ns:
        if n.bot and kind == "int" and n.kinds and not n.kinds & {"int", "bool"}:
            return f"the (empty) result is an array of {'/'.join(sorted(n.kinds))} instead of integers"
    if ns and all(n.bot for n in ns):
        return "proven"
    ns = [n for n in ns if not n.bot]
    und = False
    masked = ("masked",) in etags(val)
    for n in ns:
        if kind == "int" and n.kinds - {"int", "bool"}:
            if not n.kinds & {"int", "bool"}:
                return f"elements are {'/'.join(sorted(n.kinds))} instead of integers"
            und = True
        if n.hi > hi:
            if n.hi == INF and n.lo == -INF:
                if hard and ("rounded",) in etags(val) and n.kinds <= {"int"}:
                    return f"elements are unbounded values rounded to integers (alphabet: {lo}..{hi})"
                und = True
            elif masked:
                und = True
            else:
                return f"elements reach {n.hi if n.hi < INF else 'arbitrarily large values'} (alphabet: {lo}..{hi})"
        if n.lo < lo:
            if n.lo == -1 and n.hi == 1 and ("signed",) in etags(val):
                return f"elements are signs, -1 included (alphabet: {lo}..{hi})"
            if n.lo == -1 or n.lo == -INF or masked:          # a sentinel, or an unbounded start of a fixpoint, is no evidence
                und = True
            else:
                return f"elements reach {n.lo} (alphabet: {lo}..{hi})"
    return ("undecided " + " ".join(map(str, ns))) if und or not ns else "proven"


def pick(val, path):
    for i in path:
        if val is None or len(val.alts) != 1 or not isinstance(val.alts[0], Seq) or val.alts[0].items is None or i >= len(val.alts[0].items):
            return None
        val = val.alts[0].items[i]
    return val


def expand(spec, path=()):
    if spec is None:
        return
    if isinstance(spec, list):
        for i, s in enumerate(spec):
            yield from expand(s, path + (i,))
    else:
        yield path, spec


def report(out, counts, res, label, where, func, val, spec):
    for path, s in expand(spec):
        counts["obligations"] = counts.get("obligations", 0) + 1
        r = judge(pick(val, path), s, func.endswith("Decoder.decode"))
        what = f"{func.split('.')[-1]}{''.join(f'[{i}]' for i in path)} in {s[0]}..{s[1]} ({s[2]})"
        if r == "proven":
            counts["closures proven"] = counts.get("closures proven", 0) + 1
        else:
            out.append(Finding("alphabet", func, what, where, f"{label}: {r}", "undecided" if r.startswith("undecided") else "violation", entry=label))


def job(prog, j):
    out, counts, funcs = [], {}, set()
    if j[0] == "fun":
        u = run_func(prog, j[1])
        for e in u.entries:
            if e.outcome == "ok":
                report(out, counts, e, e.name, f"{relp(prog.public_functions()[j[1]][1].path)}:{e.node.lineno}", j[1], e.result, FUNCS_[j[1]])
        return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}}
    cls, variant, over, members = CASES[j[1]]
    u = build(prog, cls, variant, over)
    if u.obj is None:
        return {"findings": [], "counts": {"forms without an object": 1}, "funcs": set()}
    mem = members_of(prog, u.ci)
    for name, spec in members.items():
        if name not in mem:
            continue
        owner, node = mem[name]
        if j[0] == "empty":
            if name not in SOP or cls.startswith("LempelZiv") and name == "decode":
                continue
            e = run_member(u, name, owner, node, spec_for(prog, u.ci, name, node, cls)[0], 0, over={SOP[name]: A((0,))})
            if e.outcome == "ok":
                report(out, counts, e, f"{cls}/{variant}.{name} of an empty input", f"{relp(owner.module.path)}:{node.lineno}", shortfunc(owner.qual) + "." + name, e.result, spec)
            continue
        specs = spec_for(prog, u.ci, name, node, cls) if isinstance(node, ast.FunctionDef) else [None]
        for k, d in enumerate(specs or [None]):
            if name == "decode" and owner.name.endswith("Decoder") and len(specs) == 2 and k == 0 and cls in ("SyndromeTableDecoder", "BerlekampDecoder"):
                continue                                             # hard decoders take bits, not floats
            e = run_member(u, name, owner, node, d, k)
            if e.outcome != "ok":
                continue
            label = f"{cls}/{variant}.{name}" + (f" ({', '.join(sorted(over))} fixed)" if over else "")
            if not owner.name.endswith("Decoder"):
                for ev in e.events:
                    if ev.kind == "cast-range":
                        out.append(from_event(ev, "cast-range", ev.detail + ": a large value becomes an arbitrary index", label))
            report(out, counts, e, label, f"{relp(owner.module.path)}:{node.lineno}", shortfunc(owner.qual) + "." + name, e.result, spec)
    funcs = {shortfunc(q) for q in u.I.analysed}
    return {"findings": out, "counts": counts, "funcs": funcs}
