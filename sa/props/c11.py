"""C11: information flow from every parameter to the results."""
from .common import *
from ..api import S, B as BOOL_, C, O, A, FA, I as INT_, T, F, MUL, ALT

TITLE = "Every parameter and argument reaches the results it is documented to determine"
RULE = ("Information-flow analysis (data, index, container-size and control dependence): every argument an operation is called with must flow "
        "into its result, and every constructor parameter into each operation of the class that it determines.  The computed flow is an "
        "over-approximation, so a parameter outside it cannot have any influence; options (modes, orderings, decision types) are varied over "
        "all their documented values at once.")
ASSUME = ENGINE_ASSUMPTIONS + ["the table of documented dependences (sa/props/c11.py) lists parameters that really influence the operation"]
MIN = {"flows proven": 400}

# argument (member, name) that legitimately has no influence on the returned value
NOFLOW = {
    ("simulate", "rng"), ("__eq__", "other"),
    ("convolve", "axis"), ("plot", "ax"),
}
# (class/base, member): set of constructor parameters exempt from "every constructor parameter flows into this member"
EXEMPT_PARAMS = {"rng"}
MAIN = {
    "BlockCode": ["encode", "generator_matrix", "check_matrix", "codewords", "project_word", "inverse_encode", "check"],
    "BlockDecoder": ["decode"],
    "SlepianArray": ["row", "col", "entry"],
    "ConvolutionalCode": ["encode", "encode_with_state", "state_space_representation", "finite_state_machine", "free_distance"],
    "ViterbiStreamDecoder": ["decode"],
    "MealyMachine": ["process", "viterbi"],
    "MooreMachine": ["process"],
    "Constellation": ["matrix", "indices_to_symbols", "closest_symbols", "posteriors", "mean_energy", "minimum_distance"],
    "Labeling": ["matrix", "indices_to_bits", "bits_to_indices", "inverse_mapping", "marginalize"],
    "DiscreteMemorylessChannel": ["transition_matrix", "transmit", "mutual_information", "capacity"],
    "GaussianChannel": ["transmit"],
    "ScalarQuantizer": ["quantize", "mean_squared_error"],
    "UniformQuantizer": ["levels", "thresholds", "quantize", "digitize"],
    "LloydMaxQuantizer": ["levels", "thresholds", "quantize", "digitize"],
    "Pulse": ["waveform", "spectrum", "autocorrelation", "energy_spectral_density", "taps"],
    "DiscreteMemorylessSource": ["pmf", "entropy_rate", "emit"],
    "MarkovChain": ["transition_matrix", "stationary_distribution", "simulate", "absorption_probabilities", "communicating_classes", "period"],
    "FixedToVariableCode": ["enc_mapping", "encode", "decode", "lengths", "rate"],
    "VariableToFixedCode": ["dec_mapping", "encode", "decode", "lengths", "rate"],
    "LempelZiv77Code": ["encode", "decode"], "LempelZiv78Code": ["encode", "decode"], "LempelZivSSCode": ["encode", "decode"],
    "LempelZivWelchCode": ["encode", "decode"],
    "BinarySequence": ["autocorrelation", "cyclic_autocorrelation", "bit_sequence", "polar_sequence"],
    "ComplexSequence": ["autocorrelation", "cyclic_autocorrelation", "sequence"],
    "BinaryPolynomial": ["coefficients", "exponents", "degree", "evaluate", "__add__", "__mul__", "__mod__"],
    "FiniteBifield": ["order", "__call__"],
}
NODEP = {
    # rotation does not change energies or distances; distances are set by the spacing alone
    **{(c, m): {"phase_offset", "phase_offsets", "order", "orders"} for c in ("ASKConstellation", "PAMConstellation", "QAMConstellation", "CrossQAMConstellation",
                                                                              "SimplexConstellation", "OrthogonalConstellation", "BiorthogonalConstellation")
       for m in ("minimum_distance",)},
    ("PSKConstellation", "minimum_distance"): {"phase_offset"},
    **{(c, "mean_energy"): {"phase_offset", "phase_offsets"} for c in ("APSKConstellation", "ASKConstellation", "CrossQAMConstellation", "QAMConstellation")},
    **{(c, "mean_energy"): {"phase_offset", "order"} for c in ("PSKConstellation", "OrthogonalConstellation", "BiorthogonalConstellation")},
    # the same code, whatever the encoding
    **{("CyclicCode", m): {"systematic"} for m in ("check", "check_matrix")},
    **{("FiniteBifield", m): {"modulus"} for m in ("order",)},
    **{("FixedToVariableCode", m): {"source_cardinality", "target_cardinality", "source_block_size", "policy", "assignment"} for m in ("enc_mapping", "decode", "lengths")},
    **{("FixedToVariableCode", m): {"source_cardinality", "target_cardinality", "policy", "assignment"} for m in ("encode", "rate")},
    **{("HuffmanCode", m): {"policy"} for m in ("lengths", "rate")},
    **{("HuffmanCode", m): set() for m in ("enc_mapping", "decode", "encode")},
    **{(c, m): set() for c in ("FanoCode", "ShannonCode", "TunstallCode") for m in ("enc_mapping", "dec_mapping", "decode", "encode", "lengths", "rate")},
    **{("VariableToFixedCode", m): {"source_cardinality", "target_cardinality", "target_block_size"} for m in ("dec_mapping", "encode", "lengths")},
    **{("VariableToFixedCode", m): {"source_cardinality", "target_cardinality"} for m in ("decode", "rate")},
}
# options: every documented value at once; the decision must be visible in the result
OPTIONS = [
    ("GolayCode", 0, dict(extended=BOOL_()), ["encode", "generator_matrix", "length"]),
    ("HammingCode", 0, dict(extended=BOOL_()), ["encode", "generator_matrix", "length"]),
    ("SimplexCode", 0, dict(extended=BOOL_()), ["encode", "generator_matrix"]),
    ("CyclicCode", 0, dict(systematic=BOOL_()), ["encode", "generator_matrix"]),
    ("TerminatedConvolutionalCode", 0, dict(mode=S("direct-truncation", "zero-termination", "tail-biting")), ["encode", "generator_matrix"]),
    ("ViterbiDecoder", 0, dict(input_type=S("hard", "soft")), ["decode"]),
    ("ViterbiStreamDecoder", 0, dict(input_type=S("hard", "soft")), ["decode"]),
    ("ExhaustiveSearchDecoder", 0, dict(input_type=S("hard", "soft")), ["decode"]),
    ("ReedDecoder", 0, dict(input_type=S("hard", "soft")), ["decode"]),
    ("SCDecoder", 0, dict(output_type=S("hard", "soft")), ["decode"]),
    ("BCJRDecoder", 0, dict(output_type=S("hard", "soft")), ["decode"]),
    ("HuffmanCode", 0, dict(policy=S("high", "low"), assignment=C("canonical")), ["enc_mapping", "encode", "decode"]),
    ("HuffmanCode", 0, dict(policy=S("high", "low"), assignment=C("tree")), ["enc_mapping", "encode", "decode"]),
    ("CyclicCode", 1, dict(systematic=BOOL_()), ["encode", "generator_matrix"]),
    ("CyclicCode", 2, dict(systematic=BOOL_()), ["encode", "generator_matrix"]),
    *[("TerminatedConvolutionalCode", 0, dict(mode=S(a, b)), ["encode"]) for a, b in (("direct-truncation", "zero-termination"),
                                                                                     ("direct-truncation", "tail-biting"), ("zero-termination", "tail-biting"))],
    *[(c, v, dict(input_type=S("hard", "soft")), ["decode"]) for c in ("ViterbiDecoder",) for v in (1, 2)],
    *[(c, v, dict(output_type=S("hard", "soft")), ["decode"]) for c in ("BCJRDecoder",) for v in (1, 2)],
    ("HuffmanCode", 0, dict(policy=S("high", "low")), ["enc_mapping", "encode", "decode"]),
    ("HuffmanCode", 0, dict(assignment=S("tree", "canonical")), ["enc_mapping", "encode", "decode"]),
    ("WalshHadamardSequence", 0, dict(ordering=S("natural", "sequency")), ["bit_sequence", "polar_sequence"]),
]
# further members: (class, member) -> constructor parameters that determine the result (looked up along the inheritance chain)
MORE = {
    ("FixedToVariableCode", ("kraft_parameter",)): ["enc_mapping", "target_cardinality"],
    ("FixedToVariableCode", ("is_prefix_free", "is_uniquely_decodable", "codewords", "size")): ["enc_mapping"],
    ("VariableToFixedCode", ("is_fully_covering",)): ["dec_mapping", "source_cardinality"],
    ("VariableToFixedCode", ("is_prefix_free", "is_uniquely_encodable", "sourcewords", "size")): ["dec_mapping"],
    ("BlockCode", ("codeword_weight_distribution", "coset_leader_weight_distribution", "coset_leaders", "minimum_distance", "packing_radius", "covering_radius",
                   "generator_matrix_right_inverse", "dimension", "redundancy")): ["generator_matrix", "check_matrix"],
    ("SystematicBlockCode", ("codeword_weight_distribution", "coset_leader_weight_distribution", "coset_leaders", "minimum_distance", "packing_radius",
                             "dimension", "redundancy", "length", "parity_submatrix")): ["parity_submatrix"],
    ("SystematicBlockCode", ("encode", "generator_matrix", "check_matrix", "information_set", "project_word")): ["information_set", "parity_submatrix"],
    ("BCHCode", ("dimension", "redundancy", "rate", "generator_polynomial", "check_polynomial", "minimum_distance", "check_matrix")): ["mu", "delta"],
    ("CyclicCode", ("codeword_weight_distribution", "coset_leaders", "minimum_distance", "check_matrix")): ["length", "generator_polynomial", "check_polynomial"],
    ("ReedMullerCode", ("dimension", "redundancy", "minimum_distance", "rate", "reed_partitions")): ["rho", "mu"],
    ("PolarCode", ("dimension", "redundancy", "active", "frozen")): ["frozen"],
    ("Lexicode", ("dimension", "redundancy", "generator_matrix")): ["n", "d"],
    ("CordaroWagnerCode", ("minimum_distance", "redundancy", "codeword_weight_distribution", "parity_submatrix")): ["n"],
    ("RepetitionCode", ("minimum_distance", "codeword_weight_distribution", "coset_leader_weight_distribution")): ["n"],
    ("SingleParityCheckCode", ("dimension", "codeword_weight_distribution")): ["n"],
    ("HammingCode", ("dimension", "redundancy", "length", "codeword_weight_distribution")): ["mu"],
    ("SimplexCode", ("dimension", "redundancy", "length", "minimum_distance", "codeword_weight_distribution")): ["kappa"],
    ("ConvolutionalCode", ("constraint_lengths", "memory_orders", "overall_constraint_length", "memory_order", "degree", "is_catastrophic")):
        ["feedforward_polynomials", "feedback_polynomials"],
    ("TerminatedConvolutionalCode", ("length", "dimension", "redundancy", "rate", "minimum_distance")): ["convolutional_code", "num_blocks"],
    ("Constellation", ("closest_indices",)): ["matrix"],
    ("PSKConstellation", ("closest_indices", "posteriors", "indices_to_symbols")): ["order", "phase_offset"],
    ("ASKConstellation", ("closest_indices", "mean")): ["order", "base_amplitude", "phase_offset"],
    ("QAMConstellation", ("closest_indices", "matrix")): ["orders", "deltas", "phase_offset"],
    ("APSKConstellation", ("closest_indices", "minimum_distance")): ["orders", "amplitudes", "phase_offsets"],
    ("MarkovChain", ("is_irreducible", "is_regular", "is_absorbing", "is_aperiodic", "transient_states", "recurrent_states", "absorbing_states",
                     "accessible_states_from", "mean_number_of_visits", "mean_time_to_absorption", "index_of_primitivity", "simulate_until_absorption")): ["transition_matrix"],
    ("MealyMachine", ("forward_backward",)): ["transitions"],
    ("MealyMachine", ("output_edges", "process", "viterbi")): ["transitions", "outputs"],
    ("MooreMachine", ("process",)): ["transitions", "outputs"],
    ("ScalarQuantizer", ("digitize", "thresholds")): ["thresholds"],
    ("ScalarQuantizer", ("levels",)): ["levels"],
    ("Labeling", ("cardinality", "num_bits")): ["matrix"],
}

# alternative constructors: (class, member) -> attribute of the built object: parameters that determine it
FACTORY = {
    ("FixedToVariableCode", "from_enc_mapping"): dict(enc_mapping=["enc_mapping"]),
    ("FixedToVariableCode", "from_codewords"): dict(enc_mapping=["codewords", "source_cardinality"], source_cardinality=["source_cardinality"],
                                                    target_cardinality=["target_cardinality"]),
    ("FixedToVariableCode", "from_lengths"): dict(enc_mapping=["lengths", "source_cardinality", "target_cardinality"], source_cardinality=["source_cardinality"],
                                                  target_cardinality=["target_cardinality"]),
    ("VariableToFixedCode", "from_dec_mapping"): dict(dec_mapping=["dec_mapping"]),
    ("VariableToFixedCode", "from_sourcewords"): dict(dec_mapping=["sourcewords", "target_cardinality"], target_cardinality=["target_cardinality"],
                                                      source_cardinality=["source_cardinality"]),
    ("UniformQuantizer", "mid_riser"): dict(levels=["num_levels", "step"], thresholds=["num_levels", "step"]),
    ("UniformQuantizer", "mid_tread"): dict(levels=["num_levels", "step"], thresholds=["num_levels", "step"]),
    ("LFSRSequence", "maximum_length_sequence"): dict(bit_sequence=["degree", "start_state_polynomial"], feedback_polynomial=["degree"]),
    ("BinaryPolynomial", "from_coefficients"): dict(value=["coefficients"]),
    ("BinaryPolynomial", "from_exponents"): dict(value=["exponents"]),
    ("ProductLabeling", "from_matrices"): dict(matrix=["matrices"]),
}


def jobs(prog, tier):
    return unit_jobs(prog) + [("option", k, 0) for k in range(len(OPTIONS))]


def flow(I, st, v, seen=None, depth=0):
    """parameters that may influence v (object attributes included)"""
    seen = set() if seen is None else seen
    t = set(deep_tags(v))
    if depth > 8:
        return t
    for a in v.alts:
        if isinstance(a, Obj) and a.oid not in seen:
            seen.add(a.oid)
            rec = I.get_rec(st, a.oid)
            if rec:
                for x in rec.attrs.values():
                    t |= flow(I, st, x, seen, depth + 1)
        elif isinstance(a, Seq):
            for x in (a.items or ()):
                t |= flow(I, st, x, seen, depth + 1)
            if a.elem is not None:
                t |= flow(I, st, a.elem, seen, depth + 1)
        elif isinstance(a, Map) and a.v is not None:
            t |= flow(I, st, a.v, seen, depth + 1)
        elif isinstance(a, Fn) and a.self_v is not None:
            t |= flow(I, st, a.self_v, seen, depth + 1)
    return t


def symbols(v):
    """size symbols that the result mentions (dimensions, integer values): they name the parameter they come from"""
    out = set()
    for a in v.alts:
        ns = [a] if isinstance(a, Num) else list(a.shape or ()) if isinstance(a, Arr) else [a.length] if isinstance(a, (Seq, Map, SetA)) and a.length is not None else []
        for n in ns:
            if n.sym is not None:
                for at in p_atoms(n.sym):
                    out |= atom_names(at)
    return out


def atom_names(at):
    if isinstance(at, str):
        base = at.split("#")[0]
        return {base, base.split(":")[-1], base.split(".")[-1]}
    out = set()
    for x in at[1:] if isinstance(at, tuple) else ():
        if isinstance(x, frozenset):
            for b in p_atoms(x):
                out |= atom_names(b)
    return out


def names(I, st, v, sizes=True):
    """parameters whose value flows into v; with `sizes`, also those of which only the size does"""
    f = flow(I, st, v)
    kinds = ("p", "ps") if sizes else ("p",)
    return {x[1].lstrip("*") for x in f if isinstance(x, tuple) and x[0] in kinds} | symbols(v)


def is_const(v):
    return len(v.alts) == 1 and (v.alts[0] is NONE or isinstance(v.alts[0], Num) and v.alts[0].const is not None
                                 or isinstance(v.alts[0], Str) and v.alts[0].consts is not None and len(v.alts[0].consts) == 1)


def components(name, v):
    """a fixed tuple argument must have each of its components used"""
    s = v.one(Seq)
    if s is not None and s.kind == "tuple" and s.items is not None and 1 < len(s.items) <= 4 and not any(is_const(x) for x in s.items):
        return [name] + [f"{name}[{i}]" for i in range(len(s.items))]
    return [name]


def where(e):
    p = e.owner.module.path if e.owner is not None else ""
    if os.path.isabs(p):
        p = os.path.relpath(p, REPO)
    return f"{p}:{getattr(e.node, 'lineno', 0)}"


def owner(e):
    return shortfunc(e.owner.qual) + "." + e.member if e.owner is not None else e.member


def check_flow(u, e, need, counts, out, what):
    have = names(u.I, e.st, e.result)
    values = names(u.I, e.st, e.result, False) if what == "argument" else have
    for n in need:
        counts["flows"] = counts.get("flows", 0) + 1
        if n.lstrip("*") in have and n.lstrip("*") not in values and not e.result.unk:
            out.append(Finding("flow", owner(e), f"{e.member}: {n} (size only)", where(e), f"{e.name}: {what} '{n}' influences the result through its size "
                               "only, not through its values", entry=e.name))
        elif n.lstrip("*") in have:
            counts["flows proven"] = counts.get("flows proven", 0) + 1
        elif e.result.unk:
            out.append(Finding("flow", e.name, n, "", f"{e.name}: the result is partly unmodelled, flow from {what} '{n}' undecided", "undecided", e.name))
        else:
            out.append(Finding("flow", owner(e), f"{e.member}: {n}", where(e), f"{e.name}: {what} '{n}' has no influence on the result", entry=e.name))


def main_members(prog, ci):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and c.name in MAIN:
            return MAIN[c.name]
    return ()


def nodep(prog, ci, member):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and (c.name, member) in NODEP:
            return NODEP[(c.name, member)]
    return ()


def more(prog, ci, member):
    out = set()
    names_ = {c.name for c in prog.mro(ci) if isinstance(c, ClassInfo)} if ci is not None else set()
    for (c, ms), ps in MORE.items():
        if c in names_ and member in ms:
            out |= set(ps)
    return out


def job(prog, j):
    kind, a, b = j
    out, counts, notes = [], {"entry points": 0}, []
    if kind == "option":
        cls, variant, over, members = OPTIONS[a]
        u = build(prog, cls, variant, over=over)
        if u.obj is None:
            return {"findings": [], "counts": counts, "funcs": set(), "notes": [f"{cls}: not built with {sorted(over)}"]}
        for n, (ow, node) in members_of(prog, u.ci).items():
            if n not in members:
                continue
            specs = spec_for(prog, u.ci, n, node, cls) if isinstance(node, ast.FunctionDef) else [None]
            e = run_member(u, n, ow, node, (specs or [None])[0], 0)
            counts["entry points"] += 1
            if e.outcome == "ok" and e.result is not None:
                check_flow(u, e, [n for n, f in over.items() if getattr(f, "spec", ("", ""))[0] != "C"], counts, out, "option")
        return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}, "notes": notes}
    u = run_job(prog, j)
    mains = main_members(prog, u.ci) if u.ci is not None else ()
    params = []
    if u.ci is not None:
        c = api.Ctx(u.s, u.st0.copy(), None)
        for n, f in api.CTORS[a][b].items():
            if n in EXEMPT_PARAMS or f is None:
                continue
            try:
                v = f(c, n)
            except Exception:
                v = None
            if v is None or not is_const(v):
                params += components(n.lstrip("*"), v) if v is not None else [n]
    for e in u.entries:
        counts["entry points"] += 1
        if e.outcome != "ok" or e.result is None:
            continue
        need = []
        for n, v in e.args.items():
            if not is_const(v) and (e.member, n) not in NOFLOW:
                need += components(n, v)
        check_flow(u, e, need, counts, out, "argument")
        if u.ci is not None and (u.ci.name, e.member) in FACTORY and e.result.one(Obj) is not None:
            c = api.Ctx(u.s, e.st, e.result)
            for at, ps in FACTORY[(u.ci.name, e.member)].items():
                try:
                    r = c.attr(at)
                except Exception:
                    continue
                have = names(u.I, e.st, r)
                for n in ps:
                    if n not in e.args or is_const(e.args[n]):
                        continue
                    counts["flows"] = counts.get("flows", 0) + 1
                    if n in have:
                        counts["flows proven"] = counts.get("flows proven", 0) + 1
                    else:
                        out.append(Finding("flow", owner(e), f"{e.member}.{at}: {n}", where(e), f"{e.name}: argument '{n}' has no influence on {at} of the "
                                           "object built", "undecided" if r.unk else "violation", entry=e.name))
        if e.member in mains:
            ex = nodep(prog, u.ci, e.member)
            check_flow(u, e, [p for p in params if p.split("[")[0] not in ex], counts, out, "constructor parameter")
        extra = more(prog, u.ci, e.member)
        check_flow(u, e, [p for p in params if p.split("[")[0] in extra], counts, out, "constructor parameter")
    return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}, "notes": notes}
