"""C06: shapes of results."""
from .common import *
from ..api import MUL, ADD, A, FA, CA, I as INT_, dim
from ..domain import p_add, p_mul, p_sym, p_const, p_atoms, p_show

TITLE = "Every operation returns the documented shape for every input shape"
RULE = ("Symbolic shape analysis: every public operation is run with symbolic sizes (block counts, lengths, dimensions, batch axes; "
        "one-, two- and three-dimensional inputs) and the polynomial of every axis of the returned array is compared with the documented "
        "one.  Equal polynomials prove the obligation; a different number of axes, or a polynomial over independent sizes that differs, is "
        "a violation; each return statement is compared separately as long as its path does not depend on a size.  A last axis that is not "
        "a multiple of the block size must be rejected with ValueError on every path.")
ASSUME = ENGINE_ASSUMPTIONS + ["symbols of distinct parameters are independent; batch axes are non-empty",
                               "where an object's matrix shape is itself undecided, it is assumed to be the documented one (k, n)"]
MIN = {"obligations": 500, "shapes proven": 400}


def POW2(d, off=0):
    def f(c, name):
        n = dim(c, d, name)
        v = c.I.binop(ast.Pow(), const(2), mk(n), c.sess.node, c.st)
        return v.num()
    return f


def SUB(a, b):
    def f(c, name):
        return c.I.binop(ast.Sub(), mk(dim(c, a, name)), mk(dim(c, b, name)), c.sess.node, c.st).num()
    return f


B = "*s"
blk = lambda a: (B, MUL("b", a))
SAME = (B, "L")
PER = (B, "b")

# (class or base, member) -> expected shape of the result; a list holds one expectation per item of a returned tuple
# (None = not an array / not specified).
SHAPES = {
    ("BlockCode", "encode"): blk(".length"),
    ("BlockCode", "project_word"): blk(".dimension"),
    ("BlockCode", "inverse_encode"): blk(".dimension"),
    ("BlockCode", "check"): blk(".redundancy"),
    ("BlockCode", "generator_matrix"): (".dimension", ".length"),
    ("BlockCode", "generator_matrix_right_inverse"): (".length", ".dimension"),
    ("BlockCode", "check_matrix"): (".redundancy", ".length"),
    ("BlockCode", "codewords"): (POW2(".dimension"), ".length"),
    ("BlockCode", "coset_leaders"): (POW2(".redundancy"), ".length"),
    ("BlockCode", "codeword_weight_distribution"): (ADD(".length", 1),),
    ("BlockCode", "coset_leader_weight_distribution"): (ADD(".length", 1),),
    ("SlepianArray", "row"): (POW2(".code.dimension"), ".code.length"),
    ("SlepianArray", "col"): (POW2(".code.redundancy"), ".code.length"),
    ("SlepianArray", "entry"): (".code.length",),
    ("BlockDecoder", "decode"): blk(".code.dimension"),
    ("ConvolutionalCode", "encode"): (MUL("b", ".num_output_bits"),),
    ("ConvolutionalCode", "encode_with_state"): [(MUL("b", ".num_output_bits"),), (".degree",)],
    ("ConvolutionalCode", "generator_matrix"): (".num_input_bits", ".num_output_bits"),
    ("ConvolutionalCode", "constraint_lengths"): (".num_input_bits",),
    ("ConvolutionalCode", "state_space_representation"): [(".degree", ".degree"), (".num_input_bits", ".degree"),
                                                          (".degree", ".num_output_bits"), (".num_input_bits", ".num_output_bits")],
    ("MealyMachine", "process"): [("T",), None],
    ("MooreMachine", "process"): [("T",), None],
    ("MealyMachine", "viterbi"): [("T", ".num_states"), (".num_states",)],
    ("MealyMachine", "viterbi_streaming"): ("T",),
    ("MealyMachine", "forward_backward"): ("T", ".num_input_symbols"),
    ("MealyMachine", "input_edges"): (".num_states", ".num_states"),
    ("MealyMachine", "output_edges"): (".num_states", ".num_states"),
    ("Constellation", "matrix"): (".order", ".dimension"),
    ("Constellation", "mean"): (".dimension",),
    ("Constellation", "indices_to_symbols"): (B, MUL("L", ".dimension")),
    ("Constellation", "closest_indices"): PER,
    ("Constellation", "closest_symbols"): blk(".dimension"),
    ("Constellation", "posteriors"): blk(".order"),
    ("Constellation", "mean_energy"): (),
    ("Constellation", "minimum_distance"): (),
    ("Labeling", "matrix"): (".cardinality", ".num_bits"),
    ("Labeling", "indices_to_bits"): (B, MUL("L", ".num_bits")),
    ("Labeling", "bits_to_indices"): PER,
    ("Labeling", "marginalize"): blk(".num_bits"),
    ("DiscreteMemorylessChannel", "transmit"): SAME,
    ("DiscreteMemorylessChannel", "transition_matrix"): (".input_cardinality", ".output_cardinality"),
    ("DiscreteMemorylessChannel", "mutual_information"): (),
    ("DiscreteMemorylessChannel", "capacity"): (),
    ("GaussianChannel", "transmit"): SAME,
    ("ScalarQuantizer", "digitize"): SAME,
    ("ScalarQuantizer", "quantize"): SAME,
    ("ScalarQuantizer", "thresholds"): None,
    ("UniformQuantizer", "levels"): ("num_levels",),
    ("UniformQuantizer", "thresholds"): (ADD("num_levels", -1),),
    ("LloydMaxQuantizer", "levels"): ("num_levels",),
    ("LloydMaxQuantizer", "thresholds"): (ADD("num_levels", -1),),
    ("Pulse", "waveform"): SAME, ("Pulse", "spectrum"): SAME, ("Pulse", "autocorrelation"): SAME,
    ("Pulse", "energy_spectral_density"): SAME,
    ("DiscreteMemorylessSource", "emit"): {2: (0,), 3: (), 4: (1,), 5: ("shape",)},
    ("DiscreteMemorylessSource", "pmf"): (".cardinality",),
    ("MarkovChain", "transition_matrix"): (".num_states", ".num_states"),
    ("MarkovChain", "stationary_distribution"): (".num_states",),
    ("MarkovChain", "simulate"): ("0steps",),
}
FSHAPES = {
    "binary_entropy": [None, ()], "binary_entropy_inv": [()],
    "bits_to_int": [(B,)], "int_to_bits": [(B, "L", "width")],
    "boxplus": [SAME], "gaussian_q": [SAME], "gaussian_q_inv": [SAME], "marcum_q": [SAME],
    "sampling_rate_expand": [(B, MUL("L", "factor")), (MUL("L", "factor"), B)],
    "fourier_transform": [None, [("L", B), ("L",)], [("nfft", B), ("nfft",)], [(B, "L"), ("L",)], [(B, "nfft"), ("nfft",)]],
    "convolve": [None, (B, ADD("L", ADD("L2", -1)))],
    "entropy": [()], "relative_entropy": [()],
    "autocorrelation": [None, ("n",)], "cyclic_autocorrelation": [None, ("n",)],
}
BATCHED = {k for k, v in SHAPES.items() if isinstance(v, tuple) and B in v} - {("Pulse", m) for m in ()}

# last axis not a multiple of the block size -> ValueError
R = lambda f: f
DIVIS = {
    ("BlockCode", "encode"): ("input", ".dimension", A), ("BlockCode", "project_word"): ("input", ".length", A),
    ("BlockCode", "inverse_encode"): ("input", ".length", A), ("BlockCode", "check"): ("input", ".length", A),
    ("BlockDecoder", "decode"): ("input", ".code.length", FA),
    ("ConvolutionalCode", "encode"): ("input", ".num_input_bits", A),
    ("Constellation", "closest_indices"): ("received", ".dimension", FA), ("Constellation", "closest_symbols"): ("received", ".dimension", FA),
    ("Constellation", "posteriors"): ("received", ".dimension", FA),
    ("Labeling", "bits_to_indices"): ("bits", ".num_bits", A), ("Labeling", "marginalize"): ("metrics", ".cardinality", FA),
    ("FixedToVariableCode", "encode"): ("input", ".source_block_size", A),
    ("VariableToFixedCode", "decode"): ("input", ".target_block_size", A),
}


def jobs(prog, tier):
    return unit_jobs(prog)


def expectation(prog, ci, name):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and (c.name, name) in SHAPES:
            return (c.name, name), SHAPES[(c.name, name)]
    return None, None


def divis(prog, ci, name):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and (c.name, name) in DIVIS:
            return DIVIS[(c.name, name)]
    return None


# ------------------------------------------------------------------ comparing polynomials
def canon(p, anon):
    """Rewrite derived size symbols into (length, dimension): redundancy = length - dimension, matrix shapes as documented."""
    for _ in range(6):
        done = True
        for a in p_atoms(p):
            r = rewrite(a, anon)
            if r is not None:
                p = substitute(p, a, r)
                done = False
                break
        if done:
            return p
    return p


DERIVED = {"generator_matrix.shape[0]": "dimension", "generator_matrix.shape[1]": "length",
           "check_matrix.shape[1]": "length", "check_matrix.shape[0]": "redundancy",
           "generator_matrix_right_inverse.shape[0]": "length", "generator_matrix_right_inverse.shape[1]": "dimension",
           "matrix.shape[0]": None, "overall_constraint_length": "degree"}


def rewrite(a, anon):
    if not isinstance(a, str):
        return None
    for k, t in DERIVED.items():
        if t and a.endswith("." + k):
            base = a[:-len(k)]
            return anon(base, t)
    if a.endswith(".redundancy"):
        base = a[:-len("redundancy")]
        n, k = anon(base, "length"), anon(base, "dimension")
        return p_add(n, k, -1)
    return None


def substitute(p, a, r):
    out = p_const(0)
    for m, c in p:
        t = p_const(c)
        for x in m:
            t = p_mul(t, r if x == a else p_sym(x))
        out = p_add(out, t)
    return out


def poly(n):
    if n is None:
        return None
    if n.const is not None:
        return p_const(int(n.const))
    return n.sym


SIZES = {"b", "L", "n", "T", "*s", "*t"}


def leaves(p):
    """string atoms of a polynomial, powers included; None when it contains anything else (integer division, ...)"""
    out = set()
    for a in p_atoms(p):
        if isinstance(a, str):
            out.add(a)
        elif a and a[0] == "**":
            for x in a[1:]:
                if isinstance(x, (tuple, frozenset)):
                    try:
                        r = leaves(x)
                    except Exception:
                        return None
                    if r is None:
                        return None
                    out |= r
                elif not isinstance(x, int):
                    return None
        else:
            return None
    return out


def opaque(g, w):
    """Not independent sizes: integer division, attributes without a definition, or a parameter against an anonymous attribute
    (which may well be a function of that parameter)."""
    a, b = leaves(g), leaves(w)
    if a is None or b is None:
        return True
    sizes = {x for x in a | b if x.split("#")[0] not in SIZES}
    anon = {x for x in sizes if "." in x}
    if anon and anon != sizes:
        return True
    return opaque1(g) or opaque1(w)


def free_pair(g, w, anon):
    """Both sizes are expressed in the length and the (anonymous) dimension of one code: those two are independent."""
    a, b = leaves(g), leaves(w)
    if a is None or b is None:
        return False
    sizes = {x for x in a | b if x.split("#")[0] not in SIZES}
    ks = {x for x in sizes if x.endswith(".dimension")}
    if len(ks) != 1:
        return False
    n = leaves(anon(next(iter(ks))[:-len("dimension")], "length"))
    return n is not None and not (sizes - ks - n)


def opaque1(p):
    for a in leaves(p):
        if "." in a and a.rsplit(".", 1)[1] not in ("length", "dimension", "n", "k", "m", "num_blocks", "memory_order", "mu", "cardinality", "num_bits", "order"):
            return True
    return False


def compare(I, u, got, want, st):
    """'proven' | 'violated' | 'undecided' for one axis"""
    def anon(base, t):
        # the documented attribute of the object that owns the matrix
        try:
            c = api.Ctx(u.s, st.copy(), u.obj)
            path = base.strip(".").split(".")
            if path[0] == "self":
                path = path[1:]
            v = c.attr(".".join(path + [t])) if path else c.attr(t)
            p = poly(v.num())
            return p if p is not None else p_sym(base + t)
        except Exception:
            return p_sym(base + t)
    g, w = poly(got), poly(want)
    if g is None or w is None:
        if got is not None and want is not None and (got.hi < want.lo or got.lo > want.hi):
            return "violated"
        return "undecided"
    if g == w:
        return "proven"
    g, w = canon(g, anon), canon(w, anon)
    if g == w:
        return "proven"
    if opaque(g, w) and not free_pair(g, w, anon):
        return "undecided"
    return "violated"


def dshow(n):
    return dim_show(n) if n is not None else "?"


def check_value(u, e, v, want, label, counts, out, st):
    c = api.Ctx(u.s, st, u.obj)
    exp = tuple(dim(c, d, "?") for d in want)
    counts["obligations"] = counts.get("obligations", 0) + 1
    verdicts = []
    for a in v.alts:
        if isinstance(a, Arr):
            cands = set(dict(a.aux).get("shapes", frozenset())) or {(a.shape, False)}
            if all(s is None for s, _ in cands):
                cands = {(a.shape, False)}
            for sh, cond in cands:
                if sh is None:
                    verdicts.append(("undecided", None))
                elif len(sh) != len(exp):
                    verdicts.append(("violated", sh))
                else:
                    rs = [compare(u.I, u, g, w, st) for g, w in zip(sh, exp)]
                    if "violated" in rs:
                        verdicts.append(("unless" if cond else "violated", sh))
                    elif "undecided" in rs:
                        verdicts.append(("undecided", sh))
                    else:
                        verdicts.append(("proven", sh))
        elif isinstance(a, Num):
            if "none" in getattr(a, "kinds", ()):
                verdicts.append(("undecided", None))
            else:
                verdicts.append(("proven" if exp == () else "violated", ()))
        elif isinstance(a, (Seq, Map, SetA)):
            verdicts.append(("undecided", None))
        else:
            verdicts.append(("undecided", None))
    if not verdicts:
        return
    if all(x in ("unless", "violated") for x, _ in verdicts):
        verdicts = [("violated", s) for _, s in verdicts]      # every return has a wrong shape, whatever the sizes its path depends on
    bad = [s for x, s in verdicts if x == "violated"]
    want_s = "(" + ", ".join(dshow(d) for d in exp) + ")"
    if bad:
        owner = shortfunc(e.owner.qual) if e.owner is not None else e.member
        where = f"{relpath(e.owner.module.path) if e.owner is not None else ''}:{getattr(e.node, 'lineno', 0)}"
        got_s = " or ".join(sorted("(" + ", ".join(dshow(d) for d in s) + ")" for s in bad))
        out.append(Finding("shape", owner, f"{e.member}{label}", where,
                           f"{e.name}{label} returns shape {got_s} where {want_s} is documented", entry=e.name))
    elif all(x == "proven" for x, _ in verdicts):
        counts["shapes proven"] = counts.get("shapes proven", 0) + 1
    else:
        counts["shapes undecided"] = counts.get("shapes undecided", 0) + 1
        out.append(Finding("shape", e.name, f"{e.member}{label}", "", f"{e.name}{label}: shape {v!r:.120} not comparable with {want_s}", "undecided", e.name))


def relpath(p):
    return os.path.relpath(p, REPO) if os.path.isabs(p) else p


def check_entry(u, e, want, counts, out):
    if e.outcome != "ok" or e.result is None:
        return
    if isinstance(want, list):
        items = e.result.one(Seq)
        if items is None or items.items is None or len(items.items) != len(want):
            out.append(Finding("shape", e.name, e.member, "", f"{e.name}: result is not a {len(want)}-tuple the analysis can split", "undecided", e.name))
            return
        for k, (x, w) in enumerate(zip(items.items, want)):
            if w is not None:
                check_value(u, e, x, w, f"[{k}]", counts, out, e.st)
    elif want is not None:
        check_value(u, e, e.result, want, "", counts, out, e.st)


def job(prog, j):
    kind, a, b = j
    out, counts, notes = [], {"entry points": 0, "obligations": 0}, []
    saved = api.BATCH
    funcs = set()
    try:
        for batch in (("*s",), (), ("*s", "*t"), (1,)):
            api.BATCH = batch
            api.UNIT = {"b", "L", "T"} if batch == (1,) else set()
            if kind == "class":
                def want(cls, n, node, _b=batch):
                    key, exp = expectation(prog, prog.public_classes()[cls], n)
                    return exp is not None and (_b == ("*s",) or (isinstance(exp, tuple) and B in exp))
                u = run_unit(prog, a, b, want)
            else:
                exp = FSHAPES.get(a)
                if exp is None or (batch != ("*s",) and not any(x is not None and B in x for x in exp)):
                    continue
                u = run_func(prog, a)
            for e in u.entries:
                counts["entry points"] += 1
                if kind == "class":
                    _, want_ = expectation(prog, u.ci, e.member)
                    if isinstance(want_, dict):
                        want_ = want_.get(e.idx)
                else:
                    want_ = FSHAPES[a][e.idx] if e.idx < len(FSHAPES[a]) else None
                if isinstance(want_, tuple):
                    want_ = sum((batch if d == B else (d,) for d in want_), ())
                fs = []
                check_entry(u, e, want_, counts, fs)
                if batch != ("*s",):
                    for f in fs:
                        f.construct += " [single block]" if batch == (1,) else f" [{len(batch) + 1}-D input]"
                out += fs
            funcs |= {shortfunc(q) for q in u.I.analysed}
            if kind == "class" and batch in ((), ("*s",)):
                out += indivisible(prog, u, batch, counts)
    finally:
        api.BATCH, api.UNIT = saved, set()
    return {"findings": out, "counts": counts, "funcs": funcs, "notes": notes}


def api_unknown(u, e):
    """the run went through something that is not modelled, or the result is imprecise: no verdict"""
    return bool(e.result is None or e.result.unk or e.st.imprecise)


def indivisible(prog, u, batch, counts):
    out = []
    if u.obj is None:
        return out
    for n, (owner, node) in members_of(prog, u.ci).items():
        d = divis(prog, u.ci, n)
        if d is None or not isinstance(node, ast.FunctionDef):
            continue
        arg, size, kind = d
        c = api.Ctx(u.s, u.st0.copy(), u.obj)
        nb = dim(c, size, arg)
        if nb.const == 1:
            continue
        specs = spec_for(prog, u.ci, n, node, u.cls)
        if nb.const is not None:
            lens = [int(nb.const) + 1, 1, 2 * int(nb.const) - 1]
        else:
            # b*n + r with 1 <= r < n needs n >= 2: assume it for this obligation
            def rem(c, name, _s=size):
                x = dim(c, _s, name)
                if x.sym is not None and len(x.sym) == 1:
                    (m, k), = x.sym
                    if len(m) == 1 and k == 1:
                        lo, hi = c.st.facts.get(m[0], (-INF, INF))
                        c.st.facts[m[0]] = (max(lo, 2), hi)
                x = dim(c, _s, name)
                v = c.I.binop(ast.Add(), c.I.binop(ast.Mult(), mk(dim(c, "b", name)), mk(x), c.sess.node, c.st), const(1), c.sess.node, c.st)
                return v.num()
            def big(c, name, _s=size):
                rem(c, name, _s)
                return dim(c, _s, name)

            def one(c, name, _s=size):
                rem(c, name, _s)
                return num_const(1)
            lens = [rem, one]
        shapes = [tuple(batch) + (ln,) for ln in lens]
        exp = expectation(prog, u.ci, n)[1]
        if batch and not (isinstance(exp, tuple) and B not in exp):
            # as many rows as the block size: the total number of elements is a multiple, the last axis is not
            shapes.append((big, one) if nb.const is None else (int(nb.const), 1))
        for sh in shapes:
            ln = sh[-1]
            counts["divisibility obligations"] = counts.get("divisibility obligations", 0) + 1
            e = run_member(u, n, owner, node, specs[0], 0, over={arg: kind(sh)})
            if e.outcome == "dead":
                exc = {x.exc for x in e.raises}
                if "ValueError" in exc:
                    counts["divisibility proven"] = counts.get("divisibility proven", 0) + 1
                elif exc:
                    out.append(Finding("block-multiple", shortfunc(owner.qual) + "." + n, n, f"{relpath(owner.module.path)}:{node.lineno}",
                                       f"{u.name}.{n}: a last axis that is not a multiple of the block size fails with {sorted(map(str, exc))} instead of ValueError", entry=e.name))
            elif e.outcome == "ok":
                if any(x.exc == "ValueError" for x in e.raises) or api_unknown(u, e):
                    out.append(Finding("block-multiple", e.name, n, "", f"{u.name}.{n}: rejection of a partial block is not proven", "undecided", e.name))
                else:
                    out.append(Finding("block-multiple", shortfunc(owner.qual) + "." + n, n, f"{relpath(owner.module.path)}:{node.lineno}",
                                       f"{u.name}.{n}: a last axis of {ln if isinstance(ln, int) else 'b*n+1'} is accepted although the block size is {dshow(nb)}", entry=e.name))
    return out
