"""C17: items of a batch never influence each other."""
from .common import *
from .c06 import leaves

TITLE = "Items of a batch are processed independently"
RULE = ("Mixing analysis: the size symbols of the batch axes of an operation's data argument (leading axes; for memoryless operations also the "
        "block axis) are marked.  A value obtained by combining items along a marked axis (reduction, contraction, cumulative operation, sorting, "
        "a variable handed from one iteration over the axis to the next) is tagged with the axis and the place; no element of the returned array "
        "may carry such a tag.")
ASSUME = ENGINE_ASSUMPTIONS + ["control flow that depends on a whole batch (a shortcut taken when all items agree) is not tracked",
                               "per-item results are combined in place along the axis they came from (checked by the shapes of C06)"]
MIN = {"operations": 150, "operations proven": 100}

BLOCK = ("b",)
ELEMENT = ("L",)
# (class or base, member) -> symbols of the axes over which the documentation promises independent processing, besides the leading axes
MEMORYLESS = {
    ("BlockCode", "encode"): BLOCK, ("BlockCode", "project_word"): BLOCK, ("BlockCode", "inverse_encode"): BLOCK, ("BlockCode", "check"): BLOCK,
    ("BlockDecoder", "decode"): BLOCK,
    ("Constellation", "indices_to_symbols"): ELEMENT, ("Constellation", "closest_indices"): BLOCK, ("Constellation", "closest_symbols"): BLOCK,
    ("Constellation", "posteriors"): BLOCK,
    ("Labeling", "indices_to_bits"): ELEMENT, ("Labeling", "bits_to_indices"): BLOCK, ("Labeling", "marginalize"): BLOCK,
    ("DiscreteMemorylessChannel", "transmit"): ELEMENT, ("GaussianChannel", "transmit"): ELEMENT,
    ("ScalarQuantizer", "digitize"): ELEMENT, ("ScalarQuantizer", "quantize"): ELEMENT,
    ("Pulse", "waveform"): ELEMENT, ("Pulse", "spectrum"): ELEMENT, ("Pulse", "autocorrelation"): ELEMENT, ("Pulse", "energy_density_spectrum"): ELEMENT,
}
FUNCTIONS = {"binary_entropy": ELEMENT, "int_to_bits": ELEMENT, "boxplus": ELEMENT, "gaussian_q": ELEMENT,
             "gaussian_q_inv": ELEMENT, "marcum_q": ELEMENT, "bits_to_int": (), "convolve": (), "fourier_transform": (), "sampling_rate_compress": (),
             "sampling_rate_expand": ()}
NOTBATCH = {("ViterbiStreamDecoder", "decode")}     # one stream: the leading axes are concatenated


def lookup(prog, ci, name, table):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and (c.name, name) in table:
            return (c.name, name)
    return None


def jobs(prog, tier):
    return unit_jobs(prog)


def verdict(u, e, counts, out, notes):
    if e.outcome != "ok":
        return
    syms = u.I.batch
    if not syms:
        return
    counts["operations"] += 1
    I = u.I
    arrs = [a for a in leaves(e.result) if isinstance(a, (Arr, Num))] if False else None
    dep = deep_tags(I, e.st, e.result)
    mixed = sorted({t for t in dep if t[0] == "mix" and t[1] in syms}, key=str)
    hit = False
    for t in mixed:
        node, module, func, chain = I.mixsites[t[2]]
        hit = True
        path = module.path if module else "?"
        if os.path.isabs(path):
            path = os.path.relpath(path, REPO)
        out.append(Finding("mixing", shortfunc(func), src(node), f"{path}:{getattr(node, 'lineno', 0)}",
                           f"items of the batch axis {t[1]!r} are combined here and the result of {e.name} depends on the combination", "violation", e.name,
                           tuple(shortfunc(c) for c in chain if not c.startswith("<"))))
    if hit:
        return
    if any(t[0] == "unk" for t in dep) or e.result.unk or any(isinstance(a, Arr) and a.shape is None for a in e.result.alts):
        counts["undecided"] += 1
        notes.append(f"{e.name}: part of the computation is not modelled")
    else:
        counts["operations proven"] += 1


def deep_tags(I, st, v, depth=0):
    out = set(v.tags)
    if depth > 6:
        return out
    for a in v.alts:
        if isinstance(a, Arr):
            out |= deep_tags(I, st, a.elem, depth + 1)
        elif isinstance(a, Seq):
            for x in (a.items or ()):
                out |= deep_tags(I, st, x, depth + 1)
            if a.elem is not None:
                out |= deep_tags(I, st, a.elem, depth + 1)
        elif isinstance(a, Map):
            for x in (a.k, a.v):
                if x is not None:
                    out |= deep_tags(I, st, x, depth + 1)
    return out


def job(prog, j):
    kind, a, b = j
    out, notes = [], []
    counts = {"operations": 0, "operations proven": 0, "undecided": 0}
    if kind != "class":
        if a not in FUNCTIONS:
            return {"findings": [], "counts": counts, "funcs": set(), "notes": []}
        u = run_func(prog, a, blocks=FUNCTIONS[a])
        for e in u.entries:
            verdict(u, e, counts, out, notes)
    else:
        u = build(prog, a, b)
        if u.obj is None:
            return {"findings": [], "counts": counts, "funcs": set(), "notes": []}
        for n, (owner, node) in members_of(prog, u.ci).items():
            if not isinstance(node, ast.FunctionDef):
                continue
            specs = spec_for(prog, u.ci, n, node, a)
            if not specs or lookup(prog, u.ci, n, {k: 1 for k in NOTBATCH}):
                continue
            key = lookup(prog, u.ci, n, MEMORYLESS)
            for k, d in enumerate(specs):
                if not d:
                    continue
                u.I.batch = set()
                u.I.blocksyms = MEMORYLESS[key] if key else ()
                e = run_member(u, n, owner, node, d, k)
                verdict(u, e, counts, out, notes)
    return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}, "notes": notes}
