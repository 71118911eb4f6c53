"""C19: limiting behaviour of channels and sources."""
from .rows import *
from .c05 import arr
from ..lit import literal
import math

TITLE = "Channels and sources have their documented limiting behaviour"
RULE = ("Interval analysis at the boundary of the parameter range, over every input and every possible draw (a uniform draw is any number of [0, 1), "
        "a Gaussian draw any real): a noiseless channel returns its input, a channel of probability one always flips / erases / decays, the Z-channel "
        "never touches a 0, a transition row with a single positive entry always yields that symbol, in between both outcomes stay possible; "
        "transition matrices, capacities and mutual informations at the boundary have the documented value (not NaN, no error).")
ASSUME = ENGINE_ASSUMPTIONS + ["a draw of Generator.random() lies in [0, 1), including 0"]
MIN = {"obligations": 60}

IN = lambda x: dict(input=A(("*s", "L"), x, x))
ROWS = []      # (cls, ctor, member, args, kind, want, doc)


def row(cls, ctor, member, args, want, doc, kind="elem"):
    ROWS.append((cls, ctor, member, args, kind, want, doc))


CH = (("BinarySymmetricChannel", "crossover_probability"), ("BinaryErasureChannel", "erasure_probability"), ("ZChannel", "decay_probability"))
EFFECT = {"BinarySymmetricChannel": lambda x: 1 - x, "BinaryErasureChannel": lambda x: 2, "ZChannel": lambda x: 0}
for cls, p in CH:
    for zero, one in ((0.0, 1.0), (0, 1)):
        for x in (0, 1):
            row(cls, {p: C(zero)}, "transmit", IN(x), (x, x), f"{p}={zero!r}: symbol {x} is received unchanged")
            y = EFFECT[cls](x)
            row(cls, {p: C(one)}, "transmit", IN(x), (y, y), f"{p}={one!r}: symbol {x} is always received as {y}")
    for x in (0, 1):
        y = EFFECT[cls](x)
        if x != y:
            for q in (1e-9, 0.5, 1 - 1e-9):
                row(cls, {p: C(q)}, "transmit", IN(x), (x, y), f"0 < {p} < 1: symbol {x} may be received as {x} or {y}", "both")
    row(cls, {}, "transmit", IN(0), {"BinarySymmetricChannel": (0, 1), "BinaryErasureChannel": (0, 2), "ZChannel": (0, 0)}[cls],
        "symbol 0 is received as " + {"BinarySymmetricChannel": "0 or 1", "BinaryErasureChannel": "0 or 2", "ZChannel": "0"}[cls])
TM = {"BinarySymmetricChannel": lambda p: ((1 - p, p), (p, 1 - p)), "BinaryErasureChannel": lambda p: ((1 - p, 0, p), (0, 1 - p, p)),
      "ZChannel": lambda p: ((1, 0), (p, 1 - p))}
for cls, p in CH:
    for q in (0.0, 0.25, 1.0):
        row(cls, {p: C(q)}, "transition_matrix", {}, TM[cls](q), f"transition matrix at {p}={q}", "matrix")
CAP = {"BinarySymmetricChannel": {0.0: 1, 0.5: 0, 1.0: 1}, "BinaryErasureChannel": {0.0: 1, 0.5: 0.5, 1.0: 0}, "ZChannel": {0.0: 1, 1.0: 0}}
for cls, p in CH:
    for q, c in CAP[cls].items():
        for b, f in ((2.0, 1.0), (2, 1.0), (4.0, 0.5), ("e", math.log(2))):
            base = S("e") if b == "e" else C(b)
            row(cls, {p: C(q)}, "capacity", dict(base=base), c * f, f"capacity at {p}={q}, base {b}", "value")
    for q in (0.0, 0.25, 1.0):
        for pm in ((1.0, 0.0), (0.0, 1.0)):
            row(cls, {p: C(q)}, "mutual_information", dict(input_pmf=arr(*pm), base=C(2.0)), 0, f"mutual information of the constant input {pm} at {p}={q}", "value")
    row(cls, {p: C(0.0)}, "mutual_information", dict(input_pmf=arr(0.5, 0.5), base=C(2.0)), 1, f"mutual information of the uniform input at {p}=0", "value")
for cls, q, val in (("BinarySymmetricChannel", 0.5, 0), ("BinarySymmetricChannel", 1.0, 1), ("BinaryErasureChannel", 0.25, 0.75),
                    ("BinaryErasureChannel", 1.0, 0), ("ZChannel", 1.0, 0)):
    row(cls, {dict(CH)[cls]: C(q)}, "mutual_information", dict(input_pmf=arr(0.5, 0.5), base=C(2.0)), val, f"mutual information of the uniform input at {q}", "value")
for z in (0.0, 0):
    for v in (2.5, -1.0, 0.0):
        row("GaussianChannel", dict(noise_power=C(z)), "transmit", dict(input=FA(("*s", "L"), v, v)), (v, v), f"noise_power={z!r}: sample {v} is received unchanged")
for n in (2, 3):
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    shift = [[1.0 if (i + 1) % n == j else 0.0 for j in range(n)] for i in range(n)]
    for x in range(n):
        row("DiscreteMemorylessChannel", dict(transition_matrix=arr(*eye)), "transmit", IN(x), (x, x), f"identity channel of {n} symbols: {x} is received unchanged")
        row("DiscreteMemorylessChannel", dict(transition_matrix=arr(*shift)), "transmit", IN(x), ((x + 1) % n,) * 2,
            f"permutation channel of {n} symbols: {x} is received as {(x + 1) % n}")
        row("MarkovChain", dict(transition_matrix=arr(*eye)), "simulate", dict(steps=I(1), initial_state=C(x)), (x, x), f"identity chain of {n} states started in {x} stays there")
        row("MarkovChain", dict(transition_matrix=arr(*eye)), "simulate", dict(steps=C(3), initial_state=C(x)), (x, x), f"identity chain of {n} states started in {x} stays there for 3 steps")
        row("DiscreteMemorylessSource", dict(pmf=arr(*eye[x])), "emit", dict(shape=I(1)), (x, x), f"constant source emits {x}")


def jobs(prog, tier):
    return list(range(len(ROWS)))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def job(prog, k):
    cls, ctor, member, args, kind, want, doc = ROWS[k]
    out, counts = [], {"obligations": 1}
    r = Row(cls, args, "accept", doc, ctor=ctor, member=member)
    oc, raises, imp, I_, v = run_row(prog, r, args)
    where, func = guard_site(prog, r)
    funcs = {shortfunc(q) for q in I_.analysed}

    def fin(msg, sev="violation"):
        out.append(Finding("limit", func, doc, where, f"{doc}: {msg}", sev, entry=r.label))
        if sev != "violation":
            counts["undecided"] = 1
        return {"findings": out, "counts": counts, "funcs": funcs}

    if oc == "dead":
        last = raises[-1] if raises else None
        return fin(f"always raises {last.exc if last else ''} at {src(last.node) if last else '?'}")
    if oc != "ok" or v is None or v.unk or imp:
        return fin(f"not decided ({oc})", "undecided")
    if kind == "matrix":
        m = literal(v)
        if m is None:
            return fin("matrix not read off the source", "undecided")
        ok = isinstance(m, tuple) and len(m) == len(want) and all(isinstance(x, tuple) and len(x) == len(y) and all(close(float(s), float(t)) for s, t in zip(x, y))
                                                                   for x, y in zip(m, want))
        if not ok:
            return fin(f"the matrix is {m}, documented {want}")
    elif kind == "value":
        n = v.num() if len(v.alts) == 1 else None
        if n is None or n.lo == -INF or n.hi == INF:
            return fin(f"value {v!r:.60} not bounded", "undecided")
        if n.nan or not (close(n.lo, want) and close(n.hi, want)):
            if n.lo - 1e-9 <= want <= n.hi + 1e-9 and n.lo != n.hi and not n.nan:
                return fin(f"value in [{n.lo}, {n.hi}]", "undecided")
            return fin(f"the value is {'NaN' if n.nan else n.lo if n.lo == n.hi else (n.lo, n.hi)}, documented {want:g}")
    else:
        a = v.one(Arr)
        n = a.elem.num() if a is not None and len(a.elem.alts) == 1 else None
        if n is None:
            return fin(f"result {v!r:.60}", "undecided")
        lo, hi = min(want), max(want)
        if kind == "both":
            if n.lo > lo or n.hi < hi:
                return fin(f"only values in [{n.lo}, {n.hi}] are possible")
        elif n.lo < lo or n.hi > hi or n.nan:
            old = [t for t in a.elem.tags if t[0] == "weak"]
            explained = (n.lo >= lo or any(t[1] <= n.lo for t in old)) and (n.hi <= hi or any(t[2] >= n.hi for t in old))
            if old and explained and not n.nan:
                return fin(f"values in [{n.lo}, {n.hi}] after a partial store", "undecided")
            return fin(f"values in [{n.lo}, {n.hi}] are possible")
    counts["proven"] = 1
    return {"findings": out, "counts": counts, "funcs": funcs}
