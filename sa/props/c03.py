"""C03: randomness discipline."""
from .common import *

TITLE = "All randomness comes from the object's generator, one independent draw per symbol"
RULE = ("Provenance analysis of generators and draws: (a) with rng given, every draw in every operation uses exactly that generator; "
        "(b) with rng omitted, the default is read from komm.global_rng when the object is constructed (not at import, not copied); "
        "(c) no generator is created outside import of global_rng, no legacy numpy.random call, no draw at import/construction/inside a "
        "memoised function; (d) only transmit/emit/simulate draw, and they do draw; (e) every array draw covers each input symbol "
        "(its symbolic size is a multiple of the input's size, twice the size for complex noise), every scalar draw sits inside a loop; (f) no value computed from a draw is stored in an object, class, module or memoised result.")
ASSUME = ENGINE_ASSUMPTIONS + ["numpy Generators produce independent variates"]
MIN = {"entry points": 400, "draws": 8}
STOCHASTIC = {("BinarySymmetricChannel", "transmit"), ("BinaryErasureChannel", "transmit"), ("ZChannel", "transmit"),
              ("DiscreteMemorylessChannel", "transmit"), ("GaussianChannel", "transmit"), ("DiscreteMemorylessSource", "emit"),
              ("MarkovChain", "simulate"), ("MarkovChain", "simulate_until_absorption")}


def jobs(prog, tier):
    js = unit_jobs(prog) + [("modules", "", 0)]
    js += [("default-rng", c, v) for (c, v) in DEFAULTS if c in prog.public_classes()]
    return js


DEFAULTS = [(c, v) for c in ("BinaryErasureChannel", "BinarySymmetricChannel", "ZChannel", "GaussianChannel", "DiscreteMemorylessChannel",
                             "DiscreteMemorylessSource", "MarkovChain") for v in range(1)]


def mult(I, st, a, b):
    """symbolic size a is a multiple of symbolic size b: True/False/None"""
    pa, pb = (x.sym if x.sym is not None else (p_const(int(x.const)) if x.const is not None else None) for x in (a, b))
    if pa is None or pb is None:
        return None
    if pa == pb:
        return 1
    q = p_divexact(pa, pb)
    if q is not None:
        return q if not p_isconst(q) else p_constval(q)
    return False


def p_constval(q):
    for m, c in q:
        return c
    return 0


def size_of(I, shape, st):
    n = num_const(1)
    for d in shape:
        n = ops.num_binop(I, "Mult", n, d, st)
    return n


def rng_sources(v):
    return [a.src for a in v.alts if isinstance(a, Rng)]


def check_events(u, events, entry, member, cls, default, counts, args=(), st=None, result=None):
    out = []
    draws = []
    for ev in events:
        if ev.phase == "import":
            if ev.kind == "draw":
                out.append(from_event(ev, "draw-at-import", "draws random numbers while the module is imported", entry))
            if ev.kind == "rng-create" and "global_rng" not in ev.module.name:
                out.append(from_event(ev, "rng-created", "creates a generator at import, outside global_rng", entry))
            continue
        if ev.kind == "legacy-rng":
            out.append(from_event(ev, "legacy-rng", f"uses numpy's hidden global generator ({ev.detail})", entry))
        if ev.kind == "rng-create":
            out.append(from_event(ev, "rng-created", f"creates its own generator ({ev.detail}) instead of using the object's", entry))
        if ev.kind in ("attrwrite", "globalwrite", "mutate") and ev.phase == "op":
            held = ("draw",) in ev.tags or ev.value is not None and ("draw",) in deep_tags(ev.value)
            kept = ev.kind != "mutate" or any(r[0] in ("state", "cache", "global", "classvar", "default") for r in ev.roots)
            if held and kept:
                out.append(from_event(ev, "remembered-draw", f"stores drawn values where later calls can see them ({ev.detail})", entry))
        if ev.kind != "draw":
            continue
        counts["draws"] = counts.get("draws", 0) + 1
        recv, res, loop, cached = ev.value
        if ev.phase != "op":
            out.append(from_event(ev, "draw-at-construction", "draws random numbers while the object is constructed", entry))
        if cached:
            out.append(from_event(ev, "draw-memoised", "draws random numbers inside a memoised function (later calls repeat them)", entry))
        if (cls, member) not in STOCHASTIC:
            out.append(from_event(ev, "unexpected-draw", f"{cls}.{member} is documented as deterministic but draws random numbers", entry))
        srcs = rng_sources(recv)
        for s in srcs:
            if default:
                ok = s[0] == "module" and "global_rng" in s[1] and s[-1] == "construct"
                msg = f"default generator is not read from komm.global_rng at construction (source: {s})"
            else:
                ok = s[0] == "param"
                msg = f"draws from a generator other than the one given to the object (source: {s})"
            if not ok:
                out.append(from_event(ev, "wrong-generator", msg, entry))
        if not srcs:
            out.append(from_event(ev, "wrong-generator", "the generator of this draw could not be identified", entry, "undecided"))
        draws.append((ev, res, loop))
    if (cls, member) in STOCHASTIC and st is not None:
        if not draws:
            out.append(Finding("no-draw", f"{cls}.{member}", member, f"{cls}.{member}", "never draws from the generator", entry=entry))
        inp = args.get("input")
        x = inp.one(Arr) if inp is not None else result.one(Arr) if result is not None and "shape" in args else None
        total = 0
        for ev, res, loop in draws:
            ra = res.one(Arr)
            if ra is None or ra.shape == () and not (x is not None and x.shape == ()):
                if not loop and not (result is not None and inp is None and all(isinstance(y, Num) for y in result.alts)):
                    out.append(from_event(ev, "shared-draw", "a single scalar draw is shared by every symbol", entry))
                total = None
                continue
            if x is None or ra.shape is None or x.shape is None or total is None:
                total = None
                continue
            k = mult(u.I, st, size_of(u.I, ra.shape, st), size_of(u.I, x.shape, st))
            if k is False and not loop:
                out.append(from_event(ev, "shared-draw", f"draws {[dim_show(d) for d in ra.shape]} variates for an input of shape "
                                      f"{[dim_show(d) for d in x.shape]}: some symbols share their noise", entry))
            if k in (None, False) or not isinstance(k, int):
                total = None
            else:
                total += k
        if x is not None and total is not None and draws:
            n = x.elem.num()
            if n is not None and "complex" in n.kinds and total < 2:
                ev = draws[0][0]
                out.append(from_event(ev, "shared-draw", "complex noise needs independent real and imaginary draws", entry))
    return out


def job(prog, j):
    if j[0] == "modules":
        I = Interp(prog)
        out, n = [], 0
        for m in prog.modules.values():
            I.module_env(m)
            n += 1
        created = 0
        for ev in I.events:
            if ev.kind == "rng-create":
                created += 1
        u = Unit(prog, None, 0)
        return {"findings": check_events(u, I.events, "import", "", "", False, {}), "counts": {"module bodies": n, "generators created at import": created},
                "funcs": set()}
    if j[0] == "default-rng":
        u = Unit(prog, j[1], j[2])
        spec = dict(api.CTORS[j[1]][j[2]])
        spec.pop("rng", None)
        saved = api.CTORS[j[1]][j[2]]
        api.CTORS[j[1]][j[2]] = spec
        try:
            u = run_unit(prog, j[1], j[2])
        finally:
            api.CTORS[j[1]][j[2]] = saved
        counts, out = {}, []
        out += check_events(u, u.ctor_events, u.name, "__init__", j[1], True, counts)
        for e in u.entries:
            out += check_events(u, e.events, e.name + " (default rng)", e.member, j[1], True, counts)
        counts["default-generator runs"] = len(u.entries)
        return {"findings": out, "counts": counts, "funcs": set()}
    u = run_job(prog, j)
    counts, out = {"entry points": 0}, []
    out += check_events(u, u.ctor_events, u.name, "__init__", u.cls, False, counts)
    for e in u.entries:
        counts["entry points"] += 1
        if e.outcome == "ok":
            out += check_events(u, e.events, e.name, e.member, u.cls, False, counts, e.args, e.st, e.result)
        else:
            out += check_events(u, e.events, e.name, e.member, u.cls, False, counts)
    return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}}
