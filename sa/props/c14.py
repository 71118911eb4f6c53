"""C14: results do not depend on the container or the integer dtype of the arguments."""
from .common import *

TITLE = "The container and integer width of an argument never matter"
RULE = ("(a) Type-width analysis: every integer array a caller passes is given the dtype 'unknown, possibly boolean or unsigned'; arithmetic "
        "(+, -, *, **, <<, @, negation, inversion), in-place stores and index operations carried out in that dtype whose result interval leaves "
        "[0, 1] are violations (explicitly narrow dtypes of the library are checked against their own range).  (b) Every ArrayLike argument is "
        "replaced by a nested list: an operation that accepts the array must not fail on the list.  (c) Every real ArrayLike argument is replaced "
        "by an integer array: no fractional value may be stored in memory of the argument's dtype.")
ASSUME = ENGINE_ASSUMPTIONS + ["MealyMachine.viterbi_streaming's 'memory' arrays are produced by the library's own code and have its dtypes",
                               "float64/complex128 inputs are exact; lower float precision is outside the property"]
MIN = {"entry points": 400, "list runs": 150, "integer runs": 60}


def jobs(prog, tier):
    return [(k, a, b) for k, a, b in unit_jobs(prog)] + [("list" + k, a, b) for k, a, b in unit_jobs(prog)]


def listify_atom(a):
    if not isinstance(a, Arr) or a.shape is None or not a.shape:
        return None
    el = V(tuple(Num(n.lo, n.hi, n.kinds, "py", n.nan, n.sym) if isinstance(n, Num) else n for n in a.elem.alts), a.elem.tags)
    for d in reversed(a.shape):
        s = Seq("list", None, el, d, a.roots)
        el = mk(s, a.elem.tags)
    return s


def listify(v):
    out, hit = [], False
    for a in v.alts:
        x = listify_atom(a)
        hit |= x is not None
        out.append(x if x is not None else a)
    return V(tuple(out), v.tags) if hit else None


def intify(v):
    out, hit = [], False
    for a in v.alts:
        if isinstance(a, Arr) and a.elem.num() is not None and a.elem.num().kinds == FLOAT:
            n = a.elem.num()
            a = Arr(a.shape, V((Num(n.lo, n.hi, INT, "narrow"),), a.elem.tags), a.roots, a.ex, a.aux)
            hit = True
        out.append(a)
    return V(tuple(out), v.tags) if hit else None


def arraylike(node):
    if not isinstance(node, ast.FunctionDef):
        return set()
    a = node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) if x.annotation is not None and "ArrayLike" in ast.unparse(x.annotation)}


def ctor_arraylike(prog, ci):
    """names of constructor parameters annotated ArrayLike (dataclass fields included)"""
    out = set()
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo):
            if isinstance(c.members.get("__init__"), ast.FunctionDef):
                return out | arraylike(c.members["__init__"])
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and "ArrayLike" in ast.unparse(n.annotation):
                    out.add(n.target.id)
    return out


def narrow(events, entry):
    return [from_event(ev, "dtype-dependent", ev.detail, entry) for ev in events if ev.kind == "narrow"]


def job(prog, j):
    kind, a, b = j
    if not kind.startswith("list"):
        return sweep_job(prog, j, lambda e, counts: narrow(e.events, e.name), lambda u: narrow(u.ctor_events, u.name))
    out, counts, funcs = [], {"list runs": 0}, set()
    b0, api.BATCH = api.BATCH, ()
    try:
        if kind == "listclass":
            ci = prog.public_classes()[a]
            u = build(prog, a, b)
            names = ctor_arraylike(prog, ci)
            over = {}
            for k, s in api.CTORS[a][b].items():
                if k.lstrip("*") in names:
                    over[k] = lambda c, name, s=s: listify(s(c, name)) or s(c, name)
            if over and u.obj is not None:
                counts["list runs"] += 1
                v = build(prog, a, b, over=over)
                compare(prog, out, u.name, ci.qual + ".__init__", v.obj is None and v.outcome == "dead", v.ctor_raises, u.ctor_raises)
            if u.obj is not None:
                for n, (owner, node) in members_of(prog, u.ci).items():
                    if not isinstance(node, ast.FunctionDef):
                        continue
                    al = arraylike(node)
                    for idx, d in enumerate(spec_for(prog, u.ci, n, node, a) or []):
                        ks = [k for k in d if k in al and d[k] is not None]
                        if ks:
                            e0 = run_member(u, n, owner, node, d, idx)
                            one(prog, u, lambda pre: run_member(u, n, owner, node, d, idx, pre=pre), e0, ks, out, counts, f"{owner.qual}.{n}")
            funcs = {shortfunc(q) for q in u.I.analysed}
        else:
            f = prog.public_functions()[a]
            for idx, d in enumerate(api.FUNCS.get(a, [])):
                u0 = run_func(prog, a, only=idx)
                e0 = u0.entries[0]
                al = arraylike(e0.node)
                ks = [k for k in d if k in al and d[k] is not None]
                if ks:
                    def go(pre):
                        def relax(e, c, kw):
                            if pre.__name__ == "pre_int":
                                c.I.narrow_lo, c.I.narrow_hi = -INF, INF
                            pre(e, c, kw)
                        return run_func(prog, a, only=idx, pre=relax).entries[0]
                    one(prog, u0, go, e0, ks, out, counts, a)
                funcs |= {shortfunc(q) for q in u0.I.analysed}
    finally:
        api.BATCH = b0
    return {"findings": out, "counts": counts, "funcs": funcs, "notes": []}


def one(prog, u, go, e0, ks, out, counts, func):
    if e0.outcome != "ok":
        return

    def pre(e, c, kw):
        for k in ks:
            x = listify(kw[k]) if k in kw else None
            if x is not None:
                kw[k] = x
                e.listed = True
    def pre_int(e, c, kw):
        for k in ks:
            x = intify(kw[k]) if k in kw else None
            if x is not None:
                kw[k] = x
                e.inted = True
    I = u.I
    try:
        I.narrow_lo, I.narrow_hi = -INF, INF
        e = go(pre_int)
    finally:
        I.narrow_lo, I.narrow_hi = 0, 1
    if getattr(e, "inted", False):
        counts["integer runs"] = counts.get("integer runs", 0) + 1
        out += narrow(e.events, e0.name)
    e = go(pre)
    if not getattr(e, "listed", False):
        return
    counts["list runs"] += 1
    compare(prog, out, e0.name, func, e.outcome == "dead", e.raises, e0.raises)


def compare(prog, out, name, func, dead, raises, raises0):
    had = {(r.exc, r.where) for r in raises0}
    new = [r for r in raises if (r.exc, r.where) not in had and r.exc in ("TypeError", "AttributeError")]
    if dead or new:
        r = (new or raises or [None])[0]
        out.append(Finding("list-argument", shortfunc(func), f"{r.exc} for a list" if r else "fails for a list", r.where if r else "",
                           f"{name} accepts an array but fails with {r.exc if r else 'an exception'} on the equal nested list", entry=name))
