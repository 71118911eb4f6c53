"""Obligation tables: one abstract run per row.

A row gives an entry point (constructor, method or function), an abstract region for some of its arguments and the
documented outcome for that region:
  reject  every execution with arguments in the region raises one of the documented exception types
  accept  not every execution with arguments in the region raises
Both verdicts come from an over-approximating run, so both violations are definite facts about the source:
  'accept' is violated when the run has no normal exit at all;
  'reject' is violated when the run has a normal exit and no documented exception whose condition may depend on the row's parameters is reachable
  on any path (the check is missing, or decided to pass).  A region whose check may raise but is not proven to is retried at constant points of the
  region; if none of them is a definite violation the row is undecided (recorded in the evidence, never reported)."""
from .common import *
from ..api import *
from ..interp import Interp
from ..api import I as INT_, F as FLT, C as CONST

Interp.want_tags = True

OK_EXC = {"ValueError", "TypeError", "ZeroDivisionError", "OverflowError", "IndexError", "NotImplementedError"}


class Row:
    def __init__(self, target, over, expect, doc, *, ctor=None, variant=0, member=None, idx=0, exc=("ValueError", "TypeError"), wit=(), stub=None):
        self.stub = stub
        self.target, self.over, self.expect, self.doc = target, over, expect, doc
        self.ctor, self.variant, self.member, self.idx, self.exc, self.wit = ctor, variant, member, idx, set(exc), list(wit)

    @property
    def label(self):
        return self.target + (f"/{self.variant}" if self.variant else "") + (f".{self.member}" if self.member else "")


def spec_points(spec):
    """constant specs inside an I/F region"""
    d = getattr(spec, "spec", None)
    if d is None or d[0] == "C":
        return [spec]
    kind, lo, hi = d
    one = 1 if kind == "I" else 0.5
    pts = []
    if lo == -INF and hi == INF:
        pts = [0]
    elif lo == -INF:
        pts = [hi, hi - one, hi - 7]
    elif hi == INF:
        pts = [lo, lo + one, lo + 7]
    else:
        pts = [lo, hi, (lo + hi) // 2 if kind == "I" else (lo + hi) / 2]
    return [CONST(type(one)(p)) for p in dict.fromkeys(pts)]


def run_row(prog, r, over):
    """-> (outcome, raises, imprecise, funcs, tail): outcome ok|dead|budget|crash"""
    if r.member is None and r.target in prog.public_classes():
        u = build(prog, r.target, r.variant, over)
        imp = set(u.st0.imprecise) if u.obj is not None else set()
        return u.outcome, u.ctor_raises, imp, u.I, u.obj
    if r.member is not None:
        u = build(prog, r.target, r.variant, r.ctor)
        if u.obj is None:
            return "nounit", u.ctor_raises, {"ctor"}, u.I, None
        mem = members_of(prog, u.ci)
        if r.member not in mem:
            return "nomember", [], {"member"}, u.I, None
        owner, node = mem[r.member]
        specs = spec_for(prog, u.ci, r.member, node, r.target)
        if r.stub:
            c = Ctx(u.s, u.st0.copy(), u.obj)
            u.I.stubs = {k: f(c, k) for k, f in r.stub.items()}
        e = run_member(u, r.member, owner, node, specs[r.idx] if specs else {}, 0, over=over)
        return e.outcome, e.raises, set(e.st.imprecise), u.I, e.result
    u = run_func(prog, r.target, over=over, only=r.idx)
    e = u.entries[0]
    return e.outcome, e.raises, set(e.st.imprecise), u.I, e.result


def guard_site(prog, r):
    """where the guard belongs: the constructor / member / function itself"""
    if r.target in prog.public_classes():
        ci = prog.public_classes()[r.target]
        mem = {}
        for c in prog.mro(ci):
            if isinstance(c, ClassInfo):
                for n, node in c.members.items():
                    mem.setdefault(n, (c, node))
        for n in ([r.member] if r.member else ["__post_init__", "__init__"]):
            if n in mem:
                c, node = mem[n]
                path = c.module.path
                if os.path.isabs(path):
                    path = os.path.relpath(path, REPO)
                return f"{path}:{getattr(node, 'lineno', 0)}", shortfunc(c.qual) + "." + n
        path = ci.module.path
        return (os.path.relpath(path, REPO) if os.path.isabs(path) else path), shortfunc(ci.qual)
    f = prog.public_functions().get(r.target)
    path = f[1].path if f and hasattr(f[1], "path") else ""
    return (os.path.relpath(path, REPO) if os.path.isabs(path) else path, r.target)


def const_over(over):
    import itertools
    keys = list(over)
    pts = [spec_points(over[k]) if over[k] is not None else [None] for k in keys]
    return [dict(zip(keys, c)) for c in itertools.islice(itertools.product(*pts), 8)]


def is_region(over):
    return any(getattr(s, "spec", ("C",))[0] != "C" for s in over.values() if s is not None)


def touches(r, tested):
    """may the raise depend on one of the parameters the row is about?"""
    if r.tags is None or not tested:
        return True
    for t in r.tags:
        name = str(t[1]).lstrip("*")
        if any(name == k or name.startswith((k + ".", k + "[")) for k in tested):
            return True
    return False


def check_row(prog, r, rule):
    out, counts = [], {"obligations": 1, f"obligations ({r.expect})": 1}
    oc, raises, imp, I, val = run_row(prog, r, r.over)
    funcs = {shortfunc(q) for q in I.analysed}
    where, func = guard_site(prog, r)
    und = None
    if oc in ("crash", "budget", "nounit", "nomember", "nospec"):
        und = f"run ended as {oc}"
    elif r.expect == "reject":
        tested = {k.lstrip("*") for k in (r.over or {})}
        if oc == "ok":
            raises = [x for x in raises if touches(x, tested)]
            if not any(x.exc in r.exc for x in raises):
                viol = "no path raises"
            else:
                # the guard may raise but is not proven to: try the region's witness points
                viol = None
                for w in (r.wit or (const_over(r.over) if is_region(r.over) else [])):
                    oc2, ra2, _, _, _ = run_row(prog, r, {**r.over, **w})
                    counts["witness runs"] = counts.get("witness runs", 0) + 1
                    if oc2 == "ok" and not any(x.exc in r.exc and touches(x, tested) for x in ra2):
                        viol = "no path raises at a point of the region"
                        break
            if viol:
                out.append(Finding(rule, func, r.doc, where, f"accepts arguments documented as invalid ({viol}): {r.doc}", entry=r.label))
            else:
                sites = sorted({f"{shortfunc(x.where)}:{src(x.node, 50)}" for x in raises if x.exc in r.exc})
                und = f"a check may raise but is not proven to: {'; '.join(sites[:3])}"
        else:
            kinds = {x.exc for x in raises}
            if not (kinds & r.exc):
                out.append(Finding(rule, func, r.doc, where, f"{'fails with ' + ', '.join(sorted(map(str, kinds))) if kinds else 'never returns'} instead of the documented error: {r.doc}",
                                   entry=r.label))
            counts["rejections proven"] = 1
    else:
        if oc == "dead":
            last = raises[-1] if raises else None
            site = f"{shortfunc(last.where)}: {src(last.node)}" if last is not None else ""
            out.append(Finding(rule, func, r.doc, where, f"rejects arguments documented as valid: {r.doc}; always raises at {site}", entry=r.label))
        else:
            counts["acceptances checked"] = 1
    if und:
        out.append(Finding(rule, func, r.doc, where, f"{r.doc}: {und}", "undecided", entry=r.label))
        counts["undecided"] = 1
    return {"findings": out, "counts": counts, "funcs": funcs}
