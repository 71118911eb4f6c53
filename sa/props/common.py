"""Shared pieces of the property clients."""
from ..domain import *
from ..sweep import *
from .. import api, ops, sweep
from ..interp import Interp
import ast

ENGINE_ASSUMPTIONS = [
    "entry points are called with the documented argument kinds (sa/api.py lists the abstract argument of every entry point)",
    "numpy, math and the standard library behave as modelled in sa/npm.py and sa/builtins_.py; an unmodelled call yields 'unknown', "
    "which can only make an obligation undecided",
    "integers are mathematical integers; floats are intervals of reals with outward-safe bounds",
]


def sweep_jobs(prog, tier):
    return unit_jobs(prog)


def run_job(prog, job, want=None):
    kind, a, b = job
    return run_unit(prog, a, b, want) if kind == "class" else run_func(prog, a)


def sweep_job(prog, job, check, ctor=None, want=None, single=False):
    """single: entry points that take batches are run a second time on one unbatched block (code may branch on ndim)"""
    u = run_job(prog, job, want)
    out, counts, notes = [], {"entry points": 0}, []
    entries, units = list(u.entries), [u]
    if single and any(e.batched for e in entries):
        again = {e.member for e in entries if e.batched}
        saved, api.BATCH = api.BATCH, ()
        try:
            v = run_job(prog, job, lambda cls, n, node: n in again)
        finally:
            api.BATCH = saved
        units.append(v)
        for e in v.entries:
            if e.batched:
                e.name += " [1-D input]"
                entries.append(e)
    if ctor:
        out += ctor(u)
    for e in entries:
        counts["entry points"] += 1
        if e.outcome in ("crash", "budget", "nospec"):
            counts[e.outcome] = counts.get(e.outcome, 0) + 1
            notes.append(f"{e.name}: {e.outcome} {e.note.strip().splitlines()[-1] if e.note else ''}")
            continue
        r = check(e, counts)
        if r:
            out += r
    return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for v in units for q in v.I.analysed}, "notes": notes}
