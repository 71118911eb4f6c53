"""C01: calls never modify the caller's data."""
from .common import *

TITLE = "Caller-supplied data is never modified"
RULE = ("Alias analysis over every public entry point: each array/list/dict the caller passes carries its own root; a root follows views "
        "(asarray, reshape, ravel, T, slices, iteration, storage in attributes). Any in-place write (item/augmented assignment, "
        "mutating method, out=, ufunc.at, shuffle …) through memory that may carry a caller root is a violation.")
ASSUME = ENGINE_ASSUMPTIONS + ["MealyMachine.viterbi_streaming's 'memory' is a documented in/out parameter and is exempt"]
MIN = {"entry points": 400}
INOUT = {("viterbi_streaming", "memory")}
jobs = sweep_jobs


def bad(events, entry, member):
    out = []
    for ev in events:
        if ev.kind != "mutate":
            continue
        for r in ev.roots:
            if r[0] == "param":
                name = r[1]
                if (member, name) in INOUT:
                    continue
                what = f"constructor argument '{name.split('ctor.')[-1]}'" if "ctor." in name else f"argument '{name}'"
                out.append(from_event(ev, "caller-memory-write", f"{ev.detail} may write into the caller's {what}", entry))
    return out


def job(prog, j):
    def ctor(u):
        return bad(u.ctor_events, u.name, None)

    def check(e, counts):
        counts["in-place writes examined"] = counts.get("in-place writes examined", 0) + sum(1 for v in e.events if v.kind == "mutate")
        return bad(e.events, e.name, e.member)
    return sweep_job(prog, j, check, ctor, single=True)
