"""C18: results handed to the caller are not windows into the object."""
from .common import *

TITLE = "Processing results are never windows into an object's internal tables"
RULE = ("Escape analysis: for every public operation that takes data (encode, decode, transmit, modulate/demodulate helpers, quantise, "
        "process …) no array, list or dict reachable from the returned value may share memory with an object's attributes, a memoised "
        "result, a module/class variable or a default argument, so that writing into a result cannot corrupt later calls.")
ASSUME = ENGINE_ASSUMPTIONS + ["argument-less accessors (generator_matrix, codewords(), transitions …) hand out the stored table itself and are outside "
                               "the property", "the property does not promise that a result never shares memory with an argument"]
MIN = {"operations": 150}
jobs = sweep_jobs
PERSISTENT = ("state", "cache", "global", "classvar", "default")


def job(prog, j):
    def check(e, counts):
        if e.kind in ("property", "attribute") or not e.args or e.outcome != "ok" or e.member.startswith("__"):
            return []
        counts["operations"] = counts.get("operations", 0) + 1
        out = []
        bad = sorted({".".join(map(str, r)) for r in roots_of(e.result, deep=True) if r[0] in PERSISTENT})
        own = e.owner.qual + "." + e.member if e.owner is not None else e.member
        node = e.node
        for b in bad:
            out.append(Finding("result-aliases-internals", shortfunc(own), e.member, f"{own}:{getattr(node, 'lineno', 0)}",
                               f"the returned value may share memory with {shortfunc(b)}", entry=e.name))
        return out
    return sweep_job(prog, j, check, single=True)
