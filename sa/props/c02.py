"""C02: objects never change after construction; no hidden state between calls."""
from .common import *

TITLE = "Objects are immutable: no call leaves a trace that a later call can see"
RULE = ("Effect analysis over every public entry point run on a finished object: (a) no attribute of an existing object, class or module is "
        "assigned; (b) no in-place write reaches memory owned by an object's attributes, a cached result, a module/class variable or a "
        "default argument; (c) no stored iterator is consumed. An attribute holding only the constant True and read only through "
        "hasattr (availability flag of a memoised result) is the one permitted write.")
ASSUME = ENGINE_ASSUMPTIONS + ["the state of the random generator is not part of an object's state (see the RNG property)",
                               "ViterbiStreamDecoder keeps its path memory between calls by design (streaming); only its own attributes are exempt",
                               "the availability flags _cached_* only choose between two computations of the same value"]
MIN = {"entry points": 400}
jobs = sweep_jobs
PERSISTENT = {"state": "attribute", "cache": "memoised result of", "global": "module variable", "classvar": "class variable",
              "default": "default argument of"}
# the stream decoder is documented to carry its path memory from one decode() to the next
STREAMING = {"ViterbiStreamDecoder"}
_reads = {}


def flag_only(prog, ev):
    """the write is <obj>.<attr> = True and attr is only ever tested with hasattr"""
    attr = ev.detail.split(".")[-1]
    v = ev.value
    n = v.num() if v is not None else None
    if n is None or n.const != 1 or n.kinds != BOOL or len(v.alts) != 1:
        return False
    if id(prog) not in _reads:
        s = set()
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    s.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) > 1 \
                        and isinstance(x.args[1], ast.Constant):
                    s.add(x.args[1].value)
        _reads[id(prog)] = s
    return attr not in _reads[id(prog)]


def check_events(prog, events, entry, counts, constructing=False):
    out = []
    for ev in events:
        if ev.phase == "import":
            continue
        if ev.kind == "attrwrite":
            counts["attribute writes examined"] = counts.get("attribute writes examined", 0) + 1
            if ev.detail.split(".")[0] not in STREAMING and not flag_only(prog, ev):
                out.append(from_event(ev, "attribute-write", f"assigns {ev.detail} on an object that already exists", entry))
        elif ev.kind == "globalwrite":
            out.append(from_event(ev, "global-write", f"assigns module/class state {ev.detail}", entry))
        elif ev.kind == "mutate":
            counts["in-place writes examined"] = counts.get("in-place writes examined", 0) + 1
            for r in ev.roots:
                if r[0] in PERSISTENT and not (r[0] == "state" and str(r[1]).split(".")[0] in STREAMING):
                    out.append(from_event(ev, "persistent-memory-write",
                                          f"{ev.detail} may write into {PERSISTENT[r[0]]} {shortfunc('.'.join(map(str, r[1:])))}", entry))
    return out


def job(prog, j):
    def ctor(u):
        return check_events(prog, u.ctor_events, u.name, {}, True)

    def check(e, counts):
        return check_events(prog, e.events, e.name, counts)
    return sweep_job(prog, j, check, ctor, single=True)
