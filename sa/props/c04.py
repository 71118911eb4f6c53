"""C04: results depend only on the arguments (and the generator)."""
from .common import *

TITLE = "Results are deterministic: no ambient input, no process-dependent order"
RULE = ("Source/sink analysis over every public entry point and every module body: no read of time, environment, files, process or "
        "object identity; no salted hash() of strings; no iteration order of a set of strings or objects in use and no sequence made from a set without sorting in a result; no "
        "process-wide configuration (numpy error state, warnings filters, print options) changed, at import or later; no entropy used "
        "outside the generator handled by the RNG property.")
ASSUME = ENGINE_ASSUMPTIONS + ["progress bars (tqdm) write to stderr only"]
MIN = {"entry points": 400, "module bodies": 100}
KINDS = {"ambient": "reads ambient state", "hash": "uses a process-salted hash", "set-order": "uses the iteration order of a set",
         "extwrite": "changes process-wide configuration", "legacy-rng": "uses numpy's hidden global generator"}


def jobs(prog, tier):
    return unit_jobs(prog) + [("modules", "", 0)]


INSENSITIVE = {"sorted", "set", "frozenset", "any", "all", "sum", "min", "max", "len", "update", "union", "intersection", "difference", "issubset",
               "issuperset", "isdisjoint", "symmetric_difference", "intersection_update", "difference_update", "Counter", "fsum", "unique"}
_parents = {}


def parents(module):
    if module.name not in _parents:
        _parents[module.name] = {id(c): p for p in ast.walk(module.tree) for c in ast.iter_child_nodes(p)}
    return _parents[module.name]


def sorts(fn, name):
    return any(isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr == "sort" and isinstance(c.func.value, ast.Name) and c.func.value.id == name
                                            or isinstance(c.func, ast.Name) and c.func.id in INSENSITIVE and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == name)
               for c in ast.walk(fn))


def order_free(ev):
    """The consumer of this iteration does not depend on the order in which the set is traversed."""
    up = parents(ev.module) if ev.module is not None else {}
    n = ev.node
    if isinstance(n, ast.Call) and callee(n) == "pop":
        return False
    while n is not None:
        p = up.get(id(n))
        if isinstance(n, ast.Call) and callee(n) in INSENSITIVE:
            return True
        if isinstance(n, (ast.SetComp, ast.DictComp)):
            return True
        if isinstance(p, ast.Assign) and p.value is n and isinstance(p.targets[0], ast.Name):
            f = p
            while f is not None and not isinstance(f, (ast.FunctionDef, ast.Module)):
                f = up.get(id(f))
            return f is None or sorts(f, p.targets[0].id)
        if isinstance(p, ast.For) and p.iter is n:
            return not any(isinstance(c, (ast.Yield, ast.YieldFrom)) or isinstance(c, ast.Call) and callee(c) in ("append", "extend", "insert", "appendleft")
                           for b in p.body for c in ast.walk(b))
        if isinstance(p, ast.stmt):
            return False
        n = p
    return True


def callee(c):
    return c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")


def scan(events, entry):
    events = [ev for ev in events if ev.kind != "set-order" or not order_free(ev)]
    return [from_event(ev, ev.kind, f"{KINDS[ev.kind]}: {ev.detail}", entry) for ev in events if ev.kind in KINDS]


def ordered(v):
    return any(isinstance(a, Seq) or isinstance(a, Arr) and a.shape != () for a in v.alts)


def scan_entry(e):
    out = scan(e.events, e.name)
    v = e.result
    if v is not None and ordered(v):
        for t in sorted(x for x in deep_tags(v) if x[0] == "so"):
            where = os.path.relpath(t[2], REPO) if os.path.isabs(t[2]) else t[2]
            out.append(Finding("set-order", shortfunc(t[1]), t[3], where,
                               f"the elements of the result are in the iteration order of a set, turned into a sequence by {t[3]} without sorting", entry=e.name))
    return out


def job(prog, j):
    if j[0] == "modules":
        I = Interp(prog)
        n = 0
        for m in prog.modules.values():
            I.module_env(m)
            n += 1
        return {"findings": scan(I.events, "import"), "counts": {"module bodies": n}, "funcs": set()}
    return sweep_job(prog, j, lambda e, c: scan_entry(e), lambda u: scan(u.ctor_events, u.name))
