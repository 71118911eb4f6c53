"""Whole-API sweep: abstractly run every public entry point and hand each completed run to the property clients.

A *unit* is one (class, constructor spec) or one public function.  A unit builds its object once and then runs every
member from a copy of that state.  Units are independent, so they are distributed over a process pool."""
import ast, os, sys, time, traceback, multiprocessing as mp
from .model import Program, ClassInfo, AnalysisBroken
from .domain import *
from .interp import Interp, Dead, Budget, State
from . import api, ops

REPO = os.environ.get("KOMM_SA_REPO", "/repo")
HEAVY = ["BerlekampDecoder", "BCHCode", "ReedDecoder", "CyclicCode", "TerminatedConvolutionalCode", "ViterbiDecoder", "BCJRDecoder"]
SKIP = {"__init__", "__post_init__", "__new__", "__init_subclass__", "__class_getitem__"}


class Finding:
    """severity: 'violation' or 'undecided'.  key = (rule, function, construct) identifies it across line shifts."""
    __slots__ = ("rule", "func", "construct", "where", "msg", "severity", "entry", "chain")

    def __init__(self, rule, func, construct, where, msg, severity="violation", entry="", chain=()):
        self.rule, self.func, self.construct, self.where, self.msg = rule, func, construct, where, msg
        self.severity, self.entry, self.chain = severity, entry, chain

    @property
    def key(self):
        return f"{self.rule}|{self.func}|{self.construct}"

    def __getstate__(self):
        return {k: getattr(self, k) for k in self.__slots__}

    def __setstate__(self, d):
        for k, v in d.items():
            setattr(self, k, v)


def src(node, n=110):
    try:
        s = " ".join(ast.unparse(node).split())
    except Exception:
        s = type(node).__name__
    return s if len(s) <= n else s[:n - 1] + "…"


def shortfunc(q):
    """komm._a.b.Class.method(.inner) -> without the komm. prefix"""
    return q[5:] if q.startswith("komm.") else q


def from_event(ev, rule, msg, entry, severity="violation"):
    path = ev.module.path
    if os.path.isabs(path):
        path = os.path.relpath(path, REPO)
    return Finding(rule, shortfunc(ev.func), src(ev.node), f"{path}:{getattr(ev.node, 'lineno', 0)}", msg, severity, entry,
                   tuple(shortfunc(c) for c in ev.chain if not c.startswith("<")))


class Entry:
    """One abstract run of a public entry point."""

    def __init__(self, unit, name, member, idx, kind):
        self.unit, self.name, self.member, self.idx, self.kind = unit, name, member, idx, kind
        self.result = None
        self.args = {}
        self.events, self.raises = [], []
        self.outcome = "?"       # ok | dead | crash | budget | nospec
        self.note = ""
        self.st = None
        self.owner = None        # qualname of the function that implements the member
        self.node = None
        self.batched = False     # takes an argument with free leading axes

    @property
    def imprecise(self):
        return bool(self.st.imprecise) if self.st is not None else True


class Unit:
    def __init__(self, prog, cls, variant):
        self.prog, self.cls, self.variant = prog, cls, variant
        self.I = Interp(prog)
        self.s = api.Session(prog, self.I)
        self.st0 = self.s.state()
        self.obj = None
        self.ctor_events, self.ctor_raises = [], []
        self.entries = []
        self.outcome = "ok"
        self.ci = prog.public_classes().get(cls) if cls else None

    @property
    def name(self):
        return f"{self.cls}/{self.variant}"


def spec_for(prog, ci, name, fnode, cls):
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and (c.name, name) in api.METHODS:
            return api.METHODS[(c.name, name)]
    d = {}
    a = fnode.args
    dflt = {x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]} if a.defaults else set()
    dflt |= {x.arg for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None}
    for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
        if x.arg in api.PARAMS:
            d[x.arg] = api.PARAMS[x.arg]
        elif name in ("__rmul__", "__rpow__", "__pow__", "__mul__") and x.arg in ("exponent", "other", "n"):
            d[x.arg] = api.I(0) if name in ("__rmul__", "__pow__") else api.SELFLIKE.get(cls, api.I(0))
        elif x.arg in ("other", "num", "den"):
            d[x.arg] = api.SELFLIKE.get(cls, api.I(0))
        elif x.arg in dflt:
            continue
        else:
            return None
    return [d]


def members_of(prog, ci):
    names = {}
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo):
            for n, node in c.members.items():
                if n not in names:
                    names[n] = (c, node)
    return {n: v for n, v in sorted(names.items())
            if n not in SKIP and not (n.startswith("_") and not n.startswith("__"))}


def freeze(u):
    """Everything reachable from the finished object becomes 'state' memory."""
    I, st = u.I, u.st0
    for oid, rec in list(st.heap.items()):
        r = st.rec(oid)
        for k in list(r.attrs):
            r.attrs[k] = add_roots(r.attrs[k], frozenset([("state", f"{rec.cls.name}.{k}")]))
        I.preexisting.add(oid)
        I.oidstore[oid] = r.copy()


def build(prog, cls, variant, over=None):
    u = Unit(prog, cls, variant)
    I = u.I
    I.raises = [[]]
    try:
        u.obj = u.s.make(cls, variant, u.st0, over=over)
    except Dead:
        u.outcome = "dead"
    except Budget:
        u.outcome = "budget"
    u.ctor_events, u.ctor_raises = list(I.events), list(I.raises[0])
    u.ctor_steps = I.steps
    if u.obj is not None:
        freeze(u)
        positive_sizes(u)
    return u


SIZES = ("length", "dimension", "num_bits", "order", "cardinality", "num_states", "num_input_bits", "num_output_bits")


def positive_sizes(u):
    """Well-formed objects have positive sizes: record that as a fact about the symbol of each size attribute."""
    I, c = u.I, api.Ctx(u.s, u.st0, u.obj)
    objs = [u.obj]
    rec = I.get_rec(u.st0, u.obj.alts[0].oid) if u.obj.one(Obj) else None
    if rec is not None:
        objs += [v for v in rec.attrs.values() if v.one(Obj)]
    ev, ra, steps = (I.events, I._evseen), I.raises, I.steps
    I.events, I._evseen, I.raises = [], set(), [[]]
    for o in objs:
        for n in SIZES:
            if I.prog.find_member(o.alts[0].cls, n) is None:
                continue
            try:
                st = u.st0.copy()
                x = I.getattr_v(o, n, u.s.node, st).num()
            except (Dead, Budget):
                continue
            if x is not None and x.lo < 1 and x.sym is not None and len(x.sym) == 1:
                (m, k), = x.sym
                if len(m) == 1 and k == 1:
                    lo, hi = u.st0.facts.get(m[0], (-INF, INF))
                    u.st0.facts[m[0]] = (max(lo, 1), hi)
    (I.events, I._evseen), I.raises, I.steps = ev, ra, steps


def run_member(u, name, owner, node, spec, idx, over=None, pre=None):
    I, s = u.I, u.s
    e = Entry(u, f"{u.name}.{name}" + (f"#{idx}" if idx else ""), name, idx, "method")
    st = u.st0.copy()
    e.st = st
    I.raises = [[]]
    I.events, I._evseen = [], set()
    I.steps = 0
    I.frames = I.frames[:1]
    I.phase = "op"
    e.node = node
    e.owner = owner
    t, seen = time.time(), api.SEEN[0]
    try:
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            kind, fv = I.member(owner, name, node)
            e.kind = kind
            if kind == "property":
                e.result = I.getattr_v(u.obj, name, s.node, st)
            else:
                if spec is None:
                    e.outcome = "nospec"
                    return e
                c = api.Ctx(s, st, u.obj)
                d = dict(spec)
                if over:
                    d.update(over)
                pos, kw = [], {}
                for k, f in d.items():
                    if f is None:
                        continue
                    x = f(c, k)
                    e.args[k.lstrip("*")] = x
                    if k.startswith("*"):
                        pos += list(x.alts[0].items)
                    else:
                        kw[k] = x
                if pre:
                    pre(e, c, kw)
                # operators are called positionally
                if name.startswith("__"):
                    pos, kw = pos + list(kw.values()), {}
                I.raises = [[]]
                base = len(I.events)
                m = I.getattr_v(u.obj, name, s.node, st)
                e.result = I.call(m, pos, kw, s.node, st)
        else:
            e.kind = "attribute"
            e.result = I.getattr_v(u.obj, name, s.node, st)
        e.outcome = "ok"
    except Dead:
        e.outcome = "dead"
    except Budget:
        e.outcome = "budget"
    except RecursionError:
        e.outcome = "crash"
        e.note = "recursion"
    except Exception as ex:
        e.outcome = "crash"
        e.note = traceback.format_exc(limit=-2)
    I.frames = I.frames[:1]
    I.phase = "op"
    e.st = st
    e.batched = api.SEEN[0] != seen
    e.events, e.raises = I.events, I.raises[0]
    e.time = time.time() - t
    return e


def run_unit(prog, cls, variant, want=None):
    u = build(prog, cls, variant)
    if u.obj is None:
        return u
    for n, (owner, node) in members_of(prog, u.ci).items():
        if want is not None and not want(cls, n, node):
            continue
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            specs = spec_for(prog, u.ci, n, node, cls)
            for k, d in enumerate(specs if specs is not None else [None]):
                u.entries.append(run_member(u, n, owner, node, d, k))
        else:
            u.entries.append(run_member(u, n, owner, node, None, 0))
    return u


def run_func(prog, fname, over=None, pre=None, only=None, blocks=()):
    u = Unit(prog, None, 0)
    u.I.blocksyms = blocks
    u.cls = "komm"
    I, s = u.I, u.s
    f = prog.public_functions()[fname]
    for idx, d in enumerate(api.FUNCS.get(fname, [])):
        if only is not None and idx != only:
            continue
        e = Entry(u, fname + (f"#{idx}" if idx else ""), fname, idx, "function")
        st = u.st0.copy()
        e.st = st
        I.raises, I.events, I._evseen, I.steps = [[]], [], set(), 0
        I.frames, I.phase = I.frames[:1], "op"
        t, seen = time.time(), api.SEEN[0]
        try:
            fv = I.lookup_global(prog.modules["komm"], fname)
            c = api.Ctx(s, st, None)
            d = dict(d)
            if over:
                d.update(over)
            for k, sp in d.items():
                if sp is not None:
                    e.args[k] = sp(c, k)
            kw = dict(e.args)
            if pre:
                pre(e, c, kw)
            e.node = fv.alts[0].fi.node if isinstance(fv.alts[0], Fn) else None
            e.result = I.call(fv, [], kw, s.node, st)
            e.outcome = "ok"
        except Dead:
            e.outcome = "dead"
        except Budget:
            e.outcome = "budget"
        except Exception:
            e.outcome = "crash"
            e.note = traceback.format_exc(limit=-2)
        I.frames, I.phase = I.frames[:1], "op"
        e.events, e.raises, e.time = I.events, I.raises[0], time.time() - t
        e.batched = api.SEEN[0] != seen
        u.entries.append(e)
    return u


# ------------------------------------------------------------------ parallel driver
_P = None
_CLIENT = None


def _init(client_mod):
    global _P, _CLIENT
    sys.setrecursionlimit(20000)
    import threading
    _P = Program(REPO)
    import importlib
    _CLIENT = importlib.import_module(client_mod)


def _job(job):
    t = time.time()
    try:
        r = _CLIENT.job(_P, job)
    except Exception:
        r = {"crash": traceback.format_exc()}
    r["job"] = job
    r["time"] = time.time() - t
    return r


def unit_jobs(prog):
    jobs = []
    pub = prog.public_classes()
    for cls in api.CTORS:
        if cls in pub:
            for v in range(len(api.CTORS[cls])):
                jobs.append(("class", cls, v))
    for f in prog.public_functions():
        jobs.append(("func", f, 0))
    jobs.sort(key=lambda j: HEAVY.index(j[1]) if j[1] in HEAVY else 99)
    return jobs


def parallel(client_mod, jobs, procs=None):
    procs = procs or min(8, os.cpu_count() or 4)
    with mp.get_context("fork").Pool(procs, _init, (client_mod,)) as pool:
        for r in pool.imap_unordered(_job, jobs, chunksize=1):
            yield r
