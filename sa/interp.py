"""Whole-program abstract interpreter for komm (flow-, context- and heap-sensitive; calls are resolved through
imports, decorators, properties, MRO/super and closures and analysed in context)."""
import ast
import sys

from .domain import *
from .domain import _Single
from .model import AnalysisBroken, ClassInfo, Program
from . import ops

sys.setrecursionlimit(20000)


class FuncInfo:
    __slots__ = ("node", "module", "owner", "qual", "is_gen", "locals", "globals_", "nonlocals")

    def __init__(self, node, module, owner, qual):
        self.node, self.module, self.owner, self.qual = node, module, owner, qual
        self.is_gen = False
        self.locals, self.globals_, self.nonlocals = set(), set(), set()
        if isinstance(node, ast.Lambda):
            body = []
        else:
            body = node.body
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                self.locals.add(x.arg)
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            if isinstance(n, ast.alias):
                self.locals.add((n.asname or n.name).split(".")[0])
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, ast.Global):
                self.globals_.update(n.names)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # comprehension variables are handled separately
                for g in n.generators:
                    stack.append(g.iter)
                continue
            stack.extend(ast.iter_child_nodes(n))
        self.locals -= self.globals_ | self.nonlocals


class Rec:
    __slots__ = ("cls", "attrs", "many")

    def __init__(self, cls, attrs, many=False):
        self.cls, self.attrs, self.many = cls, attrs, many

    def copy(self):
        return Rec(self.cls, dict(self.attrs), self.many)


class State:
    __slots__ = ("envs", "heap", "facts", "imprecise", "owned", "howned", "conds")

    def __init__(self):
        self.envs, self.heap, self.facts, self.imprecise = {}, {}, {}, frozenset()
        self.conds = NOTAGS      # undecided branches on sizes taken on this path
        self.owned, self.howned = set(), set()

    def copy(self):
        s = State()
        s.envs, s.heap, s.facts, s.imprecise = dict(self.envs), dict(self.heap), dict(self.facts), self.imprecise
        s.conds = self.conds
        self.owned, self.howned = set(), set()
        return s

    def env(self, fid):
        e = self.envs.get(fid)
        if e is None:
            e = self.envs[fid] = {}
            self.owned.add(fid)
        elif fid not in self.owned:
            e = self.envs[fid] = dict(e)
            self.owned.add(fid)
        return e

    def rec(self, oid):
        r = self.heap.get(oid)
        if r is not None and oid not in self.howned:
            r = self.heap[oid] = r.copy()
            self.howned.add(oid)
        return r

    def replace(self, o):
        self.envs, self.heap, self.facts, self.imprecise = o.envs, o.heap, o.facts, o.imprecise
        self.conds = o.conds
        self.owned, self.howned = o.owned, o.howned


def _jmap(a, b, f):
    out = {}
    for k in a:
        if k in b:
            x, y = a[k], b[k]
            out[k] = x if x is y else f(x, y)
        else:
            out[k] = a[k]
    for k in b:
        if k not in out:
            out[k] = b[k]
    return out


def join_states(a, b, f=join):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    s = State()
    s.envs = _jmap(a.envs, b.envs, lambda x, y: _jmap(x, y, f))

    def jr(x, y):
        r = Rec(x.cls, _jmap(x.attrs, y.attrs, f), x.many or y.many)
        return r
    s.heap = _jmap(a.heap, b.heap, jr)
    s.facts = {k: (min(v[0], b.facts[k][0]), max(v[1], b.facts[k][1])) for k, v in a.facts.items() if k in b.facts}
    s.imprecise = a.imprecise | b.imprecise
    s.conds = a.conds & b.conds
    a.owned, a.howned, b.owned, b.howned = set(), set(), set(), set()
    return s


def states_equal(a, b):
    if a.envs.keys() != b.envs.keys() or a.heap.keys() != b.heap.keys():
        return False
    for k, e in a.envs.items():
        o = b.envs[k]
        if e is not o:
            if e.keys() != o.keys() or any(e[n] != o[n] for n in e):
                return False
    for k, r in a.heap.items():
        o = b.heap[k]
        if r is not o:
            if r.many != o.many or r.attrs.keys() != o.attrs.keys() or any(r.attrs[n] != o.attrs[n] for n in r.attrs):
                return False
    return True


class Frame:
    __slots__ = ("fi", "fid", "rets", "loops", "pc", "yields", "ctx", "first", "gpc")

    def __init__(self, fi, fid, ctx, pc, gpc=frozenset()):
        self.fi, self.fid, self.ctx, self.pc = fi, fid, ctx, pc
        self.gpc = gpc              # parameters that any condition passed so far has looked at (decided or not)
        self.rets, self.loops, self.yields = [], [], None
        self.first = None


class Raise:
    __slots__ = ("exc", "node", "where", "st", "tags")

    def __init__(self, exc, node, where, st, tags=None):
        self.exc, self.node, self.where, self.st = exc, node, where, st
        self.tags = tags            # parameters the condition may depend on; None: not known


class Event:
    __slots__ = ("kind", "node", "module", "func", "detail", "roots", "tags", "phase", "chain", "value")

    def __init__(self, kind, node, module, func, detail, roots, tags, phase, chain, value=None):
        self.kind, self.node, self.module, self.func, self.detail = kind, node, module, func, detail
        self.roots, self.tags, self.phase, self.chain, self.value = roots, tags, phase, chain, value

    @property
    def where(self):
        return f"{self.module.path}:{getattr(self.node, 'lineno', 0)} ({self.func})"


PCTAGS = ("p", "ps")


def guard_stores(s):
    """the local names an if statement may assign, when that and raising is all it can do; None otherwise"""
    out = set()
    for b in s.body + s.orelse:
        if isinstance(b, (ast.Raise, ast.Pass)) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            continue
        if isinstance(b, ast.If):
            r = guard_stores(b)
            if r is None:
                return None
            out |= r
        elif isinstance(b, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            for t in b.targets if isinstance(b, ast.Assign) else [b.target]:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    out.add((t.value.id, t.attr))
                elif isinstance(t, ast.Name):
                    out.add(t.id)
                else:
                    return None
        else:
            return None
    return out


def note_shapes(v, cond):
    """Remember, un-joined, the shape of every returned array and whether the path depends on a size."""
    def one(a):
        if isinstance(a, Arr):
            old = dict(a.aux).get("shapes")
            if old is None:
                new = frozenset([(a.shape, cond)])
            elif cond:
                new = frozenset((s, True) for s, _ in old)
            else:
                new = old
            if new != old:
                return Arr(a.shape, a.elem, a.roots, a.ex, frozenset(x for x in a.aux if x[0] != "shapes") | {("shapes", new)})
        if isinstance(a, Seq) and a.kind == "tuple" and a.items is not None and len(a.items) <= 4:
            it = tuple(note_shapes(x, cond) for x in a.items)
            if any(x is not y for x, y in zip(it, a.items)):
                return Seq(a.kind, it, a.elem, a.length, a.roots, a.ex)
        return a
    alts = tuple(one(a) for a in v.alts)
    return V(alts, v.tags) if any(x is not y for x, y in zip(alts, v.alts)) else v


def taint_elems(a, dep):
    """The content of container a now also depends on dep (index, mask, control)."""
    if isinstance(a, Arr):
        return Arr(a.shape, a.elem.tag(dep), a.roots, a.ex, a.aux) if not dep <= a.elem.tags else a
    if isinstance(a, Seq):
        el = a.elem.tag(dep) if a.elem is not None else V((), dep)
        return Seq(a.kind, None if a.items is None else tuple(x.tag(dep) for x in a.items), el, a.length, a.roots, a.ex)
    if isinstance(a, SetA) and a.elem is not None:
        return SetA(a.kind, a.elem.tag(dep), a.length, a.roots, a.consts)
    if isinstance(a, Map) and a.v is not None:
        return Map(None if a.items is None else tuple((k, x.tag(dep)) for k, x in a.items), a.k, a.v.tag(dep), a.length, a.roots)
    return a


def pc_of(tags):
    return frozenset(t for t in tags if t[0] in PCTAGS)


EXC_PARENTS = {
    "ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "ArithmeticError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "StopIteration": "Exception", "AssertionError": "Exception", "AttributeError": "Exception",
    "RecursionError": "RuntimeError", "UnicodeError": "ValueError", "Exception": "BaseException",
}


def exc_is(name, base):
    while name:
        if name == base:
            return True
        name = EXC_PARENTS.get(name)
    return False


class Interp:
    MAXSTEPS = 400000
    want_tags = False       # record which parameters each failure may depend on

    def mix_site(self, node):
        k = id(node)
        if k not in self.mixsites:
            fr = self.frames[-1] if self.frames else None
            self.mixsites[k] = (node, fr.fi.module if fr else None, fr.fi.qual if fr else "?", [f.fi.qual for f in self.frames])
        return k

    def __init__(self, prog):
        self.mixsites = {}
        self.blocksyms = ()
        self.prog = prog
        self.fis = {}
        self.defaults = {}
        self.parents = {}          # fid -> parent fid
        self.fids = {}             # key -> fid
        self.oids = {}
        self.events = []
        self.so_gens = set()
        self._evseen = set()
        self.frames = []
        self.raises = [[]]
        self.phase = "op"
        self.globals = {}          # module name -> dict
        self.gstate = {}           # module name -> 'running'|'done'
        self.members = {}
        self.classvars = {}
        self.memo = {}
        self.rec = {}
        self.steps = 0
        self.oidstore = {}
        self.preexisting = set()
        self.symbounds = {}
        self.track = None          # list while a branch test is evaluated: records values that carry a size symbol
        self.attrnames = {}
        self.overrides = {}        # (oid|None, member name) -> V   assumed results
        self.analysed = set()      # qualnames of functions interpreted
        self.calls = 0
        self.unmodelled = {}
        self.narrow_hi = 1
        self.narrow_lo = 0
        self.depth_cut = set()
        self.hooks = []
        self.batch = set()         # size symbols of batch axes
        self.extcalls = {}
        self.maxdepth = 60
        self.iterdepth = 0         # active comprehensions / element-wise callbacks
        self.cached_depth = 0
        self.npname = ""          # name of the numpy function being modelled
        self.keepfids = set()      # frames captured by closures
        self.envstore = {}         # last environment of captured frames

    # ------------------------------------------------------------ bookkeeping
    def event(self, kind, node, detail="", roots=frozenset(), tags=NOTAGS, value=None):
        fr = self.frames[-1] if self.frames else None
        func = fr.fi.qual if fr else "<module>"
        module = fr.fi.module if fr else self.cur_module
        chain = tuple(f.fi.qual for f in self.frames[-6:])
        key = (kind, id(node), detail, roots, self.phase, tags)
        if key in self._evseen:
            return
        self._evseen.add(key)
        self.events.append(Event(kind, node, module, func, detail, roots, tags, self.phase, chain, value))

    keyrisk = 0                 # operations seen so far that may raise KeyError without saying so

    def note_unmodelled(self, what, node):
        self.keyrisk += 1
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def in_loop(self):
        return self.iterdepth > 0 or any(f.loops for f in self.frames)

    def obj_tags(self, v, st, seen):
        """every parameter that may have influenced a value, or the objects it refers to; None: not known"""
        t = set(pc_of(deep_tags(v)))
        work, depth = [v], 0
        while work and depth < 200:
            x = work.pop()
            depth += 1
            for a in x.alts if x is not None else ():
                if isinstance(a, Seq):
                    work += list(a.items or ()) + [a.elem]
                elif isinstance(a, Map):
                    work += [a.k, a.v] + [y for _, y in (a.items or ())]
                elif isinstance(a, (SetA, Arr)):
                    work.append(a.elem)
                if isinstance(a, Obj) and a.oid not in seen:
                    seen.add(a.oid)
                    rec = self.get_rec(st, a.oid)
                    if rec is None:
                        return None
                    for y in rec.attrs.values():
                        u = self.obj_tags(y, st, seen)
                        if u is None:
                            return None
                        t |= u
                elif isinstance(a, (Fn, Partial, Unk)):
                    return None
        return None if work else t

    def cond_tags(self, node, st):
        """parameters an implicit failure of this expression may depend on (control and data); None: not known"""
        fr = self.frames[-1] if self.frames else None
        if fr is None or node is None:
            return None
        if isinstance(node, ast.Raise):
            return fr.gpc
        if not isinstance(node, ast.expr):
            return None
        t = set(fr.gpc)
        inner = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                v = self.local_value(n.value.id, st)
                objs = [a for a in v.alts if isinstance(a, Obj)] if v is not None else []
                if objs and len(objs) == len(v.alts):
                    inner.add(id(n.value))
                    t |= pc_of(v.tags)
                    for a in objs:
                        rec = self.get_rec(st, a.oid)
                        if rec is not None and n.attr in rec.attrs:
                            u = self.obj_tags(rec.attrs[n.attr], st, {a.oid})
                        else:
                            u = self.obj_tags(v, st, set())
                        if u is None:
                            return None
                        t |= u
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and id(n) not in inner:
                v = self.local_value(n.id, st)
                if v is None:
                    continue
                u = self.obj_tags(v, st, set())
                if u is None:
                    return None
                t |= u
        return frozenset(t)

    def local_value(self, name, st):
        """the value of a local or captured variable; None for globals and builtins"""
        fid = self.frames[-1].fid
        if name in self.frames[-1].fi.globals_:
            return None
        while fid is not None:
            env = st.envs.get(fid)
            if env is None:
                env = self.envstore.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = self.parents.get(fid)
        return None

    def raise_(self, exc, node, st):
        fr = self.frames[-1] if self.frames else None
        tags = self.cond_tags(node, st) if self.want_tags else None
        self.raises[-1].append(Raise(exc, node, fr.fi.qual if fr else "<module>", st, tags))
        raise Dead()

    def maybe_raise(self, exc, node, st):
        fr = self.frames[-1] if self.frames else None
        tags = self.cond_tags(node, st) if self.want_tags else None
        self.raises[-1].append(Raise(exc, node, fr.fi.qual if fr else "<module>", st.copy(), tags))

    def ctx(self):
        return self.frames[-1].ctx if self.frames else 0

    def intern(self, table, key):
        i = table.get(key)
        if i is None:
            i = table[key] = len(table) + 1
        return i

    def fresh(self, node, extra=0):
        """A fresh allocation root for this site in this calling context."""
        return frozenset([("new", id(node), self.ctx(), extra)])

    def fi_of(self, node, module, owner, qual):
        fi = self.fis.get(id(node))
        if fi is None:
            fi = self.fis[id(node)] = FuncInfo(node, module, owner, qual)
        return fi

    def seq(self, kind, items, node, roots=None, extra=0):
        items = tuple(items)
        return mk(Seq(kind, items, join_all(items), num_const(len(items)),
                      self.fresh(node, extra) if roots is None else roots))

    def lst(self, kind, elem, length, node, ex=(), roots=None, extra=0):
        return mk(Seq(kind, None, elem, length, self.fresh(node, extra) if roots is None else roots, ex))

    # ------------------------------------------------------------ name resolution
    def module_env(self, m):
        """Abstractly execute a module body (import phase) once."""
        if self.gstate.get(m.name) == "done":
            return self.globals[m.name]
        if self.gstate.get(m.name) == "running":
            return self.globals[m.name]
        self.gstate[m.name] = "running"
        depth0, self.iterdepth = self.iterdepth, 0
        env = self.globals.setdefault(m.name, {})
        saved = (self.frames, self.raises, self.phase, getattr(self, "cur_module", None))
        modnode = ast.parse("def _module_(): pass").body[0]
        fi = FuncInfo(modnode, m, None, m.name)
        fid = self.intern(self.fids, ("module", m.name))
        fr = Frame(fi, fid, self.intern(self.fids, ("mctx", m.name)), NOTAGS)
        self.frames, self.raises, self.phase, self.cur_module = [fr], [[]], "import", m
        st = State()
        st.envs[fid] = {}
        try:
            for stmt in m.tree.body:
                try:
                    if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant):
                        continue
                    st2 = self.exec_stmt(stmt, st)
                    if st2 is None:
                        break
                    st = st2
                except Dead:
                    continue
                # publish as we go
                for k, v in st.envs[fid].items():
                    env[k] = add_roots(v, frozenset([("global", m.name, k)]))
        finally:
            self.frames, self.raises, self.phase, self.cur_module = saved
            self.iterdepth = depth0
        self.gstate[m.name] = "done"
        return env

    def lookup_global(self, m, name):
        r = self.prog.lookup(m, name)
        if r is None:
            return None
        if r[0] == "class":
            return mk(Cls(r[1]))
        if r[0] == "func":
            return self.func_value(r[1], r[2])
        if r[0] == "module":
            return mk(ModA(r[1]))
        if r[0] == "ext":
            return self.ext_value(r[1])
        if r[0] == "var":
            mm = r[1]
            env = self.module_env(mm)
            v = env.get(r[2])
            if v is None:
                # not assigned yet: the name may still mean an earlier import / definition of the same module
                for b in reversed(mm.bindings.get(r[2], [])):
                    if isinstance(b, tuple):
                        q = self.prog.resolve_import(mm, *b)
                        if q[0] == "ext":
                            return self.ext_value(q[1])
                        if q[0] == "name":
                            return self.lookup_global(q[1], q[2])
                    if isinstance(b, ast.FunctionDef):
                        return self.func_value(mm, b)
                return unk(f"global {mm.name}.{r[2]}")
            if v.only(Rng):
                v = V(tuple(Rng(("module", f"{mm.name}.{r[2]}", a.src, self.phase)) if isinstance(a, Rng) else a
                            for a in v.alts), v.tags)
            return v
        return None

    def ext_value(self, path):
        c = ops.EXT_CONSTS.get(path)
        if c is not None:
            return c
        if path in ("numpy.newaxis",):
            return const(None)
        return mk(Ext(path))

    def func_value(self, m, node):
        """Module-level function with its decorators applied."""
        key = ("func", id(node))
        if key in self.members:
            return self.members[key]
        fi = self.fi_of(node, m, None, f"{m.name}.{node.name}")
        self.members[key] = mk(Fn(fi))
        v = self.decorate(mk(Fn(fi)), node.decorator_list, m, None)
        self.members[key] = v
        return v

    def decorate(self, v, decs, m, st):
        for d in reversed(decs):
            v = self.apply_decorator(v, d, m, st)
        return v

    IDENTITY_DECS = {"abc.abstractmethod", "typing.override", "typing.final", "typing.no_type_check",
                     "typeguard.typechecked", "typing.runtime_checkable", "typing.overload", "staticmethod",
                     "builtins.staticmethod", "functools.total_ordering", "dataclasses.dataclass"}

    def apply_decorator(self, v, d, m, st):
        own = st is None
        if own:
            st = State()
        try:
            dv = self.eval_in_module(d, m) if own else self.eval(d, st)
        except Dead:
            return unk("decorator")
        return self.apply_dec_value(v, dv, d, st, m if own else None)

    def apply_dec_value(self, v, dv, d, st, m=None):
        e = dv.one(Ext)
        if e is not None:
            if e.path in ("functools.cache", "functools.lru_cache", "functools.cached_property"):
                return V(tuple(Fn(a.fi, a.fid, a.self_v, True) if isinstance(a, Fn) else a for a in v.alts), v.tags)
            if e.path in self.IDENTITY_DECS:
                return v
        p = dv.one(Partial)
        if p is not None and p.style in ("wraps", "identity-dec"):
            return v
        if p is not None and p.style == "lru_cache":
            return V(tuple(Fn(a.fi, a.fid, a.self_v, True) if isinstance(a, Fn) else a for a in v.alts), v.tags)
        try:
            if m is not None:
                return self.in_module(m, lambda s: self.call(dv, [v], {}, d, s))
            return self.call(dv, [v], {}, d, st)
        except Dead:
            return unk("decorator")

    def in_module(self, m, f):
        modnode = self.fis.get(("modfn", m.name))
        if modnode is None:
            node = ast.parse("def _module_(): pass").body[0]
            modnode = self.fis[("modfn", m.name)] = FuncInfo(node, m, None, m.name)
        fid = self.intern(self.fids, ("module", m.name))
        saved = (self.frames, self.raises, self.phase)
        self.frames = [Frame(modnode, fid, self.intern(self.fids, ("mctx", m.name)), NOTAGS)]
        self.raises, self.phase = [[]], "import"
        st = State()
        st.envs[fid] = {}
        try:
            return f(st)
        finally:
            self.frames, self.raises, self.phase = saved

    def eval_in_module(self, node, m):
        return self.in_module(m, lambda st: self.eval(node, st))

    def load_name(self, name, node, st):
        fr = self.frames[-1]
        fid = fr.fid
        fi = fr.fi
        if name in fi.globals_:
            v = self.lookup_global(fi.module, name)
            return v if v is not None else unk("global " + name)
        while fid is not None:
            env = st.envs.get(fid)
            if env is None:
                env = self.envstore.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = self.parents.get(fid)
        v = self.lookup_global(fi.module, name)
        if v is not None:
            return v
        if name == "__class__":
            for f in reversed(self.frames):
                if f.fi.owner is not None:
                    return mk(Cls(f.fi.owner))
        if name == "__name__":
            return const(fi.module.name)
        if name in ops.BUILTIN_CONSTS:
            return ops.BUILTIN_CONSTS[name]
        if name in fi.locals:
            self.raise_("UnboundLocalError", node, st)
        return mk(Ext("builtins." + name))

    # ------------------------------------------------------------ class members
    def member(self, owner, name, node):
        """-> (kind, V) for a member node of a class: kind in func, property, classmethod, staticmethod, value."""
        key = ("member", owner.qual, name, id(node))
        if key in self.members:
            return self.members[key]
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            m = owner.module
            fi = self.fi_of(node, m, owner, f"{owner.qual}.{node.name}")
            v = mk(Fn(fi))
            kind = "func"
            self.members[key] = (kind, v)
            for d in reversed(node.decorator_list):
                try:
                    dv = self.eval_in_module(d, m)
                except Dead:
                    dv = unk("decorator")
                e = dv.one(Ext)
                path = e.path if e else None
                if path in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                    kind = "property"
                    if path == "functools.cached_property":
                        v = self.apply_dec_value(v, dv, d, None, m)
                elif path == "builtins.classmethod":
                    kind = "classmethod"
                elif path == "builtins.staticmethod":
                    kind = "staticmethod"
                elif path == "functools.cache" or path == "functools.lru_cache":
                    v = self.apply_dec_value(v, dv, d, None, m)
                elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                    kind = "property"
                else:
                    v = self.apply_dec_value(v, dv, d, None, m)
            self.members[key] = (kind, v)
            return kind, v
        if isinstance(node, ast.ClassDef):
            r = ("value", mk(Cls(self.prog.class_of(owner.module, node))))
        elif isinstance(node, (ast.Assign, ast.AnnAssign)):
            try:
                val = self.eval_in_module(node.value, owner.module)
            except Dead:
                val = unk("classvar")
            except AnalysisBroken:
                raise
            if isinstance(node, ast.Assign) and not any(isinstance(t, ast.Name) and t.id == name for t in node.targets):
                val = unk("classvar-unpack")
            r = ("value", add_roots(val, frozenset([("classvar", owner.qual, name)])))
        else:
            r = ("value", unk("member"))
        self.members[key] = r
        return r

    def class_name(self, c):
        return c.name if isinstance(c, ClassInfo) else str(c)

    def get_rec(self, st, oid):
        r = st.heap.get(oid)
        if r is None:
            r = self.oidstore.get(oid)
            if r is not None:
                st.heap[oid] = r.copy()
                r = st.heap[oid]
                st.howned.add(oid)
        return r

    def getattr_obj(self, a, name, node, st, tags):
        rec = self.get_rec(st, a.oid)
        if name == "__class__":
            return mk(Cls(a.cls), tags)
        if name == "__dict__":
            own = frozenset([("state", f"{a.cls.name}.__dict__")]) if a.oid in self.preexisting else frozenset()
            return mk(Map(None, mk(Str(None)), unk("__dict__"), Num(0, INF, INT), own), tags)
        ov = self.overrides.get((a.oid, name))
        fm = self.prog.find_member(a.cls, name)
        if fm is not None:
            owner, mnode = fm
            kind, fv = self.member(owner, name, mnode)
            if kind == "property":
                if ov is not None:
                    return ov
                r = self.call_prop(fv, mk(a), node, st)
                if a.oid in self.preexisting and isinstance(a.oid, tuple) and a.oid[:2] == ("obj", "entry") and r.alts:
                    r = self.name_attr(a.oid, name, r, st)
                return r.tag(tags)
            if rec is not None and name in rec.attrs:
                return rec.attrs[name].tag(tags)
            if kind == "func":
                if ov is not None:
                    return mk(Partial(mk(Ext("sa.const")), (ov,), (), id(node)), tags)
                return self.bind(fv, mk(a)).tag(tags)
            if kind == "classmethod":
                return self.bind(fv, mk(Cls(a.cls))).tag(tags)
            if kind == "staticmethod":
                return fv.tag(tags)
            return fv.tag(tags)
        if rec is not None and name in rec.attrs:
            return rec.attrs[name].tag(tags)
        if name == "__class__":
            return mk(Cls(a.cls), tags)
        if self.has_ext_base(a.cls):
            return unk(f"attr {name}", tags)
        if rec is not None and not rec.many:
            self.raise_("AttributeError", node, st)
        return unk(f"attr {name}", tags)

    def name_attr(self, oid, name, v, st):
        """A derived attribute of a finished (immutable) object is one fixed value: give an otherwise anonymous integer, or an
        anonymous array dimension, a symbol of its own, so that two reads are known to be equal."""
        def sym(n, what):
            if n.sym is not None or n.const is not None or n.bot or n.kinds != INT:
                return n
            label = f"{oid[2] or 'self.'}{what}"
            if self.attrnames.setdefault(label, oid) != oid:
                label += f"#{oid[5]}"
            lo, hi = self.symbounds.get(label, (n.lo, n.hi))
            self.symbounds[label] = (min(lo, n.lo), max(hi, n.hi))
            return ops.fin(self, st, Num(n.lo, n.hi, n.kinds, n.dt, n.nan, p_sym(label)))
        if len(v.alts) != 1:
            return v
        x = v.alts[0]
        if isinstance(x, Num):
            y = sym(x, name)
        elif isinstance(x, Arr) and x.shape is not None:
            y = Arr(tuple(sym(d, f"{name}.shape[{k}]") for k, d in enumerate(x.shape)), x.elem, x.roots, x.ex, x.aux)
        else:
            return v
        return v if y is x or y == x else V((y,), v.tags)

    def has_ext_base(self, ci):
        for c in self.prog.mro(ci):
            if not isinstance(c, ClassInfo):
                if str(c).split(".")[-1] not in ("ABC", "Generic", "Protocol", "object"):
                    return True
        return False

    def bind(self, fv, self_v):
        out = []
        for f in fv.alts:
            if isinstance(f, Fn):
                out.append(Fn(f.fi, f.fid, self_v if f.self_v is None else f.self_v, f.cached))
            else:
                out.append(Partial(mk(f), (self_v,), (), ("bind", id(f))))
        return V(tuple(out), fv.tags)

    def call_prop(self, fv, self_v, node, st):
        return self.call(self.bind(fv, self_v), [], {}, node, st)

    # ------------------------------------------------------------ attribute access
    def getattr_v(self, v, name, node, st):
        res = BOT
        for a in v.alts:
            res = join(res, self.getattr_atom(a, name, node, st, v.tags))
        if not res.alts:
            raise Dead()
        return res

    def getattr_atom(self, a, name, node, st, tags):
        if isinstance(a, Obj):
            return self.getattr_obj(a, name, node, st, tags)
        if isinstance(a, ModA):
            v = self.lookup_global(a.m, name)
            if v is None and f"{a.m.name}.{name}" in self.prog.modules:
                v = mk(ModA(self.prog.modules[f"{a.m.name}.{name}"]))
            return v if v is not None else unk(f"{a.m.name}.{name}")
        if isinstance(a, Cls):
            if name in ("__name__", "__qualname__"):
                return const(a.ci.name)
            fm = self.prog.find_member(a.ci, name)
            if fm:
                kind, fv = self.member(fm[0], name, fm[1])
                if kind == "classmethod":
                    return self.bind(fv, mk(a))
                if kind == "property":
                    return unk("property object")
                return fv
            return mk(Ext("type." + name, mk(a)), tags)
        if isinstance(a, Super):
            for s in a.self_v.alts:
                ci = s.cls if isinstance(s, Obj) else (s.ci if isinstance(s, Cls) else None)
                if ci is None:
                    continue
                fm = self.prog.find_member(ci, name, after=a.after)
                if fm is None:
                    if name in ("__init__", "__init_subclass__", "__post_init__"):
                        d = self.dataclass_after(ci, a.after)
                        if name == "__init__" and d is not None:
                            return mk(Partial(mk(Ext("sa.dcinit")), (mk(Cls(d)), mk(s)), (), id(node)))
                        return mk(Partial(mk(Ext("sa.const")), (const(None),), (), id(node)))
                    return mk(Ext("object." + name, mk(s)))
                kind, fv = self.member(fm[0], name, fm[1])
                if kind == "property":
                    return self.call_prop(fv, mk(s), node, st).tag(tags)
                if kind == "classmethod":
                    return self.bind(fv, mk(Cls(ci)))
                if kind == "staticmethod":
                    return fv
                if kind == "func":
                    return self.bind(fv, mk(s)).tag(tags)
                return fv
            return unk("super")
        if isinstance(a, Ext):
            if a.recv is None:
                v = self.ext_value(f"{a.path}.{name}")
                return v
            return mk(Ext(f"{a.path}.{name}", a.recv))
        if isinstance(a, Fn):
            if name == "__wrapped__":
                return mk(Fn(a.fi, a.fid, a.self_v, False))
            if name in ("__name__", "__qualname__", "__doc__", "__module__"):
                return mk(Str(None))
            return unk("fn attr " + name)
        return ops.getattr_atom(self, a, name, node, st, tags)

    def dataclass_after(self, ci, after):
        mro = self.prog.mro(ci)
        for c in mro[mro.index(after) + 1:]:
            if isinstance(c, ClassInfo) and self.is_dataclass(c):
                return c
        return None

    def is_dataclass(self, ci):
        key = ("dc", ci.qual)
        if key not in self.members:
            r = False
            for d in ci.node.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                try:
                    v = self.eval_in_module(f, ci.module)
                    e = v.one(Ext)
                    if e is not None and e.path == "dataclasses.dataclass":
                        r = True
                except Dead:
                    pass
            self.members[key] = r
        return self.members[key]

    def dc_fields(self, ci):
        out = {}
        for c in reversed(self.prog.mro(ci)):
            if isinstance(c, ClassInfo) and self.is_dataclass(c):
                for n, ann, d in c.fields:
                    out[n] = (c, d, ann)
        return out

    def setattr_v(self, v, name, val, node, st, aug=False):
        fr = self.frames[-1]
        sel = pc_of(v.tags)              # which object is written depends on these
        if sel:
            val = val.tag(sel)
        for a in v.alts:
            if isinstance(a, Obj):
                if a.oid in self.preexisting:
                    self.event("attrwrite", node, f"{a.cls.name}.{name}", roots=frozenset([a.oid]),
                               tags=val.tags | fr.pc, value=val)
                self.get_rec(st, a.oid)
                rec = st.rec(a.oid)
                if rec is None:
                    continue
                if (len(v.alts) > 1 or rec.many) and name in rec.attrs:
                    rec.attrs[name] = join(rec.attrs[name], val)
                else:
                    rec.attrs[name] = val
                self.oidstore[a.oid] = rec
            elif isinstance(a, (Cls, ModA)):
                nm = a.ci.qual if isinstance(a, Cls) else a.m.name
                if self.phase != "import":
                    self.event("globalwrite", node, f"{nm}.{name}", tags=val.tags)
            elif isinstance(a, Fn):
                if self.phase != "import" and a.fid is None:
                    self.event("globalwrite", node, f"{a.fi.qual}.{name}", tags=val.tags)
            elif isinstance(a, (Arr, Unk, Rng)):
                roots = getattr(a, "roots", frozenset())
                self.mutate(roots, None, node, st, f"set attribute {name}", tags=val.tags)
            elif isinstance(a, Ext):
                self.event("extwrite", node, f"{a.path}.{name}")

    # ------------------------------------------------------------ mutation
    def mutate(self, roots, elem, node, st, what, tags=NOTAGS, length=None, update=None):
        """In-place write through memory that may alias `roots`; weakly merges elem into every alias."""
        roots = frozenset(roots)
        if roots:
            self.event("mutate", node, what, roots=frozenset(r for r in roots if r[0] != "new"), tags=tags)
        if not roots:
            return
        real = roots

        dep = pc_of(tags | self.frames[-1].pc) if self.frames else pc_of(tags)

        def f(a):
            b = f1(a)
            return taint_elems(b, dep) if dep and (b is not a or isinstance(a, (Arr, Seq, Map, SetA)) and a.roots & real) else b

        def f1(a):
            if isinstance(a, (Arr, Seq, Map, SetA)) and a.roots & real:
                if update is not None:
                    return update(a)
                if elem is not None and isinstance(a, Arr):
                    return Arr(a.shape, join(a.elem, elem), a.roots)
                if elem is not None and isinstance(a, Seq):
                    return Seq(a.kind, None, jopt(a.elem, elem), length or Num(0, INF, INT), a.roots)
                if elem is not None and isinstance(a, SetA):
                    return SetA(a.kind, jopt(a.elem, elem), Num(a.length.lo, INF, INT), a.roots)
                if elem is None and isinstance(a, Arr):
                    return Arr(a.shape, a.elem, a.roots)
                if elem is None and isinstance(a, Seq):
                    return Seq(a.kind, None, a.elem, length or Num(0, INF, INT), a.roots)
            return a
        self.map_state(st, f)

    def map_state(self, st, f):
        for fid in list(st.envs):
            env = st.envs[fid]
            new = None
            for k, v in env.items():
                if v.alts and isinstance(v.alts[0], (Arr, Seq, Map, SetA, Partial)) or len(v.alts) > 1:
                    w = map_atoms(v, f)
                    if w is not v:
                        if new is None:
                            new = dict(env)
                        new[k] = w
            if new is not None:
                st.envs[fid] = new
                st.owned.add(fid)
        for oid in list(st.heap):
            r = st.heap[oid]
            new = None
            for k, v in r.attrs.items():
                w = map_atoms(v, f)
                if w is not v:
                    if new is None:
                        new = dict(r.attrs)
                    new[k] = w
            if new is not None:
                st.heap[oid] = Rec(r.cls, new, r.many)
                st.howned.add(oid)
                self.oidstore[oid] = st.heap[oid]

    # ------------------------------------------------------------ calls
    def call(self, fv, args, kwargs, node, st):
        self.calls += 1
        alts = fv.alts
        if len(alts) == 1:
            return self.call_atom(alts[0], args, kwargs, node, st).tag(fv.tags & self.dep_only(fv.tags))
        res, out = BOT, None
        for a in alts:
            s = st.copy()
            try:
                r = self.call_atom(a, args, kwargs, node, s)
            except Dead:
                continue
            res = join(res, r)
            out = join_states(out, s)
        if out is None:
            raise Dead()
        st.replace(out)
        return res.tag(fv.tags)

    def dep_only(self, tags):
        return tags

    def call_atom(self, a, args, kwargs, node, st):
        if isinstance(a, Fn):
            return self.call_fn(a, args, kwargs, node, st)
        if isinstance(a, Cls):
            return self.instantiate(a.ci, args, kwargs, node, st)
        if isinstance(a, Partial):
            if a.style in ("wraps", "identity-dec", "lru_cache"):
                v = args[0] if args else unk("dec")
                if a.style == "lru_cache":
                    v = V(tuple(Fn(x.fi, x.fid, x.self_v, True) if isinstance(x, Fn) else x for x in v.alts), v.tags)
                return v
            kw = dict(a.kwargs)
            kw.update(kwargs)
            e = a.func.one(Ext)
            if e is not None and e.path == "sa.const":
                return a.args[0]
            if e is not None and e.path == "sa.dcinit":
                self.dc_init(a.args[0].one(Cls).ci, a.args[1].one(Obj), list(args), kw, node, st)
                return const(None)
            return self.call(a.func, list(a.args) + list(args), kw, node, st)
        if isinstance(a, Ext):
            return ops.call_ext(self, a, args, kwargs, node, st)
        if isinstance(a, Obj):
            m = self.getattr_obj(a, "__call__", node, st, NOTAGS)
            return self.call(m, args, kwargs, node, st)
        if isinstance(a, Unk):
            self.keyrisk += 1
            allv = [x[1] if isinstance(x, tuple) else x for x in list(args) + list(kwargs.values())]
            for x in allv:
                self.escape(x, node)
            tags = frozenset().union(*[deep_tags(x) for x in allv]) if allv else NOTAGS
            # calling a caller-supplied function: unknown but treated as effect-free
            return unk("call " + a.why, tags)
        if a is NONE or isinstance(a, (Num, Str, Arr, Seq)):
            self.raise_("TypeError", node, st)
        return unk("call?")

    def escape(self, v, node):
        pass

    RECLIM = 3
    stubs = None

    def call_fn(self, fn, args, kwargs, node, st):
        fi = fn.fi
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget()
        if fn.self_v is not None:
            args = [fn.self_v] + list(args)
        if fn.cached:
            key = None
            vals = [x[1] if isinstance(x, tuple) else x for x in list(args) + list(kwargs.values())]
            for v in vals:
                if v.alts and all(isinstance(x, (Arr, Map)) or (isinstance(x, (Seq, SetA)) and x.kind in ("list", "deque", "set", "dict")) for x in v.alts):
                    self.event("memo-unhashable", node, f"{fi.qual.rsplit('.', 1)[-1]}: an argument of the memoised function is not hashable", value=v)
            if vals:
                self.event("memo-call", node, fi.qual)
            if len(args) <= 1 and not kwargs and (not args or args[0].one(Obj)):
                key = (id(fi.node), args[0].one(Obj).oid if args else None, self.ctx_mode())
                hit = self.memo.get(key)
                rec = self.get_rec(st, args[0].one(Obj).oid) if args else None
                many = dict(rec.attrs) if rec is not None and rec.many else None
                if hit is not None and hit[1] == many:
                    return hit[0]
            self.cached_depth += 1
            try:
                r = self.invoke(fn, args, kwargs, node, st)
            finally:
                self.cached_depth -= 1
            r = add_roots(r, frozenset([("cache", fi.qual)]))
            if key is not None and self.steps < self.MAXSTEPS:
                self.memo[key] = (r, many)
            return r
        return self.invoke(fn, args, kwargs, node, st)

    def ctx_mode(self):
        return 0

    def invoke(self, fn, args, kwargs, node, st):
        fi = fn.fi
        if self.stubs and fi.owner is not None and fi.node.name in self.stubs:
            # an operation of the object replaced by its contract (any result of the given region)
            return self.stubs[fi.node.name].tag(frozenset().union(*[deep_tags(x[1] if isinstance(x, tuple) else x) for x in list(args) + list(kwargs.values())]))
        nid = id(fi.node)
        cnt = sum(1 for f in self.frames if f.fi is fi)
        limit = self.RECLIM if fn.fid is None else self.RECLIM + 4
        if fi.owner is not None:
            limit += 1
        if len(self.frames) > self.maxdepth:
            self.depth_cut.add(fi.qual)
            return unk("depth", frozenset().union(*[deep_tags(x[1] if isinstance(x, tuple) else x) for x in args]) if args else NOTAGS)
        if cnt < limit - 1:
            return self.run(fn, args, kwargs, node, st)
        rkey = (nid, fn.fid)
        if cnt >= limit:
            # recursive call answered from the summary being computed
            r = self.rec.get(rkey)
            if r is None:
                return unk("recursion")
            r["used"] = True
            if len(args) == len(r["args"]):
                r["next"] = [x if isinstance(x, tuple) or isinstance(y, tuple) else join(x, y)
                             for x, y in zip(r["next"], args)]
            if not r["res"].alts:
                raise Dead()
            return r["res"]
        # anchor
        args = list(args)
        r = self.rec[rkey] = {"used": False, "args": args, "next": list(args), "res": BOT}
        try:
            out = None
            for it in range(7):
                r["used"] = False
                s = st.copy()
                try:
                    res = self.run(fn, r["args"], kwargs, node, s)
                    out = s
                except Dead:
                    res = BOT
                if not r["used"]:
                    break
                newargs = [widen(x, join(x, y)) if it >= 2 else join(x, y) for x, y in zip(r["args"], r["next"])]
                newres = join(r["res"], res)
                if it >= 2:
                    newres = widen(r["res"], newres)
                if newargs == r["args"] and newres == r["res"]:
                    break
                r["args"], r["next"], r["res"] = newargs, newargs, newres
            else:
                if out is not None:
                    st.replace(out)
                return join(res, unk("recursion"))
            if out is None or not res.alts:
                raise Dead()
            st.replace(out)
            return res
        finally:
            del self.rec[rkey]

    def bind_args(self, fn, args, kwargs, node, st):
        fi = fn.fi
        a = fi.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = []
        star = None
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*":
                star = x[1] if star is None else join(star, x[1])
            elif star is not None:
                star = join(star, x)
            else:
                pos.append(x)
        for n, v in zip(names, pos):
            env[n] = v
        extra = pos[len(names):]
        kwargs = dict(kwargs)
        dstar = kwargs.pop("**", None)
        if star is not None:
            for n in names[len(pos):]:
                if n not in kwargs:
                    env[n] = star
        if a.vararg:
            if star is not None:
                el = join_all(extra + [star])
                env[a.vararg.arg] = mk(Seq("tuple", None, el, Num(len(extra), INF, INT), frozenset()))
            else:
                env[a.vararg.arg] = mk(Seq("tuple", tuple(extra), join_all(extra), num_const(len(extra)), frozenset()))
        elif extra:
            self.raise_("TypeError", node, st)
        kwnames = set(names) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kwargs.items():
            if k in kwnames:
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = mk(Map(tuple(rest.items()) if dstar is None else None,
                                      mk(Str(None)), join_all(list(rest.values()) + ([dstar] if dstar is not None else [])),
                                      num_const(len(rest)), self.fresh(node, "kw")))
        elif rest:
            self.raise_("TypeError", node, st)
        dfl = self.get_defaults(fn)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if dstar is not None:
                    env[n] = dstar
                elif n in dfl:
                    env[n] = dfl[n]
                else:
                    self.raise_("TypeError", node, st)
        return env

    def get_defaults(self, fn):
        fi = fn.fi
        key = (id(fi.node), fn.fid)
        d = self.defaults.get(key)
        if d is None:
            d = {}
            a = fi.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
            pairs += [(x.arg, e) for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None]
            for n, e in pairs:
                try:
                    v = self.eval_in_module(e, fi.module)
                except Dead:
                    v = unk("default")
                d[n] = add_roots(v, frozenset([("default", fi.qual, n)]))
            self.defaults[key] = d
        return d

    def run(self, fn, args, kwargs, node, st):
        fi = fn.fi
        env = self.bind_args(fn, args, kwargs, node, st)
        ctxkey = ("ctx", self.ctx(), id(node), id(fi.node), fn.fid)
        fid = self.intern(self.fids, ctxkey)
        self.parents[fid] = fn.fid
        pc = self.frames[-1].pc if self.frames else NOTAGS
        fr = Frame(fi, fid, fid, pc, self.frames[-1].gpc if self.frames else NOTAGS)
        st.envs[fid] = env
        st.owned.add(fid)
        self.analysed.add(fi.qual)
        if fi.is_gen:
            fr.yields = [BOT]
        self.frames.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                return note_shapes(self.eval(fi.node.body, st), bool(st.conds))
            end = self.exec_block(fi.node.body, st)
            res, out = BOT, None
            for v, s in fr.rets:
                res = join(res, v)
                out = join_states(out, s)
            if end is not None:
                res = join(res, const(None).tag(fr.pc)) if not fi.is_gen else res
                out = join_states(out, end)
            if out is None:
                raise Dead()
            if fi.is_gen:
                res = mk(Seq("iter", None, fr.yields[0], Num(0, INF, INT), self.fresh(node, "gen")))
            st.replace(out)
            return res
        finally:
            self.frames.pop()
            self._gc_frame(fid, st)

    def _gc_frame(self, fid, st):
        if fid not in self.keepfids:
            st.envs.pop(fid, None)
            st.owned.discard(fid)
        elif fid in st.envs:
            self.envstore[fid] = dict(st.envs[fid])


    # ------------------------------------------------------------ instances
    def instantiate(self, ci, args, kwargs, node, st, oid=None):
        names = [str(b).split(".")[-1] for b in self.prog.mro(ci) if not isinstance(b, ClassInfo)]
        if "TypedDict" in names:
            items = tuple(kwargs.items())
            return mk(Map(items, mk(Str(None)), join_all(kwargs.values()), num_const(len(items)), self.fresh(node)))
        if any(n in ("Enum", "IntEnum", "StrEnum") for n in names):
            return unk("enum")
        if any(n in ("Exception", "ValueError", "RuntimeError", "TypeError") for n in names):
            return unk("exception")
        if "NamedTuple" in names:
            vals = []
            for i, (n, ann, d) in enumerate(ci.fields):
                if i < len(args):
                    vals.append(args[i])
                elif n in kwargs:
                    vals.append(kwargs[n])
                else:
                    vals.append(self.eval_in_module(d, ci.module) if d is not None else unk("field"))
            return self.seq("tuple", vals, node, roots=frozenset())
        key = oid or ("obj", id(node), self.ctx(), ci.qual)
        if key in self.preexisting:
            # same abstract allocation site as an object that is already finished: a different, new object
            key = (*key, "again")
        a = Obj(key, ci)
        old = self.get_rec(st, key)
        if old is not None:
            st.heap[key] = Rec(ci, dict(old.attrs), True)
        else:
            st.heap[key] = Rec(ci, {}, False)
        st.howned.add(key)
        self.oidstore[key] = st.heap[key]
        saved = self.phase
        if self.phase == "op":
            self.phase = "construct"
        try:
            fm = self.prog.find_member(ci, "__init__")
            dcc = None
            for c in self.prog.mro(ci):
                if isinstance(c, ClassInfo):
                    if "__init__" in c.members:
                        break
                    if self.is_dataclass(c):
                        dcc = c
                        break
            if dcc is not None:
                self.dc_init(ci, a, list(args), dict(kwargs), node, st)
            elif fm is not None:
                kind, fv = self.member(fm[0], "__init__", fm[1])
                self.call(self.bind(fv, mk(a)), args, kwargs, node, st)
            elif args or kwargs:
                if not self.has_ext_base(ci):
                    self.raise_("TypeError", node, st)
        finally:
            self.phase = saved
        return mk(a)

    def dc_init(self, ci, a, args, kwargs, node, st):
        fields = self.dc_fields(ci)
        rec = st.rec(a.oid)
        names = list(fields)
        if len(args) > len(names):
            self.raise_("TypeError", node, st)
        for i, n in enumerate(names):
            owner, d, ann = fields[n]
            if i < len(args) and not isinstance(args[i], tuple):
                v = args[i]
            elif n in kwargs:
                v = kwargs[n]
            elif d is not None:
                v = self.dc_default(owner, n, d, node, st)
            else:
                self.raise_("TypeError", node, st)
            rec = st.rec(a.oid)
            if rec.many and n in rec.attrs:
                v = join(rec.attrs[n], v)
            rec.attrs[n] = v
        for k in kwargs:
            if k not in fields:
                self.raise_("TypeError", node, st)
        self.oidstore[a.oid] = rec
        pm = self.prog.find_member(ci, "__post_init__")
        if pm is not None:
            kind, fv = self.member(pm[0], "__post_init__", pm[1])
            self.call(self.bind(fv, mk(a)), [], {}, node, st)

    def dc_default(self, owner, n, d, node, st):
        if isinstance(d, ast.Call):
            try:
                f = self.eval_in_module(d.func, owner.module)
            except Dead:
                f = BOT
            e = f.one(Ext)
            if e is not None and e.path in ("dataclasses.field",):
                kw = {k.arg: k.value for k in d.keywords}
                if "default_factory" in kw:
                    fac = self.eval_in_module(kw["default_factory"], owner.module)
                    return self.call(fac, [], {}, node, st)
                if "default" in kw:
                    v = self.eval_in_module(kw["default"], owner.module)
                    return add_roots(v, frozenset([("default", owner.qual, n)]))
                return unk("field")
        key = ("dcdefault", owner.qual, n)
        if key not in self.members:
            try:
                self.members[key] = add_roots(self.eval_in_module(d, owner.module), frozenset([("default", owner.qual, n)]))
            except Dead:
                self.members[key] = unk("default")
        return self.members[key]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.exec_stmt(s, st)
            except Dead:
                return None
        return st

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unmodelled("stmt " + type(s).__name__, s)
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        m = self.frames[-1].fi.module
        for a in s.names:
            r = self.prog.resolve_import(m, s, a)
            self.bind_import(a, r, st)
        return st

    def s_ImportFrom(self, s, st):
        return self.s_Import(s, st)

    def bind_import(self, a, r, st):
        name = a.asname or a.name.split(".")[0]
        if r[0] == "module":
            v = mk(ModA(r[1]))
        elif r[0] == "name":
            v = self.lookup_global(r[1], r[2]) or unk("import")
        else:
            v = self.ext_value(r[1])
        st.env(self.frames[-1].fid)[name] = v

    def s_TypeAlias(self, s, st):
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        fi = self.fi_of(s, fr.fi.module, fr.fi.owner, f"{fr.fi.qual}.{s.name}")
        self.keepfids.add(fr.fid)
        fn = Fn(fi, fr.fid)
        # defaults evaluated now, in the enclosing scope
        d = {}
        a = s.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        pairs += [(x.arg, e) for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None]
        for n, e in pairs:
            d[n] = self.eval(e, st)
        self.defaults[(id(s), fr.fid)] = d
        v = mk(fn)
        for dec in reversed(s.decorator_list):
            dv = self.eval(dec, st)
            v = self.apply_dec_value(v, dv, dec, st)
        st.env(fr.fid)[s.name] = v
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        ci = self.prog.class_of(fr.fi.module, s)
        st.env(fr.fid)[s.name] = mk(Cls(ci))
        return st

    def s_Return(self, s, st):
        fr = self.frames[-1]
        v = self.eval(s.value, st) if s.value is not None else const(None)
        v = note_shapes(v, bool(st.conds))
        fr.rets.append((v.tag(fr.pc), st.copy()))
        return None

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.eval(t.value, st)
                self.eval(t.slice, st)
                self.mutate(roots_of(v), None, s, st, "del item")
            elif isinstance(t, ast.Name):
                st.env(self.frames[-1].fid).pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.eval(t.value, st)
                for a in v.only(Obj):
                    if a.oid in self.preexisting:
                        self.event("attrwrite", s, f"{a.cls.name}.{t.attr}", roots=frozenset([a.oid]), tags=frozenset([("p", "del")]))
        return st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        pc = self.frames[-1].pc
        if pc:
            v = v.tag(pc)
        for t in s.targets:
            self.assign(t, v, s, st)
            if self.in_loop():
                self.feedback(t, s.value, v, s)
        return st

    def feedback(self, t, e, v, s):
        """an integer that a loop keeps multiplying grows beyond any fixed width: x = x*b + y with a numpy integer"""
        n = v.num()
        if n is None or n.hi != INF or n.kinds & {"float", "complex"} or n.dt not in ("i64", "narrow"):
            return
        base = t.value if isinstance(t, ast.Subscript) else t
        if not isinstance(base, ast.Name) or any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mod, ast.BitAnd)) for x in ast.walk(e)):
            return
        for x in ast.walk(e):
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.LShift)):
                sides = (x.left,) if isinstance(x.op, ast.LShift) else (x.left, x.right)
                if any(isinstance(y, ast.Name) and y.id == base.id for side in sides for y in ast.walk(side)):
                    self.event("big-fixed", s, "a loop keeps multiplying an integer held in fixed-width arithmetic")
                    return

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st).tag(self.frames[-1].pc)
            self.assign(s.target, v, s, st)
        return st

    def assign(self, t, v, node, st):
        fr = self.frames[-1]
        if isinstance(t, ast.Name):
            if t.id in fr.fi.globals_:
                self.event("globalwrite", node, f"{fr.fi.module.name}.{t.id}", tags=v.tags, value=v)
                return
            if t.id in fr.fi.nonlocals:
                fid = self.parents.get(fr.fid)
                while fid is not None:
                    if t.id in st.envs.get(fid, {}):
                        e = st.env(fid)
                        e[t.id] = v
                        self.event("nonlocal", node, t.id, tags=v.tags)
                        break
                    fid = self.parents.get(fid)
                return
            st.env(fr.fid)[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr_v(o, t.attr, v, node, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            ops.setitem(self, o, i, v, node, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node, st)

    def unpack(self, elts, v, node, st):
        n = len(elts)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        cols = None
        for a in v.alts:
            items = ops.exact_items(self, mk(a, v.tags), node, st)
            if items is not None and not stars:
                if len(items) != n:
                    if len(v.alts) == 1:
                        self.raise_("ValueError", node, st)
                    continue
                vs = items
            elif items is not None and stars:
                k = stars[0]
                after = n - k - 1
                if len(items) < n - 1:
                    if len(v.alts) == 1:
                        self.raise_("ValueError", node, st)
                    continue
                mid = items[k:len(items) - after]
                vs = items[:k] + [self.seq("list", mid, node)] + items[len(items) - after:]
            else:
                el, ln, _ = ops.iter_elem(self, mk(a, v.tags), node, st)
                if ln is not None and not stars and (ln.lo > n or ln.hi < n):
                    if len(v.alts) == 1:
                        self.raise_("ValueError", node, st)
                    continue
                vs = [el] * n
                if stars:
                    vs[stars[0]] = self.lst("list", el, Num(0, INF, INT), node)
            cols = vs if cols is None else [join(x, y) for x, y in zip(cols, vs)]
        if cols is None:
            if v.alts:
                self.raise_("ValueError", node, st)
            raise Dead()
        for e, x in zip(elts, cols):
            self.assign(e.value if isinstance(e, ast.Starred) else e, x.tag(v.tags), node, st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, t, st)
            rhs = self.eval(s.value, st)
            new = self.augop(s.op, cur, rhs, s, st)
            self.assign(t, new.tag(self.frames[-1].pc), s, st)
            if isinstance(s.op, (ast.Mult, ast.LShift)) and self.in_loop():
                self.feedback(t, ast.BinOp(ast.Name(t.id, ast.Load()), s.op, s.value), new, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr_v(o, t.attr, t, st)
            rhs = self.eval(s.value, st)
            new = self.augop(s.op, cur, rhs, s, st)
            self.setattr_v(o, t.attr, new.tag(self.frames[-1].pc), s, st, aug=True)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            cur = ops.getitem(self, o, i, t, st)
            rhs = self.eval(s.value, st)
            new = self.augop(s.op, cur, rhs, s, st)
            ops.setitem(self, o, i, new.tag(self.frames[-1].pc), s, st)
        return st

    def augop(self, op, cur, rhs, node, st):
        """x op= y : in place for arrays / lists / sets / dicts, rebinding otherwise."""
        inplace = [a for a in cur.alts if isinstance(a, (Arr, Unk)) or (isinstance(a, (Seq, SetA, Map)) and a.key in ("list", "deque", "set", "dict"))]
        if not inplace:
            return self.binop(op, cur, rhs, node, st)
        res = BOT
        rest = [a for a in cur.alts if a not in inplace]
        if rest:
            try:
                res = self.binop(op, V(tuple(rest), cur.tags), rhs, node, st)
            except Dead:
                res = BOT
        for a in inplace:
            r = self.binop(op, mk(a, cur.tags), rhs, node, st, inplace=True)
            name = type(op).__name__
            if isinstance(a, Unk):
                if a.roots:
                    self.mutate(a.roots, None, node, st, f"augmented {name}", tags=r.tags)
                res = join(res, r)
                continue
            out = []
            for b in r.alts:
                if isinstance(b, Arr) and isinstance(a, Arr):
                    ops.inplace_cast(self, a, b.elem, node, f"augmented {name}")
                    el = ops.cast_elem_to(self, b.elem, a.elem)
                    self.mutate(a.roots, el, node, st, f"augmented {name}", tags=r.tags)
                    out.append(Arr(a.shape if a.shape is not None else b.shape, el, a.roots))
                elif isinstance(a, Seq) and isinstance(b, Seq):
                    self.mutate(a.roots, b.elem, node, st, f"augmented {name}", tags=r.tags, length=b.length)
                    out.append(Seq(a.kind, b.items, b.elem, b.length, a.roots, b.ex))
                elif isinstance(b, (SetA, Map)):
                    self.mutate(a.roots, getattr(b, "elem", None), node, st, f"augmented {name}", tags=r.tags)
                    out.append(with_roots(b, a.roots))
                else:
                    out.append(b)
            res = join(res, V(tuple(out), r.tags))
        if not res.alts:
            raise Dead()
        return res

    def split(self, test, st):
        """(state if true | None, state if false | None, cond V)"""
        saved, self.track = self.track, []
        try:
            v = self.eval(test, st)
            sized = bool(self.track) or SZ <= v.tags
        finally:
            outer, self.track = self.track, saved
            if saved is not None:
                saved.extend(outer)
        t = ops.truth(self, v, st)
        if self.frames:
            self.frames[-1].gpc = self.frames[-1].gpc | pc_of(v.tags)
        st_t = st_f = None
        if t is not False:
            st_t = st.copy()
            if t is None:
                try:
                    self.refine(test, st_t, True)
                except Dead:
                    st_t = None
        if t is not True:
            st_f = st.copy()
            if t is None:
                try:
                    self.refine(test, st_f, False)
                except Dead:
                    st_f = None
        if sized and st_t is not None and st_f is not None:
            c = frozenset([id(test)])
            st_t.conds, st_f.conds = st_t.conds | c, st_f.conds | c
        if t is None and (v.unk or ("unk",) in v.tags):
            why = next((a.why for a in v.alts if isinstance(a, Unk)), "tag")
            for s in (st_t, st_f):
                if s is not None:
                    s.imprecise = s.imprecise | frozenset([why])
        return st_t, st_f, v, t

    def s_If(self, s, st):
        fr = self.frames[-1]
        gpc = fr.gpc
        out = self.s_If_(s, st)
        names = guard_stores(s)
        if names is not None:
            ts = fr.gpc - gpc
            if names and out is not None and self.want_tags and ts:
                env = out.env(fr.fid)
                for n in names:
                    if isinstance(n, str):
                        if n in env:
                            env[n] = env[n].tag(ts)
                        continue
                    for a in env[n[0]].alts if n[0] in env else ():
                        rec = self.get_rec(out, a.oid) and out.rec(a.oid) if isinstance(a, Obj) else None
                        if rec is not None and n[1] in rec.attrs:
                            rec.attrs[n[1]] = rec.attrs[n[1]].tag(ts)
            fr.gpc = gpc
        return out

    def s_If_(self, s, st):
        st_t, st_f, v, t = self.split(s.test, st)
        fr = self.frames[-1]
        saved = fr.pc
        cond = pc_of(v.tags) if t is None else NOTAGS
        fr.pc = saved | cond
        nret, nl = len(fr.rets), self.loop_marks(fr)
        out_t = self.exec_block(s.body, st_t) if st_t is not None else None
        esc_t = len(fr.rets) > nret or self.loop_marks(fr) != nl
        mret, ml = len(fr.rets), self.loop_marks(fr)
        out_f = self.exec_block(s.orelse, st_f) if st_f is not None else None
        esc = len(fr.rets) > nret or self.loop_marks(fr) != nl
        # a branch that can only raise is a precondition, not a case distinction
        c = frozenset([id(s.test)])
        if out_t is None and not esc_t and out_f is not None:
            out_f.conds = out_f.conds - c
        if out_f is None and out_t is not None and (len(fr.rets), self.loop_marks(fr)) == (mret, ml):
            out_t.conds = out_t.conds - c
        fr.pc = saved | (cond if esc else NOTAGS)
        return join_states(out_t, out_f)

    def loop_marks(self, fr):
        if not fr.loops:
            return 0
        return len(fr.loops[-1][0]) + len(fr.loops[-1][1])

    def s_While(self, s, st):
        fr = self.frames[-1]
        saved = fr.pc
        entry = st
        head = st
        back = None
        exit_states = []
        for it in range(12):
            new = join_states(entry.copy(), back.copy() if back is not None else None)
            if it >= 3:
                new = self.widen_states(head, new)
            if it > 0 and states_equal(new, head):
                break
            head = new
            exits = []
            work = head.copy()
            try:
                st_t, st_f, v, t = self.split(s.test, work)
            except Dead:
                return None
            if t is None:
                fr.pc = fr.pc | pc_of(v.tags)
            if st_f is not None:
                exits.append((st_f, True))
            back = None
            if st_t is not None:
                fr.loops.append(([], []))
                end = self.exec_block(s.body, st_t)
                brk, cont = fr.loops.pop()
                back = end
                for c in cont:
                    back = join_states(back, c)
                exits += [(b, False) for b in brk]
            if back is None:
                break
        else:
            head.imprecise = head.imprecise | frozenset(["loop"])
        out = None
        for e, normal in exits:
            if normal and s.orelse:
                e = self.exec_block(s.orelse, e)
            out = join_states(out, e)
        if not any(True for r in fr.rets):
            pass
        fr.pc = saved | (fr.pc if len(fr.rets) else NOTAGS)
        return out

    def widen_states(self, a, b):
        s = State()

        def wmap(x, y):
            out = {}
            for k, v in y.items():
                out[k] = widen(x[k], v) if k in x and x[k] is not v else v
            return out
        s.envs = {k: (wmap(a.envs[k], e) if k in a.envs and a.envs[k] is not e else e) for k, e in b.envs.items()}
        s.heap = {k: (Rec(r.cls, wmap(a.heap[k].attrs, r.attrs), r.many) if k in a.heap and a.heap[k] is not r else r)
                  for k, r in b.heap.items()}
        s.facts, s.imprecise, s.conds = dict(b.facts), b.imprecise, b.conds
        b.owned, b.howned = set(), set()
        return s

    def batch_loop(self, ln, node):
        """batch symbols of an axis whose items this loop visits one by one"""
        if ln is None or ln.sym is None or not self.batch:
            return ()
        return {a for m, _ in ln.sym for a in m if a in self.batch}

    def carry(self, syms, fr, head, back, node):
        """Values handed from one item of a batch axis to the next one through a variable combine items of the axis."""
        env0, env = head.envs.get(fr.fid, {}), back.envs.get(fr.fid)
        if env is None:
            return
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        aug = {n.target.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        for k in list(env):
            v = env[k]
            if k not in env0 or k in targets:
                continue
            roots0 = frozenset(r for a in env0[k].alts for r in (getattr(a, "roots", None) or ()))
            inplace = bool(v.alts) and all(isinstance(a, (Arr, Seq, Map, SetA)) and getattr(a, "roots", None) and a.roots & roots0 for a in v.alts)
            if inplace and k not in aug:
                continue
            dep = ops.dtags(v)
            hit = [b for b in syms if ("it", b) in dep and ("mix", b, id(node)) not in dep]
            if hit:
                self.mix_site(node)
                t = frozenset(("mix", b, id(node)) for b in hit)
                env = back.env(fr.fid)
                env[k] = V(tuple(taint_elems(a, t) for a in v.alts), v.tags | t)

    def s_For(self, s, st):
        it_v = self.eval(s.iter, st)
        fr = self.frames[-1]
        saved = fr.pc
        items = ops.exact_items(self, it_v, s.iter, st)
        fr.gpc = fr.gpc | pc_of(it_v.tags)
        if items is not None and len(items) <= 6:
            out = None
            cur = st
            alive = True
            ctx0 = fr.ctx
            for i, x in enumerate(items):
                fr.loops.append(([], []))
                if i:
                    fr.ctx = self.intern(self.fids, ("unroll", ctx0, id(s), i))
                try:
                    self.assign(s.target, x.tag(it_v.tags), s, cur)
                    end = self.exec_block(s.body, cur)
                except Dead:
                    end = None
                fr.ctx = ctx0
                brk, cont = fr.loops.pop()
                for b in brk:
                    out = join_states(out, b)
                for c in cont:
                    end = join_states(end, c)
                cur = end
                if cur is None:
                    alive = False
                    break
            if alive and cur is not None:
                if s.orelse:
                    cur = self.exec_block(s.orelse, cur)
                out = join_states(out, cur)
            return out
        el, ln, ex = ops.iter_elem(self, it_v, s.iter, st)
        nret0 = len(fr.rets)
        el = el.tag(it_v.tags)
        trip = pc_of(it_v.tags)
        fr.gpc = fr.gpc | trip
        if any(isinstance(x, Seq) and x.kind == "range" for x in it_v.alts):
            trip = trip | pc_of(el.tags)
        fr.pc = fr.pc | trip                    # whether and how often the body runs depends on the iterable
        if it_v.unk:
            st.imprecise = st.imprecise | frozenset(["iter"])
        # a witness element whose iteration can only raise => the loop raises (if nothing leaves the loop earlier)
        if ex:
            for w in ex:
                s1 = st.copy()
                fr.loops.append(([], []))
                nret = len(fr.rets)
                try:
                    self.assign(s.target, w, s, s1)
                    end = self.exec_block(s.body, s1)
                except Dead:
                    end = None
                brk, cont = fr.loops.pop()
                dead = end is None and not brk and not cont and len(fr.rets) == nret
                del fr.rets[nret:]
                if dead:
                    # does any other iteration leave early?
                    s2 = st.copy()
                    fr.loops.append(([], []))
                    try:
                        self.assign(s.target, el, s, s2)
                        self.exec_block(s.body, s2)
                    except Dead:
                        pass
                    brk, cont = fr.loops.pop()
                    early = brk or len(fr.rets) > nret
                    if not early:
                        return None
        bsyms = self.batch_loop(ln, s)
        if bsyms:
            el = el.tag(frozenset(("it", b) for b in bsyms))
        entry, head, back = st, st, None
        brks = []
        if el.alts or (ln is None or ln.hi > 0):
            for it in range(12):
                new = join_states(entry.copy(), back.copy() if back is not None else None)
                if it >= 3:
                    new = self.widen_states(head, new)
                if it > 0 and states_equal(new, head):
                    break
                head = new
                work = head.copy()
                fr.loops.append(([], []))
                try:
                    self.assign(s.target, el, s, work)
                    end = self.exec_block(s.body, work)
                except Dead:
                    end = None
                brk, cont = fr.loops.pop()
                brks = brk
                for c in cont:
                    end = join_states(end, c)
                back = end
                if back is None:
                    break
                if bsyms:
                    self.carry(bsyms, fr, head, back, s)
            else:
                head.imprecise = head.imprecise | frozenset(["loop"])
        if ln is not None and ln.lo >= 1:
            exit_normal = back      # at least one iteration ran
        else:
            exit_normal = head
        out = None
        if exit_normal is not None:
            if s.orelse:
                exit_normal = self.exec_block(s.orelse, exit_normal)
            out = join_states(out, exit_normal)
        for b in brks:
            out = join_states(out, b)
        fr.pc = saved | (fr.pc if len(fr.rets) > nret0 else NOTAGS)
        return out

    def s_Break(self, s, st):
        self.frames[-1].loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1][1].append(st)
        return None

    def s_With(self, s, st):
        for item in s.items:
            v = self.eval(item.context_expr, st)
            if item.optional_vars is not None:
                r = v
                if v.only(Obj):
                    try:
                        m = self.getattr_v(v, "__enter__", s, st)
                        r = self.call(m, [], {}, s, st)
                    except Dead:
                        r = unk("with")
                self.assign(item.optional_vars, r, s, st)
        return self.exec_block(s.body, st)

    def exc_name(self, node, st):
        if node is None:
            return "Exception"
        n = node.func if isinstance(node, ast.Call) else node
        name = ast.unparse(n).split(".")[-1]
        if isinstance(n, ast.Name):
            fr = self.frames[-1]
            v = None
            try:
                v = self.load_name(n.id, n, st)
            except Dead:
                pass
            if v is not None:
                e = v.one(Ext)
                if e is not None and e.path.startswith("builtins."):
                    return e.path.split(".")[-1]
                c = v.one(Cls)
                if c is not None:
                    for b in self.prog.mro(c.ci):
                        if not isinstance(b, ClassInfo):
                            bn = str(b).split(".")[-1]
                            if bn in EXC_PARENTS:
                                return bn
                u = v.one(Unk)
                if u is not None and u.why.startswith("exc:"):
                    return u.why[4:]
        elif isinstance(node, ast.Call):
            pass
        return name

    def s_Raise(self, s, st):
        if s.exc is not None and isinstance(s.exc, ast.Call):
            for a in s.exc.args:
                try:
                    self.eval(a, st)
                except Dead:
                    return None
        name = self.exc_name(s.exc, st)
        if name not in EXC_PARENTS and s.exc is not None:
            # helper that builds the exception
            try:
                v = self.eval(s.exc, st)
                for a in v.alts:
                    if isinstance(a, Unk) and a.why.startswith("exc:"):
                        name = a.why[4:]
            except Dead:
                return None
        self.raise_(name, s, st)

    def s_Assert(self, s, st):
        st_t, st_f, v, t = self.split(s.test, st)
        if st_f is not None:
            fr = self.frames[-1]
            self.raises[-1].append(Raise("AssertionError", s, fr.fi.qual, st_f, fr.gpc))
        return st_t

    def s_Try(self, s, st):
        fr = self.frames[-1]
        self.raises.append([])
        before = st.copy()
        risk = self.keyrisk
        end = self.exec_block(s.body, st)
        caught = self.raises.pop()
        safe = self.keyrisk == risk
        out = None
        if end is not None and s.orelse:
            end = self.exec_block(s.orelse, end)
        out = end
        left = []
        states = {}
        for r in caught:
            for i, h in enumerate(s.handlers):
                names = []
                if h.type is None:
                    names = ["BaseException"]
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(e).split(".")[-1] for e in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split(".")[-1]]
                if any(exc_is(r.exc, n) or n in ("Exception", "BaseException") for n in names):
                    states[i] = join_states(states.get(i), r.st.copy())
                    break
            else:
                left.append(r)
        saved = fr.pc
        nret, nl = len(fr.rets), self.loop_marks(fr)
        # whether an exception occurs depends on what the body reads
        cond = frozenset()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in before.env(fr.fid):
                    cond = cond | pc_of(deep_tags(before.env(fr.fid)[n.id]))
        fr.pc = saved | cond
        fr.gpc = fr.gpc | cond
        for i, h in enumerate(s.handlers):
            if safe and i not in states and h.type is not None and ast.unparse(h.type).split(".")[-1] == "KeyError":
                continue        # every lookup of the body was seen and none may fail
            # implicit exceptions are possible too: any handler may run from the state before the body
            hs = join_states(states.get(i), before.copy())
            if h.name:
                nm = ast.unparse(h.type) if h.type is not None else "Exception"
                hs.env(fr.fid)[h.name] = unk("exc:" + nm)
            o = self.exec_block(h.body, hs)
            out = join_states(out, o)
        fr.pc = saved | (cond if len(fr.rets) > nret or self.loop_marks(fr) != nl else NOTAGS)
        self.raises[-1].extend(left)
        if s.finalbody:
            if out is not None:
                out = self.exec_block(s.finalbody, out)
            else:
                self.exec_block(s.finalbody, before.copy())
        return out

    s_TryStar = s_Try

    def s_Match(self, s, st):
        v = self.eval(s.subject, st)
        fr = self.frames[-1]
        fr.gpc = fr.gpc | pc_of(v.tags)
        saved = fr.pc
        out = None
        cur = st
        nret = len(fr.rets)
        for c in s.cases:
            if cur is None:
                break
            s1 = cur.copy()
            m = self.match(c.pattern, v, s1, s)     # True / False / None
            if m is False:
                continue
            if m is None:
                fr.pc = fr.pc | pc_of(v.tags)
            g = True
            s_else = None
            if c.guard is not None:
                try:
                    gt, gf, gv, g = self.split(c.guard, s1)
                except Dead:
                    gt, gf, g = None, None, None
                s_else = gf
                s1 = gt
            if s1 is not None:
                if isinstance(s.subject, ast.Name) and isinstance(c.pattern, ast.MatchValue):
                    pv = self.eval(c.pattern.value, s1)
                    cc = pv.one(Str) or pv.one(Num)
                    if cc is not None:
                        s1.env(fr.fid)[s.subject.id] = pv.tag(v.tags)
                out = join_states(out, self.exec_block(c.body, s1))
            if m is True and g is True:
                cur = None
            if m is True and g is not True and s_else is not None:
                cur = s_else
        out = join_states(out, cur)
        fr.pc = saved | (fr.pc if len(fr.rets) > nret else NOTAGS)
        return out

    def match(self, p, v, st, node):
        fr = self.frames[-1]
        if isinstance(p, ast.MatchAs):
            r = True
            if p.pattern is not None:
                r = self.match(p.pattern, v, st, node)
            if p.name and r is not False:
                st.env(fr.fid)[p.name] = v
            return r
        if isinstance(p, ast.MatchValue):
            pv = self.eval(p.value, st)
            return ops.truth(self, ops.compare(self, ast.Eq(), v, pv, node, st), st)
        if isinstance(p, ast.MatchSingleton):
            is_ = v.alts == const(p.value).alts
            may = any(a == const(p.value).alts[0] for a in v.alts)
            return True if is_ else (None if may else False)
        if isinstance(p, ast.MatchOr):
            rs = [self.match(q, v, st, node) for q in p.patterns]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if isinstance(p, ast.MatchSequence):
            items = ops.exact_items(self, v, node, st)
            if items is None:
                el, ln, _ = ops.iter_elem(self, v, node, st)
                for q in p.patterns:
                    self.match(q, el, st, node)
                return None
            if len(items) != len(p.patterns) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                return False if not any(isinstance(q, ast.MatchStar) for q in p.patterns) else None
            rs = [self.match(q, x, st, node) for q, x in zip(p.patterns, items)]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                st.env(fr.fid)[n.name] = unk("match")
        return None

    # ------------------------------------------------------------ refinement
    def refine(self, test, st, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.value, st, truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                for t in test.values:
                    self.refine(t, st, truth)
            else:
                # exactly one undetermined disjunct left: it must hold
                und = []
                for t in test.values:
                    s = st.copy()
                    try:
                        v = self.quiet_eval(t, s)
                    except Dead:
                        return
                    tv = ops.truth(self, v, s)
                    if tv is None:
                        und.append(t)
                    elif tv == truth:
                        return
                if len(und) == 1:
                    self.refine(und[0], st, truth)
                elif und:
                    outs = None
                    for t in und:
                        s = st.copy()
                        try:
                            self.refine(t, s, truth)
                        except Dead:
                            continue
                        outs = join_states(outs, s)
                    if outs is not None:
                        st.replace(outs)
                    else:
                        raise Dead()
            return
        if isinstance(test, ast.Compare):
            parts = list(zip([test.left] + test.comparators[:-1], test.ops, test.comparators))
            if truth:
                for l, o, r in parts:
                    self.refine_cmp(l, o, r, st, True)
            elif len(parts) == 1:
                self.refine_cmp(*parts[0], st, False)
            else:
                und = []
                for l, o, r in parts:
                    s = st.copy()
                    v = ops.compare(self, o, self.quiet_eval(l, s), self.quiet_eval(r, s), test, s)
                    tv = ops.truth(self, v, s)
                    if tv is False:
                        return
                    if tv is None:
                        und.append((l, o, r))
                outs = None
                for l, o, r in und:
                    s = st.copy()
                    try:
                        self.refine_cmp(l, o, r, s, False)
                    except Dead:
                        continue
                    outs = join_states(outs, s)
                if und:
                    if outs is None:
                        raise Dead()
                    st.replace(outs)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            v = self.quiet_eval(test.args[0], st)
            tv = self.quiet_eval(test.args[1], st)
            keep = []
            for a in v.alts:
                r = ops.isinstance_atom(self, a, tv)
                if isinstance(a, Num):
                    ks = frozenset(k for k in a.kinds
                                   if ops.isinstance_atom(self, Num(a.lo, a.hi, frozenset([k]), a.dt), tv) in ((True, None) if truth else (False, None)))
                    if ks:
                        keep.append(Num(a.lo, a.hi, ks, a.dt, a.nan, a.sym))
                    continue
                if r is None or r == truth:
                    keep.append(a)
            self.narrow(test.args[0], V(tuple(keep), v.tags), st)
            return
        if isinstance(test, (ast.Name, ast.Attribute)):
            v = self.quiet_eval(test, st)
            keep = []
            for a in v.alts:
                t = ops.truth(self, mk(a), st)
                if t is None or t == truth:
                    if isinstance(a, Num) and t is None:
                        if not truth:
                            a = Num(0, 0, a.kinds, a.dt, False, p_const(0))
                        elif a.lo == 0 and a.kinds <= {"int", "bool"}:
                            a = Num(1, a.hi, a.kinds, a.dt, a.nan, a.sym)
                    elif isinstance(a, Seq) and t is None and a.kind != "iter":
                        if truth:
                            a = Seq(a.kind, a.items, a.elem, Num(max(1, a.length.lo), a.length.hi, INT, sym=a.length.sym), a.roots, a.ex)
                        else:
                            a = Seq(a.kind, (), None, num_const(0), a.roots)
                    keep.append(a)
            self.narrow(test, V(tuple(keep), v.tags), st)

    def quiet_eval(self, e, st):
        self.raises.append([])
        try:
            return self.eval(e, st)
        finally:
            self.raises.pop()

    def narrow(self, e, v, st):
        """Rebind expression e (name / attribute path) to the narrowed value."""
        if not v.alts:
            raise Dead()
        if isinstance(e, ast.Name):
            fid = self.frames[-1].fid
            if e.id in st.envs.get(fid, {}):
                st.env(fid)[e.id] = v
            return
        if isinstance(e, ast.Attribute):
            try:
                o = self.quiet_eval(e.value, st)
            except Dead:
                return
            a = o.one(Obj)
            if a is not None:
                rec = self.get_rec(st, a.oid)
                if rec is not None and e.attr in rec.attrs and self.prog.find_member(a.cls, e.attr) is None:
                    st.rec(a.oid).attrs[e.attr] = v
                    return
            ar = o.one(Arr)
            if ar is not None and isinstance(e.value, ast.Name):
                n = v.num()
                if e.attr == "ndim" and n is not None and n.const is not None and ar.shape is None:
                    k = int(n.const)
                    if 0 <= k < 8:
                        self.narrow(e.value, V((Arr(tuple(Num(0, INF, INT) for _ in range(k)), ar.elem, ar.roots, ar.ex, ar.aux),), o.tags), st)
                if e.attr == "size" and n is not None and ar.shape is not None and len(ar.shape) == 1:
                    d = ar.shape[0]
                    nd = Num(max(d.lo, n.lo), min(d.hi, n.hi), INT, sym=d.sym)
                    if nd.lo > nd.hi:
                        raise Dead()
                    self.narrow(e.value, V((Arr((nd,), ar.elem, ar.roots, ar.ex, ar.aux),), o.tags), st)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            try:
                o = self.quiet_eval(e.args[0], st)
            except Dead:
                return
            n = v.num()
            if n is None:
                return
            out = []
            for a in o.alts:
                if isinstance(a, Seq):
                    lo, hi = max(a.length.lo, n.lo), min(a.length.hi, n.hi)
                    if lo > hi:
                        continue
                    out.append(Seq(a.kind, a.items, a.elem, Num(lo, hi, INT, sym=a.length.sym), a.roots, a.ex))
                else:
                    out.append(a)
            self.narrow(e.args[0], V(tuple(out), o.tags), st)

    NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def refine_cmp(self, l, op, r, st, truth):
        o = type(op)
        if not truth:
            o = self.NEG[o]
        try:
            lv = self.quiet_eval(l, st)
            rv = self.quiet_eval(r, st)
        except Dead:
            return
        if o in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq) and rv.alts == (NONE,):
            eq = o in (ast.Is, ast.Eq)
            keep = tuple(a for a in lv.alts if (a is NONE) == eq or isinstance(a, Unk))
            self.narrow(l, V(keep, lv.tags), st)
            return
        if o in (ast.In, ast.NotIn):
            items = ops.exact_items(self, rv, r, st) if not rv.only(SetA) else ops.set_items(rv)
            consts = None
            if items is not None and all(i.one(Str) and i.one(Str).consts and len(i.one(Str).consts) == 1 for i in items):
                consts = frozenset().union(*[i.one(Str).consts for i in items]) if items else frozenset()
                keep = []
                for a in lv.alts:
                    if isinstance(a, Str) and a.consts is not None:
                        k = a.consts & consts if o is ast.In else a.consts - consts
                        if k:
                            keep.append(Str(k))
                    elif isinstance(a, Str) and o is ast.In:
                        keep.append(Str(consts))
                    elif o is ast.In and not isinstance(a, (Str, Unk)):
                        continue
                    else:
                        keep.append(a)
                self.narrow(l, V(tuple(keep), lv.tags), st)
            elif items is not None and all(i.num() is not None and i.num().const is not None for i in items) and len(lv.alts) == 1 and lv.num():
                n = lv.num()
                cs = [i.num().const for i in items]
                if o is ast.In:
                    cs = [c for c in cs if n.lo <= c <= n.hi]
                    if not cs:
                        raise Dead()
                    self.narrow(l, V((Num(min(cs), max(cs), n.kinds, n.dt, False, None if len(cs) > 1 else p_const(cs[0]) if isinstance(cs[0], int) else None),), lv.tags), st)
                else:
                    lo, hi = n.lo, n.hi
                    if n.kinds <= {"int", "bool"}:
                        while lo in cs:
                            lo += 1
                        while hi in cs:
                            hi -= 1
                    if lo > hi:
                        raise Dead()
                    self.narrow(l, V((Num(lo, hi, n.kinds, n.dt, n.nan, n.sym),), lv.tags), st)
            return
        if o in (ast.Eq, ast.NotEq) and (lv.only(Str) or rv.only(Str)):
            for e, v, w in ((l, lv, rv), (r, rv, lv)):
                ws = w.one(Str)
                if ws is None or ws.consts is None or len(ws.consts) != 1:
                    continue
                keep = []
                for a in v.alts:
                    if isinstance(a, Str):
                        if o is ast.Eq:
                            k = ws.consts if a.consts is None else a.consts & ws.consts
                        else:
                            if a.consts is None:
                                keep.append(a)
                                continue
                            k = a.consts - ws.consts
                        if k:
                            keep.append(Str(k))
                    elif o is ast.Eq and not isinstance(a, Unk):
                        continue
                    else:
                        keep.append(a)
                self.narrow(e, V(tuple(keep), v.tags), st)
            return
        if o not in self.SWAP:
            return
        for e, oo, v, w in ((l, o, lv, rv), (r, self.SWAP[o], rv, lv)):
            a, b = v.num(), w.num()
            if a is None or b is None or len(w.alts) != 1 or b.bot:
                continue
            if len(v.alts) != 1 and oo is ast.NotEq:
                continue
            strict_int = a.kinds <= {"int", "bool"} and b.kinds <= {"int", "bool"}
            lo, hi = a.lo, a.hi
            if oo is ast.Lt:
                hi = min(hi, b.hi - 1 if strict_int else b.hi)
            elif oo is ast.LtE:
                hi = min(hi, b.hi)
            elif oo is ast.Gt:
                lo = max(lo, b.lo + 1 if strict_int else b.lo)
            elif oo is ast.GtE:
                lo = max(lo, b.lo)
            elif oo is ast.Eq:
                lo, hi = max(lo, b.lo), min(hi, b.hi)
            elif oo is ast.NotEq and b.const is not None and a.kinds <= {"int", "bool"}:
                if lo == b.const:
                    lo += 1
                if hi == b.const:
                    hi -= 1
            if lo > hi:
                raise Dead()
            if (lo, hi) != (a.lo, a.hi) or oo is ast.Eq:
                sym = a.sym
                if oo is ast.Eq and b.sym is not None and p_isconst(b.sym) is not None:
                    sym = b.sym
                na = Num(lo, hi, a.kinds, a.dt, a.nan and oo is ast.NotEq, sym)
                self.narrow(e, V(tuple(na if isinstance(x, Num) else x for x in v.alts), v.tags), st)
                if a.sym is not None and len(a.sym) == 1:
                    (mono, c), = a.sym
                    if c == 1 and len(mono) == 1 and isinstance(mono[0], tuple):
                        st.facts[mono[0]] = (lo, hi)
        # symbolic equality  p == q  with p a single size symbol: remember nothing more

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note_unmodelled("expr " + type(e).__name__, e)
            return unk("expr " + type(e).__name__)
        if self.track is not None and not self.track:
            v = m(e, st)
            for a in v.alts:
                if isinstance(a, Num) and a.sym is not None:
                    self.track.append(1)
            return v
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value) if not isinstance(e.value, bytes) else unk("bytes")

    def e_Name(self, e, st):
        return self.load_name(e.id, e, st)

    def e_Attribute(self, e, st):
        return self.getattr_v(self.eval(e.value, st), e.attr, e, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, e, st)
        return v

    def e_JoinedStr(self, e, st):
        tags = NOTAGS
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.raises.append([])
                try:
                    x = self.eval(v.value, st)
                    tags = tags | deep_tags(x)
                    if x.only(Obj):
                        from .builtins_ import str_tags
                        tags = tags | str_tags(self, x, "__repr__" if v.conversion == 114 else "__str__", v, st)
                except Dead:
                    pass
                finally:
                    self.raises.pop()
        return mk(Str(None), tags)

    def e_FormattedValue(self, e, st):
        self.eval(e.value, st)
        return mk(Str(None))

    def e_Tuple(self, e, st):
        return self.display("tuple", e, st)

    def e_List(self, e, st):
        return self.display("list", e, st)

    def display(self, kind, e, st):
        items, exact, el, lo = [], True, BOT, 0
        hi = 0
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = ops.exact_items(self, v, x, st)
                if it is None:
                    exact = False
                    ee, ln, _ = ops.iter_elem(self, v, x, st)
                    el = join(el, ee)
                    lo += ln.lo if ln is not None else 0
                    hi += ln.hi if ln is not None else INF
                    items.append(("*", v))
                else:
                    items += it
                    lo += len(it)
                    hi += len(it)
            else:
                v = self.eval(x, st)
                items.append(v)
                lo += 1
                hi += 1
        roots = frozenset() if kind == "tuple" else self.fresh(e)
        if exact:
            items = tuple(items)
            return mk(Seq(kind, items, join_all(items), num_const(len(items)), roots))
        for x in items:
            if not isinstance(x, tuple):
                el = join(el, x)
        # shapes are written as (*x.shape[:-1], k): keep the pieces for the shape model
        return mk(Seq(kind, None, el, Num(lo, hi, INT), roots))

    def e_Set(self, e, st):
        items = [self.eval(x, st) for x in e.elts]
        n = Num(1 if items else 0, len(items), INT)
        ks = [ops.const_key(x) for x in items]
        if items and all(k is not None for k in ks):
            cs = frozenset(k[0] for k in ks)
            return mk(SetA("set", join_all(items), num_const(len(cs)), self.fresh(e), cs))
        return mk(SetA("set", join_all(items), n, self.fresh(e)))

    def e_Dict(self, e, st):
        items, ok = [], True
        ks, vs = BOT, BOT
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if k is None:
                mv = vv.one(Map)
                if mv is not None and mv.items is not None:
                    items += list(mv.items)
                    ks, vs = jopt(ks, mv.k or BOT), jopt(vs, mv.v or BOT)
                else:
                    ok = False
                    for mm in vv.only(Map):
                        ks, vs = join(ks, mm.k or BOT), join(vs, mm.v or BOT)
                continue
            kk = self.eval(k, st)
            ks, vs = join(ks, kk), join(vs, vv)
            c = ops.const_key(kk)
            if c is None:
                ok = False
            else:
                items = [(a, b) for a, b in items if a != c[0]]
                items.append((c[0], vv))
        return mk(Map(tuple(items) if ok else None, ks, vs, num_const(len(items)) if ok else Num(0, INF, INT), self.fresh(e)))

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, e, st)

    def binop(self, op, a, b, node, st, inplace=False):
        return ops.binop(self, op, a, b, node, st, inplace)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        return ops.unop(self, e.op, v, e, st)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        res = BOT
        cur = st
        tags = NOTAGS
        states = None
        for i, x in enumerate(e.values):
            try:
                v = self.eval(x, cur)
            except Dead:
                if states is None:
                    raise
                break
            tags = tags | v.tags
            if i == len(e.values) - 1:
                res = join(res, v)
                states = join_states(states, cur)
                break
            t = ops.truth(self, v, cur)
            stop = (t is False) if is_and else (t is True)
            if stop:
                res = join(res, v)
                states = join_states(states, cur)
                break
            if t is None:
                # short-circuit value: the part of v with the stopping truth value
                keep = []
                for a in v.alts:
                    ta = ops.truth(self, mk(a), cur)
                    if ta is None or ta == (not is_and):
                        if isinstance(a, Num) and is_and:
                            a = Num(0, 0, a.kinds, a.dt, False, p_const(0))
                        keep.append(a)
                res = join(res, V(tuple(keep), v.tags))
                s2 = cur.copy()
                states = join_states(states, s2)
                if v.unk:
                    cur.imprecise = cur.imprecise
                nxt = cur.copy()
                try:
                    self.refine(x, nxt, is_and)
                except Dead:
                    break
                cur = nxt
        if states is not None and states is not st:
            st.replace(self.unrefine(st, states))
        if not res.alts:
            raise Dead()
        return res.tag(pc_of(tags))

    def unrefine(self, base, s):
        return s

    def e_IfExp(self, e, st):
        st_t, st_f, v, t = self.split(e.test, st)
        res, out = BOT, None
        for s, x in ((st_t, e.body), (st_f, e.orelse)):
            if s is None:
                continue
            try:
                r = self.eval(x, s)
            except Dead:
                continue
            res = join(res, r)
            out = join_states(out, s)
        if out is None:
            raise Dead()
        st.replace(out)
        return res.tag(pc_of(v.tags)) if t is None else res

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            c = ops.compare(self, op, left, right, e, st)
            if res is None:
                res = c
            else:
                t1, t2 = ops.truth(self, res, st), ops.truth(self, c, st)
                if t1 is False or t2 is False:
                    res = V(FALSE.alts, res.tags | c.tags)
                elif t1 is True and t2 is True:
                    res = V(TRUE.alts, res.tags | c.tags)
                else:
                    u = () if not (res.unk or c.unk) else (Unk("cmp"),)
                    res = V((Num(0, 1, BOOL),) + u, res.tags | c.tags)
            left = right
        return res

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        fi = self.fi_of(e, fr.fi.module, fr.fi.owner, f"{fr.fi.qual}.<lambda>")
        self.keepfids.add(fr.fid)
        if e.args.defaults or e.args.kw_defaults:
            d = {}
            names = [x.arg for x in e.args.posonlyargs + e.args.args]
            for n, x in zip(names[len(names) - len(e.args.defaults):], e.args.defaults):
                d[n] = self.eval(x, st)
            for a, x in zip(e.args.kwonlyargs, e.args.kw_defaults):
                if x is not None:
                    d[a.arg] = self.eval(x, st)
            self.defaults[(id(e), fr.fid)] = d
        return mk(Fn(fi, fr.fid))

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else const(None)
        fr = self.frames[-1]
        fr.yields[0] = join(fr.yields[0], v.tag(fr.pc))
        return unk("sent")

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        el, _, _ = ops.iter_elem(self, v, e, st)
        fr = self.frames[-1]
        fr.yields[0] = join(fr.yields[0], el)
        return unk("sent")

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Slice(self, e, st):
        f = lambda x: None if x is None else self.eval(x, st)
        return mk(SliceA(f(e.lower), f(e.upper), f(e.step)))

    def eval_index(self, e, st):
        return self.eval(e, st)

    def e_Subscript(self, e, st):
        v = self.eval(e.value, st)
        if v.one(Cls) is not None or (v.one(Ext) is not None and ops.is_type_ext(v.one(Ext))):
            return v
        i = self.eval_index(e.slice, st)
        return ops.getitem(self, v, i, e, st)

    def e_Call(self, e, st):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and self.load_name("super", fn, st).one(Ext):
            return self.make_super(e, st)
        if isinstance(fn, ast.Name) and fn.id in ("locals", "globals", "vars"):
            return unk(fn.id)
        fv = self.eval(fn, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = ops.exact_items(self, v, a, st)
                if it is not None:
                    args += it
                else:
                    el, ln, _ = ops.iter_elem(self, v, a, st)
                    args.append(("*", el.tag(v.tags), v))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                m = v.one(Map)
                if m is not None and m.items is not None:
                    for kk, vv in m.items:
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = (m.v if m is not None and m.v is not None else unk("**"))
            else:
                kwargs[k.arg] = v
        return self.call(fv, args, kwargs, e, st)

    def make_super(self, e, st):
        if e.args:
            c = self.eval(e.args[0], st).one(Cls)
            s = self.eval(e.args[1], st)
            if c is None:
                return unk("super")
            return mk(Super(s, c.ci))
        for fr in reversed(self.frames):
            if fr.fi.owner is not None and not isinstance(fr.fi.node, ast.Lambda):
                a = fr.fi.node.args
                names = [x.arg for x in a.posonlyargs + a.args]
                env = st.envs.get(fr.fid, {})
                # nested function: walk to the method frame
                if fr.fid is not None and self.parents.get(fr.fid) is None and names and names[0] in env:
                    return mk(Super(env[names[0]], fr.fi.owner))
        return unk("super")

    # comprehensions ------------------------------------------------
    def comp(self, gens, body, st, node):
        """body(st) -> V. Returns (elem V, length Num, ex, exact items|None)."""
        fid = self.frames[-1].fid
        saved = dict(st.envs.get(fid, {}))
        fr = self.frames[-1]
        pc0 = fr.pc
        self.iterdepth += 1
        try:
            return self._comp(gens, body, st, node)
        finally:
            self.iterdepth -= 1
            fr.pc = pc0
            e = st.env(fid)
            names = set()
            for g in gens:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            for n in names:
                if n in saved:
                    e[n] = saved[n]
                else:
                    e.pop(n, None)

    def _comp(self, gens, body, st, node):
        if not gens:
            v = body(st)
            return v, num_const(1), (v,), [v]
        g = gens[0]
        itv = self.eval(g.iter, st)
        if set_order(itv):
            self.so_gens.add(id(g))
        else:
            self.so_gens.discard(id(g))
        itv = unso(itv)
        items = ops.exact_items(self, itv, g.iter, st)
        if items is not None and len(items) <= 8:
            out, exact, el, lo, hi, ex = [], True, BOT, 0, 0, []
            fr = self.frames[-1]
            ctx0 = fr.ctx
            for i, x in enumerate(items):
                if i:
                    fr.ctx = self.intern(self.fids, ("unroll", ctx0, id(g), i))
                try:
                    r = self._comp_one(g, gens, body, st, node, x.tag(itv.tags))
                finally:
                    fr.ctx = ctx0
                if r is None:
                    continue
                e1, l1, x1, it1, cond = r
                el = join(el, e1)
                hi += l1.hi
                if cond is True:
                    lo += l1.lo
                    ex += x1
                    if it1 is None:
                        exact = False
                    else:
                        out += it1
                else:
                    exact = False
            return el, Num(lo, hi, INT, sym=p_const(lo) if lo == hi else None), tuple(ex)[:4], out if exact else None
        el, ln, exw = ops.iter_elem(self, itv, g.iter, st)
        if not el.alts:
            return BOT, num_const(0), (), []
        if itv.unk:
            st.imprecise = st.imprecise | frozenset(["iter"])
        ex = []
        for w in exw[:3]:
            s2 = st.copy()
            self.raises.append([])
            try:
                r = self._comp_one(g, gens, body, s2, node, w.tag(itv.tags))
            except Dead:
                # the witness element cannot be processed: the comprehension raises
                rs = self.raises.pop()
                self.raises.append([])
                if rs:
                    self.raises[-2].extend(rs)
                    raise Dead()
                continue
            finally:
                self.raises.pop()
            if r is not None and r[4] is True:
                ex += r[2]
        r = self._comp_one(g, gens, body, st, node, el.tag(itv.tags))
        if r is None:
            return BOT, num_const(0), (), []
        e1, l1, x1, it1, cond = r
        lo = ln.lo * l1.lo if ln is not None and cond is True else 0
        hi = (ln.hi if ln is not None else INF)
        hi = hi * l1.hi if l1.hi != 0 and hi != 0 else 0
        sym = ln.sym if (ln is not None and cond is True and l1.const == 1) else None
        if cond is True and l1.const == 1 and not ex and (ln is not None and ln.lo >= 1) and False:
            ex = [e1]
        return e1, Num(lo, hi, INT, sym=sym), tuple(ex)[:4], None

    def _comp_one(self, g, gens, body, st, node, x):
        """-> (elem, length, ex, items, cond) or None when filtered out."""
        fr = self.frames[-1]
        self.assign(g.target, x, node, st)
        cond = True
        cur = st
        for c in g.ifs:
            st_t, st_f, v, t = self.split(c, cur)
            if t is False or st_t is None:
                return None
            if t is None:
                cond = None
                fr.pc = fr.pc | pc_of(v.tags)
            cur = st_t
        r = self._comp(gens[1:], body, cur, node)
        if cur is not st:
            fid = fr.fid
            imp = cur.imprecise
            st.replace(join_states(st.copy(), cur))
        return (*r, cond)

    def e_ListComp(self, e, st):
        el, ln, ex, items = self.comp(e.generators, lambda s: self.eval(e.elt, s), st, e)
        if items is not None:
            return self.seq("list", items, e)
        return mk(Seq("list", None, el, ln, self.fresh(e), ex)).tag(self.so_tag(e) if any(id(g) in self.so_gens for g in e.generators) else NOTAGS)

    def so_tag(self, node):
        fr = self.frames[-1]
        return frozenset([("so", fr.fi.qual, f"{fr.fi.module.path}:{getattr(node, 'lineno', 0)}", ast.unparse(node))])

    def e_GeneratorExp(self, e, st):
        el, ln, ex, items = self.comp(e.generators, lambda s: self.eval(e.elt, s), st, e)
        if items is not None:
            return self.seq("iter", items, e)
        return mk(Seq("iter", None, el, ln, self.fresh(e), ex)).tag(self.so_tag(e) if any(id(g) in self.so_gens for g in e.generators) else NOTAGS)

    def e_SetComp(self, e, st):
        el, ln, ex, items = self.comp(e.generators, lambda s: self.eval(e.elt, s), st, e)
        ks = [ops.const_key(x) for x in items] if items is not None else [None]
        if ks and all(k is not None for k in ks):
            cs = frozenset(k[0] for k in ks)
            return mk(SetA("set", join_all(items), num_const(len(cs)), self.fresh(e), cs))
        return mk(SetA("set", el, Num(min(1, ln.lo), ln.hi, INT), self.fresh(e)))

    def e_DictComp(self, e, st):
        el, ln, ex, items = self.comp(
            e.generators, lambda s: self.seq("tuple", [self.eval(e.key, s), self.eval(e.value, s)], e, roots=frozenset()), st, e)
        return ops.dict_from_pairs(self, el, ln, items, e)


_None = _Single
