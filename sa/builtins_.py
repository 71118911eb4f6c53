"""Attribute access, builtins and standard library calls."""
import ast
import math

from .domain import *
from .model import ClassInfo
from . import ops

AMBIENT = ("time.", "datetime.", "os.", "random.", "secrets.", "uuid.", "socket.", "platform.", "getpass.", "tempfile.",
           "threading.", "locale.", "sys.argv", "sys.flags", "sys.stdin", "subprocess.", "pathlib.", "urllib.", "gc.",
           "inspect.", "resource.", "multiprocessing.")
AMBIENT_BUILTINS = ("id", "input", "open", "__import__", "globals", "locals", "exec", "eval", "compile", "breakpoint")

EXC_NAMES = ("ValueError", "TypeError", "KeyError", "IndexError", "ZeroDivisionError", "NotImplementedError", "RuntimeError",
             "Exception", "AssertionError", "StopIteration", "OverflowError", "ArithmeticError", "AttributeError",
             "LookupError", "Warning", "UserWarning", "DeprecationWarning", "RecursionError", "BaseException")

MUTATING = {
    "list": {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__"},
    "deque": {"append", "appendleft", "extend", "extendleft", "pop", "popleft", "remove", "clear", "rotate", "insert", "reverse"},
    "dict": {"update", "pop", "popitem", "clear", "setdefault", "__setitem__", "__delitem__"},
    "set": {"add", "update", "discard", "remove", "pop", "clear", "difference_update", "intersection_update",
            "symmetric_difference_update"},
    "bytearray": {"append", "extend"},
}
ANYMUT = set().union(*MUTATING.values()) | {"fill", "put", "partition", "resize", "itemset", "setflags", "byteswap"}


def retag(v, *vs):
    return v.tag(ops.dtags(*vs))


# ------------------------------------------------------------------ attributes
def getattr_atom(I, a, name, node, st, tags):
    from . import npm
    if isinstance(a, Arr):
        return npm.arr_attr(I, a, name, node, st, tags)
    if isinstance(a, Num):
        if name in ("real", "imag"):
            if "complex" in a.kinds:
                return mk(Num(-INF, INF, FLOAT, a.dt if a.dt != "py" else "py"), tags)
            return mk(a if name == "real" else Num(0, 0, a.kinds, a.dt), tags)
        if name in ("numerator",):
            return mk(a, tags)
        if name == "denominator":
            return const(1)
        if name in ("shape",):
            return const(())
        if name == "ndim":
            return const(0)
        if name == "size":
            return const(1)
        if name in ("dtype",):
            return npm.dtype_of(a)
        if name == "T":
            return mk(a, tags)
        return mk(Ext("num." + name, mk(a, tags)))
    if isinstance(a, Str):
        return mk(Ext("str." + name, mk(a, tags)))
    if isinstance(a, Seq):
        if a.kind == "range" and name in ("start", "stop", "step"):
            return unk("range." + name)
        if name not in SEQ_METHODS:
            if a.kind in ("list", "tuple"):
                I.raise_("AttributeError", node, st)
            return unk("attr " + name, tags)
        return mk(Ext("seq." + name, mk(a, tags)))
    if isinstance(a, Map):
        if a.items is not None and name in ("k", "v"):
            pass
        return mk(Ext("map." + name, mk(a, tags)))
    if isinstance(a, SetA):
        return mk(Ext("setm." + name, mk(a, tags)))
    if isinstance(a, Rng):
        if name == "bit_generator":
            I.event("draw", node, "bit_generator access", value=(mk(a), BOT, False, 0))
            return unk("bit_generator")
        return mk(Ext("rng." + name, mk(a)))
    if isinstance(a, Unk):
        if name in ANYMUT:
            return mk(Ext("unk." + name, mk(a, tags)))
        return unk(a.why, tags, a.roots)
    if isinstance(a, Partial):
        if a.style == "cfield" and name in ("real", "imag"):
            return unk("attr")
        if name == "func":
            return a.func
        return unk("partial attr")
    if isinstance(a, SliceA):
        return {"start": a.lo, "stop": a.hi, "step": a.step}.get(name) or const(None)
    if a is NONE:
        if name == "__class__":
            return unk("NoneType")
        I.raise_("AttributeError", node, st)
    return unk("attr " + name, tags)


SEQ_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "index", "count", "copy",
               "appendleft", "extendleft", "popleft", "rotate", "maxlen", "__iter__", "__len__", "__getitem__",
               "__next__", "__contains__", "__add__", "__mul__", "__class__", "tobytes", "rfind", "find", "hex", "decode",
               "startswith", "endswith", "join", "split", "close", "send", "throw", "_replace", "_asdict", "__eq__",
               "__setitem__", "__delitem__", "__hash__", "__reversed__"}


# ------------------------------------------------------------------ indexing
def norm_index(I, i):
    return i


def slice_len(I, n, s, st):
    """Length (Num) of n-long sequence sliced by SliceA."""
    step = s.step
    if step is not None and step.alts != (NONE,):
        k = step.num()
        if k is None or k.const is None:
            return Num(0, n.hi, INT)
        k = int(k.const)
        if k == -1 and nonev(s.lo) and nonev(s.hi):
            return n
        if k != 1:
            if k > 0 and nonev(s.lo) and nonev(s.hi):
                t = ops.num_binop(I, "FloorDiv", ops.num_binop(I, "Add", n, num_const(k - 1), st), num_const(k), st)
                return t
            if k > 0 and s.lo is not None and nonev(s.hi):
                l = s.lo.num()
                if l is not None and l.lo >= 0 and l.hi < k:
                    dv = p_divexact(n.sym, p_const(k)) if n.sym is not None else None
                    if dv is not None:
                        return ops.fin(I, st, Num(0, INF, INT, sym=dv))
            return Num(0, n.hi if n.hi == INF else (n.hi + k - 1) // k if k > 0 else n.hi, INT)
    lo = num_const(0) if nonev(s.lo) else s.lo.num()
    hi = n if nonev(s.hi) else s.hi.num()
    if lo is None or hi is None:
        return Num(0, n.hi, INT)
    lo2 = clip_index(I, lo, n, st)
    hi2 = clip_index(I, hi, n, st)
    d = ops.num_binop(I, "Sub", hi2, lo2, st)
    if d.lo < 0:
        t = ops.num_cmp(I, "LtE", lo2, hi2, st)
        if t is not True:
            d = Num(0, max(0, d.hi), INT)
        else:
            d = Num(0, max(0, d.hi), INT, sym=d.sym)
    return Num(d.lo, min(d.hi, n.hi), INT, sym=d.sym)


def nonev(v):
    return v is None or v.alts == (NONE,)


def clip_index(I, x, n, st):
    """Python slice-bound normalisation."""
    if x.hi < 0:
        y = ops.num_binop(I, "Add", n, x, st)
        if y.lo < 0:
            t = ops.num_cmp(I, "LtE", num_const(0), y, st)
            if t is not True:
                return Num(0, max(0, y.hi), INT)
            return Num(0, max(0, y.hi), INT, sym=y.sym)
        return y
    if x.lo < 0:
        return Num(0, n.hi, INT)
    t = ops.num_cmp(I, "LtE", x, n, st)
    if t is True:
        return Num(x.lo, min(x.hi, n.hi), INT, sym=x.sym)
    if ops.num_cmp(I, "LtE", n, x, st) is True:
        return n
    return Num(min(x.lo, n.lo), min(x.hi, n.hi), INT)


def getitem(I, v, i, node, st):
    res = BOT
    for a in v.alts:
        try:
            r = getitem_atom(I, a, i, node, st, v)
        except Dead:
            if len(v.alts) == 1:
                raise
            continue
        res = join(res, r)
    if not res.alts:
        raise Dead()
    return res.tag((v.tags | ops.dtags(i)) - {ops.BIG})       # 'big' belongs to the elements, not to the container or the index


def getitem_atom(I, a, i, node, st, v):
    from . import npm
    if isinstance(a, Arr):
        return npm.arr_getitem(I, a, i, node, st, v.tags)
    if isinstance(a, Seq):
        s = i.one(SliceA)
        if s is not None:
            return seq_slice(I, a, s, node, st)
        res = BOT
        for ia in i.alts:
            if isinstance(ia, Num):
                res = join(res, seq_at(I, a, ia, node, st))
            elif isinstance(ia, Unk):
                res = join(res, a.elem if a.elem is not None else unk("index"))
            elif isinstance(ia, Arr) and ia.shape == ():
                res = join(res, a.elem if a.elem is not None else unk("index"))
            elif len(i.alts) == 1:
                I.raise_("TypeError", node, st)
        if not res.alts:
            I.raise_("IndexError", node, st)
        return res
    if isinstance(a, Map):
        if a.items is not None:
            c = ops.const_key(i)
            if c is not None:
                for k, x in a.items:
                    if k == c[0]:
                        return x
                I.raise_("KeyError", node, st)
        if a.v is None or not a.v.alts:
            I.raise_("KeyError", node, st)
        I.maybe_raise("KeyError", node, st)
        return a.v
    if isinstance(a, Str):
        return mk(Str(None))
    if isinstance(a, Obj):
        if I.prog.find_member(a.cls, "__getitem__"):
            return I.call(I.getattr_obj(a, "__getitem__", node, st, NOTAGS), [i], {}, node, st)
        I.keyrisk += 1
        return unk("getitem obj")
    if isinstance(a, Unk):
        I.keyrisk += 1
        return unk(a.why, NOTAGS, a.roots)
    if isinstance(a, (Cls, Ext)):
        if isinstance(a, Ext) and a.path in ("numpy.r_", "numpy.c_", "numpy.s_", "numpy.mgrid", "numpy.ogrid", "numpy.index_exp"):
            return npm.index_trick(I, a.path, i, node, st)
        return mk(a)
    if isinstance(a, Num):
        if i.alts == (ELLIPSIS,) or i.one(Seq) is not None and i.one(Seq).items == ():
            return mk(a)
        if any(isinstance(x, SliceA) for x in i.alts):
            I.raise_("IndexError", node, st)
        if a.dt == "py":
            I.raise_("TypeError", node, st)
        return mk(a)
    if isinstance(a, SetA) or a is NONE or isinstance(a, Fn):
        I.raise_("TypeError", node, st)
    return unk("getitem")


def seq_at(I, a, n, node, st):
    if a.items is not None:
        L = len(a.items)
        if n.const is not None:
            k = int(n.const)
            if -L <= k < L:
                return a.items[k]
            I.raise_("IndexError", node, st)
        lo = max(-L, n.lo)
        hi = min(L - 1, n.hi)
        if lo > hi:
            I.raise_("IndexError", node, st)
        if L <= 64:
            return join_all([a.items[k] for k in range(int(lo), int(hi) + 1)])
        return a.elem
    if a.elem is None or not a.elem.alts:
        I.raise_("IndexError", node, st)
    if a.kind == "range" and a.ex and len(a.ex) == 1 and False:
        pass
    return a.elem


def seq_slice(I, a, s, node, st):
    ks = []
    exact = a.items is not None
    for x in (s.lo, s.hi, s.step):
        if nonev(x):
            ks.append(None)
        else:
            n = x.num()
            if n is None or n.const is None or len(x.alts) > 1:
                exact = False
                break
            ks.append(int(n.const))
    kind = a.kind if a.kind != "range" else "range"
    roots = frozenset() if kind in ("tuple", "range", "bytes") else I.fresh(node)
    if exact:
        it = a.items[slice(*ks)]
        return mk(Seq(kind, it, join_all(it), num_const(len(it)), roots))
    ln = slice_len(I, a.length, s, st)
    if a.items is not None:
        lo = s.lo.num() if not nonev(s.lo) else num_const(0)
        hi = s.hi.num() if not nonev(s.hi) else num_const(len(a.items))
    return mk(Seq(kind, None, a.elem, ln, roots))


def strong_or_weak(I, st, old, new_fn, weak_fn, node, what, tags):
    """In-place update of container atom `old`: aliases equal to it get new_fn, others sharing a root weak_fn."""
    def upd(x):
        if type(x) is not type(old):
            return x                # an alias has the same type
        if x == old:
            return new_fn(x)
        return weak_fn(x)
    I.mutate(old.roots, None, node, st, what, tags=tags, update=upd)


def weak_seq(a, el, lo_delta=0):
    return Seq(a.kind, None, jopt(a.elem, el), Num(max(0, a.length.lo), INF, INT), a.roots)


def setitem(I, v, i, val, node, st):
    from . import npm
    done = False
    tags = v.tags | ops.dtags(i) | ops.dtags(val) | I.frames[-1].pc
    for a in v.alts:
        if isinstance(a, Arr):
            npm.arr_setitem(I, a, i, val, node, st, tags, strong=len(v.alts) == 1)
            done = True
        elif isinstance(a, Seq):
            if a.kind in ("tuple", "range", "bytes"):
                if len(v.alts) == 1:
                    I.raise_("TypeError", node, st)
                continue
            done = True
            n = i.one(Num)
            if n is not None:
                if a.items is not None and n.const is not None:
                    k = int(n.const)
                    if not -len(a.items) <= k < len(a.items):
                        if len(v.alts) == 1:
                            I.raise_("IndexError", node, st)
                        continue
                    it = list(a.items)
                    it[k] = val
                    it = tuple(it)
                    strong_or_weak(I, st, a, lambda x: Seq(x.kind, it, join_all(it), x.length, x.roots),
                                   lambda x: weak_seq(x, val), node, "item assignment", tags)
                elif a.items is not None and len(a.items) <= 64:
                    it = tuple(join(x, val) for x in a.items)
                    strong_or_weak(I, st, a, lambda x: Seq(x.kind, it, join_all(it), x.length, x.roots),
                                   lambda x: weak_seq(x, val), node, "item assignment", tags)
                else:
                    strong_or_weak(I, st, a, lambda x: Seq(x.kind, None, jopt(x.elem, val), x.length, x.roots),
                                   lambda x: weak_seq(x, val), node, "item assignment", tags)
            else:
                el, ln, _ = ops.iter_elem(I, val, node, st)
                strong_or_weak(I, st, a, lambda x: weak_seq(x, el), lambda x: weak_seq(x, el), node, "slice assignment", tags)
        elif isinstance(a, Map):
            done = True
            c = ops.const_key(i)

            def f(x):
                items = None
                if x.items is not None and c is not None:
                    d = dict(x.items)
                    d[c[0]] = val
                    items = tuple(d.items()) if len(d) <= 64 else None
                ln = num_const(len(items)) if items is not None else Num(max(1, x.length.lo), x.length.hi + 1, INT)
                return Map(items, jopt(x.k, i), jopt(x.v, val), ln, x.roots)

            def w(x):
                return Map(None, jopt(x.k, i), jopt(x.v, val), Num(0, INF, INT), x.roots)
            strong_or_weak(I, st, a, f, w, node, "item assignment", tags)
        elif isinstance(a, Obj):
            if I.prog.find_member(a.cls, "__setitem__"):
                I.call(I.getattr_obj(a, "__setitem__", node, st, NOTAGS), [i, val], {}, node, st)
            done = True
        elif isinstance(a, Unk):
            done = True
            if a.roots:
                I.mutate(a.roots, None, node, st, "item assignment", tags=tags)
    if not done:
        I.raise_("TypeError", node, st)


# ------------------------------------------------------------------ calls
def plain(args):
    """Positional values with splats of unknown length kept as their element."""
    return [x[1] if isinstance(x, tuple) else x for x in args]


def call_ext(I, a, args, kwargs, node, st):
    from . import npm
    path = a.path
    I.extcalls[path] = I.extcalls.get(path, 0) + 1
    if path.startswith("numpy.") or path.startswith("scipy."):
        return npm.call_np(I, a, args, kwargs, node, st)
    if path.startswith("arr."):
        return npm.call_method(I, a, args, kwargs, node, st)
    if path.startswith("rng."):
        return npm.call_rng(I, a, args, kwargs, node, st)
    fn = TABLE.get(path)
    has_star = any(isinstance(x, tuple) for x in args)
    if path.startswith("unk."):
        u = a.recv.alts[0]
        name = path[4:]
        tags = ops.dtags(*args, *kwargs.values())
        if u.roots:
            I.mutate(u.roots, None, node, st, f".{name}() on an unmodelled value", tags=tags)
        return unk(u.why, tags | a.recv.tags, u.roots)
    if fn is not None and not has_star:
        return fn(I, a, list(args), kwargs, node, st)
    if fn is not None:
        if path in ("itertools.product", "builtins.zip", "builtins.map", "builtins.max", "builtins.min", "math.gcd", "math.lcm",
                    "builtins.print"):
            return fn(I, a, list(args), kwargs, node, st)
        try:
            return fn(I, a, plain(args), kwargs, node, st)
        except Dead:
            return unk("splat", ops.dtags(*args))
    if path.startswith("builtins."):
        name = path.split(".")[-1]
        if name in EXC_NAMES:
            return unk("exc:" + name)
        if name in AMBIENT_BUILTINS:
            I.event("ambient", node, name)
            return unk("ambient", frozenset([("ambient", name)]))
    if path.startswith(AMBIENT):
        I.event("ambient", node, path)
        return unk("ambient", frozenset([("ambient", path)]))
    if path.startswith(("typing.", "collections.abc.", "abc.")):
        return unk("typing")
    if path.startswith("map.") or path.startswith("setm.") or path.startswith("seq."):
        name = path.split(".")[-1]
        if name in ANYMUT:
            for x in a.recv.alts:
                I.mutate(getattr(x, "roots", frozenset()), None, node, st, f".{name}()")
        I.note_unmodelled(path, node)
        return unk(path, ops.dtags(a.recv, *args, *kwargs.values()))
    if path.startswith(("str.", "num.", "tqdm", "object.", "type.")):
        return unk(path, ops.dtags(*args))
    I.note_unmodelled(path, node)
    return unk(path, ops.dtags(*([a.recv] if a.recv is not None else []), *args, *kwargs.values()))


TABLE = {}


def ext(*paths):
    def d(f):
        for p in paths:
            TABLE[p] = f
        return f
    return d


def num1(v):
    return v.num()


def per_num(I, v, f, node, st, name):
    """Apply f(Num)->V to numeric alternatives."""
    res = BOT
    for a in v.alts:
        if isinstance(a, Num):
            try:
                res = join(res, f(a))
            except Dead:
                continue
        elif isinstance(a, Arr):
            if a.shape is not None and any(d.lo > 1 for d in a.shape):
                if len(v.alts) == 1:
                    I.raise_("TypeError", node, st)
                continue
            if a.elem.alts:
                res = join(res, per_num(I, a.elem, f, node, st, name))
        elif isinstance(a, Unk):
            res = join(res, unk(a.why))
        elif isinstance(a, Obj):
            res = join(res, obj_conv(I, a, name, node, st))
        elif isinstance(a, Str):
            res = join(res, unk("str->num"))
        elif len(v.alts) == 1:
            I.raise_("TypeError", node, st)
    if not res.alts:
        raise Dead()
    return res.tag(ops.dtags(v))


def obj_conv(I, a, name, node, st):
    for m in {"int": ("__int__", "__index__", "__trunc__"), "float": ("__float__", "__index__"), "abs": ("__abs__",),
              "index": ("__index__",), "complex": ("__complex__", "__float__"), "round": ("__round__",),
              "bin": ("__index__",)}.get(name, ()):
        if I.prog.find_member(a.cls, m):
            return I.call(I.getattr_obj(a, m, node, st, NOTAGS), [], {}, node, st)
    if I.has_ext_base(a.cls):
        return unk("conv")
    I.raise_("TypeError", node, st)


def round_event(I, v, node, what):
    tg = ops.dtags(v)
    ix = [t for t in tg if t[0] == "ix"]
    if what.split(".")[-1] in ("round", "around", "rint", "round()"):
        ix = [t for t in ix if t[2] != "log"]          # nearest integer of a log ratio recovers an exact power
    if ix and ("real",) not in tg:
        n = v.num()
        if n is None or "float" in n.kinds:
            I.event("round-inexact", node, what, tags=frozenset(ix))


@ext("builtins.int", "operator.index")
def b_int(I, a, args, kw, node, st):
    if not args:
        return const(0)
    if len(args) > 1 or kw:
        return mk(Num(-INF, INF, INT), ops.dtags(*args))
    round_event(I, args[0], node, "int()")

    def f(n):
        if n.bot and n.nan:
            I.raise_("ValueError", node, st)
        if n.kinds <= {"int", "bool"}:
            return mk(Num(n.lo, n.hi, INT, "py", False, n.sym))
        if n.lo == n.hi and abs(n.lo) == INF:
            I.raise_("OverflowError", node, st)
        if "complex" in n.kinds and n.kinds == CPLX:
            I.raise_("TypeError", node, st)
        lo = n.lo if abs(n.lo) == INF else math.trunc(n.lo)
        hi = n.hi if abs(n.hi) == INF else math.trunc(n.hi)
        return mk(num_iv(lo, hi))
    return per_num(I, args[0], f, node, st, "int")


@ext("builtins.float")
def b_float(I, a, args, kw, node, st):
    if not args:
        return const(0.0)

    def f(n):
        if n.kinds == CPLX:
            I.raise_("TypeError", node, st)
        return mk(Num(n.lo, n.hi, FLOAT, "py", n.nan, n.sym if n.sym is not None and p_isconst(n.sym) is not None else None))
    return per_num(I, args[0], f, node, st, "float")


@ext("builtins.complex")
def b_complex(I, a, args, kw, node, st):
    return mk(Num(-INF, INF, CPLX), ops.dtags(*args))


@ext("builtins.bool")
def b_bool(I, a, args, kw, node, st):
    if not args:
        return FALSE
    t = ops.truth(I, args[0], st)
    if t is None and args[0].unk:
        return V((Num(0, 1, BOOL), Unk("bool")), ops.dtags(args[0]))
    return ops.ub(t).tag(ops.dtags(args[0]))


@ext("builtins.str", "builtins.repr", "builtins.format", "builtins.chr", "builtins.ascii", "builtins.hex", "builtins.oct")
def b_str(I, a, args, kw, node, st):
    if args and args[0].one(Str) is not None and a.path == "builtins.str":
        return args[0]
    tags = ops.dtags(*args)
    if args and a.path in ("builtins.str", "builtins.repr", "builtins.format"):
        tags |= str_tags(I, args[0], "__repr__" if a.path == "builtins.repr" else "__str__", node, st)
    return mk(Str(None), tags)


def str_tags(I, v, m, node, st):
    """what the text of an object depends on"""
    tags = NOTAGS
    for x in v.only(Obj):
        for n in (m, "__repr__"):
            if I.prog.find_member(x.cls, n):
                try:
                    tags |= deep_tags(I.call(I.getattr_obj(x, n, node, st, NOTAGS), [], {}, node, st))
                except Dead:
                    pass
                break
    return tags


@ext("builtins.bin")
def b_bin(I, a, args, kw, node, st):
    per_num(I, args[0], lambda n: mk(n), node, st, "bin")
    return mk(Str(None), ops.dtags(*args))


@ext("builtins.ord")
def b_ord(I, a, args, kw, node, st):
    return mk(Num(0, 0x10FFFF, INT), ops.dtags(*args))


@ext("builtins.hash")
def b_hash(I, a, args, kw, node, st):
    x = args[0]
    hk = frozenset(("hk", y.kind if isinstance(y, Seq) else "str") for y in x.alts if isinstance(y, (Seq, Str)))
    unhashable(I, x, node, st)
    det = all(isinstance(y, Num) or y is NONE or (isinstance(y, Seq) and y.kind == "tuple" and hash_det(y)) for y in x.alts)
    if not det:
        objs = x.only(Obj)
        for o in objs:
            if I.prog.find_member(o.cls, "__hash__"):
                return I.call(I.getattr_obj(o, "__hash__", node, st, NOTAGS), [], {}, node, st)
        I.event("hash", node, "hash()", value=x)
    else:
        I.event("hash-det", node, "hash()", value=x)
        if len(x.alts) == 1 and isinstance(x.alts[0], Num) and x.alts[0].const is not None:
            return const(hash(x.alts[0].const)).tag(ops.dtags(x))      # the hash of a number is a function of the number
    tags = ops.dtags(x) | hk
    for y in x.only(Seq):
        for it in (y.items or ()):
            for o in it.only(Obj):
                if I.prog.find_member(o.cls, "__hash__"):
                    try:
                        tags |= deep_tags(I.call(I.getattr_obj(o, "__hash__", node, st, NOTAGS), [], {}, node, st))
                    except Dead:
                        pass
    return mk(Num(-INF, INF, INT), tags)


def unhashable(I, x, node, st):
    """hash() of something that has none always raises"""
    for y in x.alts:
        bad = isinstance(y, (Arr, Map)) or isinstance(y, (Seq, SetA)) and y.kind in ("list", "deque", "set", "dict")
        if isinstance(y, Seq) and y.kind == "tuple":
            for it in (y.items or ()):
                unhashable(I, it, node, st)
        if isinstance(y, Obj):
            f, e = I.prog.find_member(y.cls, "__hash__"), I.prog.find_member(y.cls, "__eq__")
            mro = I.prog.mro(y.cls)
            bad = e is not None and (f is None or mro.index(e[0]) < mro.index(f[0]))
        if bad and len(x.alts) == 1:
            I.raise_("TypeError", node, st)
        if bad:
            I.maybe_raise("TypeError", node, st)


def hash_det(s):
    for it in (s.items if s.items is not None else ([s.elem] if s.elem is not None else [])):
        for y in it.alts:
            if not (isinstance(y, Num) or y is NONE or isinstance(y, (Cls, Obj)) or (isinstance(y, Seq) and hash_det(y))):
                return False
    return True


@ext("builtins.abs", "operator.abs")
def b_abs(I, a, args, kw, node, st):
    from . import npm
    if any(isinstance(x, Arr) for x in args[0].alts):
        return npm.call_np(I, Ext("numpy.abs"), args, kw, node, st)
    return per_num(I, args[0], lambda n: mk(abs_num(n)), node, st, "abs")


def abs_num(n):
    if n.bot:
        return Num(n.lo, n.hi, n.kinds - CPLX or FLOAT, n.dt, n.nan)
    if "complex" in n.kinds:
        return Num(0, INF, (n.kinds - CPLX) | FLOAT, n.dt, n.nan)
    if n.lo >= 0:
        return n
    if n.hi <= 0:
        return Num(-n.hi, -n.lo, n.kinds, n.dt, n.nan, p_mul(n.sym, p_const(-1)) if n.sym is not None else None)
    return Num(0, max(-n.lo, n.hi), n.kinds, n.dt, n.nan)


@ext("builtins.round")
def b_round(I, a, args, kw, node, st):
    if len(args) > 1 or kw:
        return per_num(I, args[0], lambda n: mk(Num(n.lo - 1, n.hi + 1, n.kinds, n.dt, n.nan)), node, st, "round")
    round_event(I, args[0], node, "round()")

    def f(n):
        if n.kinds <= {"int", "bool"}:
            return mk(n)
        lo = n.lo if abs(n.lo) == INF else round(n.lo)
        hi = n.hi if abs(n.hi) == INF else round(n.hi)
        return mk(num_iv(lo, hi))
    return per_num(I, args[0], f, node, st, "round")


@ext("math.ceil", "math.floor", "math.trunc")
def m_ceil(I, a, args, kw, node, st):
    round_event(I, args[0], node, a.path)
    g = getattr(math, a.path.split(".")[1])

    def f(n):
        if n.bot and n.nan:
            I.raise_("ValueError", node, st)
        if n.kinds <= {"int", "bool"}:
            return mk(Num(n.lo, n.hi, INT, "py", False, n.sym))
        if n.lo == n.hi and abs(n.lo) == INF:
            I.raise_("OverflowError", node, st)
        lo = n.lo if abs(n.lo) == INF else g(n.lo)
        hi = n.hi if abs(n.hi) == INF else g(n.hi)
        return mk(num_iv(lo, hi))
    return per_num(I, args[0], f, node, st, "int")


LOGS = ("log", "log2", "log10")


def ln_tags(nm, tg, n, node):
    """tags of a transcendental function of an exact integer"""
    t = frozenset()
    if ("real",) not in tg and n is not None and n.kinds <= {"int", "bool"}:
        if nm in LOGS:
            t = t | {ops.LN}
        if nm != "log" and ops.big(n, tg):
            t = t | {("ix", id(node), "big")}
    return t


def mono(f, dlo=-INF, dhi=INF, exc=None, strict=False):
    def g(I, a, args, kw, node, st):
        tags = ln_tags(a.path.split(".")[-1], ops.dtags(*args), args[0].num(), node)

        def h(n):
            if n.bot:
                return mk(Num(n.lo, n.hi, FLOAT, "py", n.nan))
            lo, hi = max(n.lo, dlo), min(n.hi, dhi)
            if lo > hi or (strict and hi <= dlo):
                I.raise_(exc or "ValueError", node, st)

            def s(x, d):
                try:
                    return f(x)
                except (OverflowError, ValueError, ZeroDivisionError):
                    return d
            return mk(Num(s(lo, -INF), s(hi, INF), FLOAT, "py", n.nan))
        return per_num(I, args[0], h, node, st, "float").tag(tags)
    return g


def slog(base):
    def f(x):
        if x <= 0:
            raise ValueError
        if x == INF:
            return INF
        return math.log(x) if base is None else (math.log2(x) if base == 2 else math.log10(x))
    return f


TABLE["math.log2"] = mono(slog(2), 0, INF, strict=True)
TABLE["math.log10"] = mono(slog(10), 0, INF, strict=True)
TABLE["math.log1p"] = mono(lambda x: math.log1p(x) if x > -1 else -INF, -1, INF)
TABLE["math.sqrt"] = mono(lambda x: math.sqrt(x) if x < INF else INF, 0, INF)
TABLE["math.exp"] = mono(lambda x: 0.0 if x == -INF else math.exp(x))
TABLE["math.erfc"] = mono(lambda x: -x)
TABLE["math.erf"] = mono(math.erf)
TABLE["math.atan"] = mono(math.atan)
TABLE["math.tanh"] = mono(math.tanh)
TABLE["math.fabs"] = b_abs


@ext("math.erfc")
def m_erfc(I, a, args, kw, node, st):
    return per_num(I, args[0], lambda n: mk(Num(0.0, 2.0, FLOAT, "py", n.nan)), node, st, "float")


@ext("math.log")
def m_log(I, a, args, kw, node, st):
    if len(args) == 1:
        return mono(slog(None), 0, INF, strict=True)(I, a, args, kw, node, st)
    tg = ops.dtags(*args)
    n, b = args[0].num(), args[1].num()
    tags = tg
    if ("real",) not in tg and n is not None and n.kinds <= {"int", "bool"}:
        tags = tags | {("ix", id(node), "log")}
    if n is not None and b is not None and n.lo >= 1 and b.lo > 1:
        lo = 0.0
        hi = INF
        if n.lo > 1 and b.hi < INF:
            lo = math.log(n.lo) / math.log(b.hi)
        if n.hi < INF:
            hi = math.log(n.hi) / math.log(b.lo)
        return mk(Num(lo, hi, FLOAT), tags)
    if n is not None and n.hi <= 0 and len(args[0].alts) == 1:
        I.raise_("ValueError", node, st)
    return mk(Num(-INF, INF, FLOAT), tags)


@ext("math.sin", "math.cos")
def m_sin(I, a, args, kw, node, st):
    return mk(Num(-1.0, 1.0, FLOAT), ops.dtags(*args) | ops.REAL)


@ext("math.gamma", "math.tan", "math.asin", "math.acos", "math.atan2", "math.hypot", "math.pow", "math.lgamma", "math.sinh",
     "math.cosh", "math.fsum", "math.dist", "math.exp2", "math.expm1", "math.cbrt", "math.copysign", "math.fmod", "math.nextafter")
def m_float(I, a, args, kw, node, st):
    n = args[0].num()
    tags = ops.dtags(*args)
    if ("real",) not in tags and ops.big(n, tags):
        tags = tags | {("ix", id(node), "big")}
    lo = 0.0 if a.path in ("math.hypot", "math.dist", "math.cosh", "math.exp2") else -INF
    return mk(Num(lo, INF, FLOAT), tags)


@ext("math.isqrt")
def m_isqrt(I, a, args, kw, node, st):
    def f(n):
        if n.hi < 0:
            I.raise_("ValueError", node, st)
        lo = math.isqrt(int(max(0, n.lo))) if n.lo < INF else INF
        hi = math.isqrt(int(n.hi)) if n.hi < INF else INF
        return mk(num_iv(lo, hi))
    return per_num(I, args[0], f, node, st, "index")


@ext("math.comb", "math.perm")
def m_comb(I, a, args, kw, node, st):
    n, k = args[0].num(), args[1].num() if len(args) > 1 else num_const(0)
    if n is not None and k is not None and n.const is not None and k.const is not None and 0 <= n.const < 500 and k.const >= 0:
        return const(math.comb(int(n.const), int(k.const))).tag(ops.dtags(*args))
    lo = 1 if n is not None and k is not None and ops.num_cmp(I, "LtE", k, n, st) is True else 0
    return mk(Num(lo, INF, INT), ops.dtags(*args) | {ops.BIG, ("count",)})


@ext("math.factorial")
def m_fact(I, a, args, kw, node, st):
    return mk(Num(1, INF, INT), ops.dtags(*args) | {ops.BIG, ("count",)})


@ext("math.gcd", "math.lcm")
def m_gcd(I, a, args, kw, node, st):
    args = plain(args)
    ns = [x.num() for x in args]
    if all(n is not None and n.const is not None for n in ns):
        return const(getattr(math, a.path[5:])(*[int(n.const) for n in ns])).tag(ops.dtags(*args))
    hi = INF
    if a.path == "math.gcd":
        his = [n.hi for n in ns if n is not None and n.lo > 0]
        hi = min(his) if his else INF
    lo = 1 if any(n is not None and (n.lo > 0 or n.hi < 0) for n in ns) and a.path == "math.gcd" else 0
    return mk(Num(lo, hi, INT), ops.dtags(*args))


@ext("math.isclose", "math.isnan", "math.isinf", "math.isfinite")
def m_isclose(I, a, args, kw, node, st):
    nm = a.path[5:]
    n = args[0].num()
    if n is not None and len(args[0].alts) == 1:
        if nm == "isnan":
            if not n.nan and not n.bot:
                return FALSE
            if n.nan and n.bot:
                return TRUE
        if nm == "isinf" and not n.bot and not n.nan and (abs(n.lo) != INF and abs(n.hi) != INF):
            return FALSE
        if nm == "isfinite":
            if n.nan and n.bot:
                return FALSE
            if not n.bot and not n.nan and n.kinds <= {"int", "bool"}:
                return TRUE
            if n.lo == n.hi and abs(n.lo) == INF:
                return FALSE
    return BOOLTOP.tag(ops.dtags(*args))


@ext("math.prod", "builtins.sum")
def b_sum(I, a, args, kw, node, st):
    op = "Mult" if a.path == "math.prod" else "Add"
    start = kw.get("start", args[1] if len(args) > 1 else const(1 if op == "Mult" else 0))
    it = ops.exact_items(I, args[0], node, st)
    tags = ops.dtags(*args)
    if it is not None and len(it) <= 12:
        r = start
        for x in it:
            r = I.binop(op, r, x, node, st)
        return r.tag(tags)
    el, ln, ex = ops.iter_elem(I, args[0], node, st)
    if not el.alts or (ln is not None and ln.hi == 0):
        return start.tag(tags)
    n, s = el.one(Num), start.num()
    if n is not None and s is not None:
        ks = frozenset("int" if k == "bool" else k for k in n.kinds | s.kinds)
        if op == "Add":
            t = ops.num_binop(I, "Mult", Num(n.lo, n.hi, n.kinds, "py"), Num(ln.lo, ln.hi, INT), st)
            r = ops.num_binop(I, "Add", t, Num(s.lo, s.hi, s.kinds, "py"), st)
            lo, hi = r.lo, r.hi
            if n.lo >= 0 and ex:
                lo = max(lo, s.lo + max(w.num().lo for w in ex if w.num() is not None) if any(w.num() for w in ex) else lo)
            r = Num(lo, hi, ks, "py" if n.dt == "py" else n.dt, n.nan)
            if n.dt in ("narrow", "u8"):
                r = Num(lo, hi, ks, n.dt, n.nan)
                ops.check_narrow(I, "Add", r, node, n, n)
        else:
            if n.lo >= 1:
                r = Num(max(1, s.lo), INF if n.hi > 1 else s.hi, ks)
            elif n.lo >= 0 and s.lo >= 0:
                r = Num(0, INF if n.hi > 1 else s.hi, ks)
            else:
                r = Num(-INF, INF, ks)
        return mk(r, tags)
    # general: fixpoint of start + el
    r = start
    for _ in range(3):
        r2 = join(r, I.binop(op, r, el, node, st))
        if r2 == r:
            break
        r = widen(r, r2)
    return r.tag(tags)


@ext("builtins.len", "operator.length_hint")
def b_len(I, a, args, kw, node, st):
    res = BOT
    v = args[0]
    for x in v.alts:
        if isinstance(x, (Seq, SetA, Map)):
            if isinstance(x, Seq) and x.kind == "iter":
                I.raise_("TypeError", node, st)
            res = join(res, mk(x.length))
        elif isinstance(x, Arr):
            if x.shape is None:
                res = join(res, mk(Num(0, INF, INT)))
            elif x.shape == ():
                if len(v.alts) == 1:
                    I.raise_("TypeError", node, st)
            else:
                res = join(res, mk(x.shape[0]))
        elif isinstance(x, Str):
            if x.consts:
                res = join(res, join_all([const(len(s)) for s in x.consts]))
            else:
                res = join(res, mk(Num(0, INF, INT)))
        elif isinstance(x, Obj):
            if I.prog.find_member(x.cls, "__len__"):
                res = join(res, I.call(I.getattr_obj(x, "__len__", node, st, NOTAGS), [], {}, node, st))
            else:
                res = join(res, unk("len"))
        elif isinstance(x, Unk):
            res = join(res, V((Num(0, INF, INT), Unk("len"))))
        elif len(v.alts) == 1:
            I.raise_("TypeError", node, st)
    if not res.alts:
        raise Dead()
    # how long a list or set got depends on what decided the insertions
    grown = frozenset(t for x in v.alts if isinstance(x, (Seq, SetA, Map)) for t in deep_tags(mk(x)) if t[0] in ("p", "ps"))
    from . import npm
    own = npm.shape_tags(v.tags, v.alts[0]) if len(v.alts) == 1 and isinstance(v.alts[0], Arr) and v.alts[0].shape else v.tags
    return res.tag(own | SZ | grown)


@ext("builtins.range")
def b_range(I, a, args, kw, node, st):
    ns = []
    for x in args:
        n = x.num()
        if n is None:
            if not x.unk and not x.only(Obj):
                I.raise_("TypeError", node, st)
            n = Num(-INF, INF, INT)
        ns.append(Num(n.lo, n.hi, INT, "py", False, n.sym))
    tags = ops.dtags(*args)
    lo, hi, step = (num_const(0), ns[0], num_const(1)) if len(ns) == 1 else (ns[0], ns[1], ns[2] if len(ns) > 2 else num_const(1))
    if lo.const is not None and hi.const is not None and step.const is not None and step.const != 0:
        r = range(int(lo.const), int(hi.const), int(step.const))
        if len(r) <= 8:
            it = tuple(const(i) for i in r)
            return mk(Seq("range", it, join_all(it) if it else None, num_const(len(it)), frozenset(), it), tags)
        el = mk(num_iv(min(r[0], r[-1]), max(r[0], r[-1])))
        return mk(Seq("range", None, el, num_const(len(r)), frozenset(), (const(r[0]), const(r[-1]))), tags)
    if step.const == 0 and len(ns) == 3:
        I.raise_("ValueError", node, st)
    if step.const == 1:
        ln = ops.num_binop(I, "Sub", hi, lo, st)
        if ln.lo < 0:
            if ops.num_cmp(I, "LtE", lo, hi, st) is True:
                ln = Num(0, max(0, ln.hi), INT, sym=ln.sym)
            else:
                ln = Num(0, max(0, ln.hi), INT)
        e = Num(lo.lo, hi.hi - 1, INT)
        ex = ()
        if ln.lo >= 1:
            ex = (mk(lo), mk(ops.num_binop(I, "Sub", hi, num_const(1), st)))
        el = mk(e) if e.lo <= e.hi else BOT
        if not el.alts:
            return mk(Seq("range", (), None, num_const(0), frozenset()), tags)
        return mk(Seq("range", None, el, ln, frozenset(), ex), tags)
    if step.lo > 0:
        ln = Num(0, INF if hi.hi == INF or lo.lo == -INF else max(0, -(-(hi.hi - lo.lo) // max(1, step.lo))), INT)
        if ops.num_cmp(I, "Lt", lo, hi, st) is True:
            ln = Num(1, max(1, ln.hi), INT)
        if lo.const == 0 and hi.sym is not None and step.sym is not None:
            d = p_divexact(hi.sym, step.sym)
            if d is not None:
                ln = ops.fin(I, st, Num(0, INF, INT, sym=d))
        e = Num(lo.lo, hi.hi - 1, INT)
        el = mk(e) if e.lo <= e.hi else BOT
    elif step.hi < 0:
        e = Num(hi.lo + 1, lo.hi, INT)
        el = mk(e) if e.lo <= e.hi else BOT
        ln = Num(0, INF if hi.lo == -INF or lo.hi == INF else max(0, lo.hi - hi.lo), INT)
        if step.const == -1:
            d = ops.num_binop(I, "Sub", lo, hi, st)
            if d.lo >= 0 or ops.num_cmp(I, "LtE", hi, lo, st) is True:
                ln = Num(max(0, d.lo), d.hi, INT, sym=d.sym)
    else:
        el, ln = mk(Num(-INF, INF, INT)), Num(0, INF, INT)
    if not el.alts:
        return mk(Seq("range", (), None, num_const(0), frozenset()), tags)
    return mk(Seq("range", None, el, ln, frozenset()), tags)


def conv_seq(kind):
    def f(I, a, args, kw, node, st):
        roots = frozenset() if kind in ("tuple",) else I.fresh(node)
        if not args:
            mx = kw.get("maxlen")
            return mk(Seq(kind, (), None, num_const(0), roots))
        v = args[0]
        it = ops.exact_items(I, v, node, st)
        if it is not None:
            it = tuple(it)
            return mk(Seq(kind, it, join_all(it) if it else None, num_const(len(it)), roots), v.tags)
        el, ln, ex = ops.iter_elem(I, v, node, st)
        r = mk(Seq(kind, None, el if el.alts else None, ln, roots, ex), v.tags)
        if kind != "deque" and any(isinstance(x, SetA) and x.length.hi > 1 for x in v.alts):
            r = r.tag(I.so_tag(node))
        if v.unk:
            r = join(r, unk(next(x.why for x in v.alts if isinstance(x, Unk)), v.tags))
        return r
    return f


TABLE["builtins.list"] = conv_seq("list")
TABLE["builtins.tuple"] = conv_seq("tuple")
TABLE["collections.deque"] = conv_seq("deque")


@ext("builtins.iter")
def b_iter(I, a, args, kw, node, st):
    v = args[0]
    if len(args) > 1:
        return unk("iter2")
    out = BOT
    for x in v.alts:
        if isinstance(x, Seq) and x.kind == "iter":
            out = join(out, mk(x))
            continue
        it = ops.exact_items(I, mk(x), node, st)
        if it is not None:
            out = join(out, mk(Seq("iter", tuple(it), join_all(it) if it else None, num_const(len(it)), I.fresh(node))))
        else:
            el, ln, ex = ops.iter_elem(I, mk(x), node, st)
            out = join(out, mk(Seq("iter", None, el if el.alts else None, ln, I.fresh(node), ex)))
    return out.tag(v.tags)


@ext("builtins.next")
def b_next(I, a, args, kw, node, st):
    v = args[0]
    res = BOT
    for x in v.alts:
        if isinstance(x, Seq) and x.kind == "iter":
            if x.items is not None:
                if not x.items:
                    if len(args) > 1:
                        res = join(res, args[1])
                    elif len(v.alts) == 1:
                        I.raise_("StopIteration", node, st)
                    continue
                res = join(res, x.items[0])
                rest = x.items[1:]
                strong_or_weak(I, st, x, lambda y: Seq("iter", rest, join_all(rest) if rest else None, num_const(len(rest)), y.roots),
                               lambda y: Seq("iter", None, y.elem, Num(0, y.length.hi, INT), y.roots), node, "next()", NOTAGS)
            else:
                if x.elem is not None:
                    res = join(res, x.elem)
                if x.length.lo < 1:
                    if len(args) > 1:
                        res = join(res, args[1])
                    else:
                        I.maybe_raise("StopIteration", node, st)
                strong_or_weak(I, st, x, lambda y: Seq("iter", None, y.elem, Num(max(0, y.length.lo - 1), y.length.hi, INT), y.roots),
                               lambda y: Seq("iter", None, y.elem, Num(0, y.length.hi, INT), y.roots), node, "next()", NOTAGS)
        elif isinstance(x, Unk):
            res = join(res, unk(x.why))
        elif isinstance(x, Obj) and I.prog.find_member(x.cls, "__next__"):
            res = join(res, I.call(I.getattr_obj(x, "__next__", node, st, NOTAGS), [], {}, node, st))
        elif len(v.alts) == 1:
            I.raise_("TypeError", node, st)
    if not res.alts:
        raise Dead()
    return res.tag(v.tags)


def set_like(kind):
    def f(I, a, args, kw, node, st):
        if not args:
            return mk(SetA(kind, None, num_const(0), I.fresh(node)))
        v = args[0]
        it = ops.exact_items(I, v, node, st)
        el, ln, ex = ops.iter_elem(I, v, node, st)
        s = v.one(Seq)
        if it is None and s is not None and s.kind == "range" and s.length.const is not None and 2 <= s.length.const <= 64 \
                and s.ex and len(s.ex) == 2 and all(x.num() is not None and x.num().const is not None for x in s.ex):
            x, y = (int(z.num().const) for z in s.ex)
            cs = frozenset(range(x, y + (1 if y > x else -1), (y - x) // (int(s.length.const) - 1)))
            return mk(SetA(kind, el, s.length, I.fresh(node), cs), v.tags)
        if it is not None:
            ks = [ops.const_key(x) for x in it]
            if all(k is not None for k in ks):
                cs = frozenset(k[0] for k in ks)
                return mk(SetA(kind, join_all(it) if it else None, num_const(len(cs)), I.fresh(node), cs), v.tags)
            # duplicates known?
            d = len(it)
            same = len(it) > 1 and len(set(map(lambda x: x.alts, it))) < len(it)
            return mk(SetA(kind, el, Num(min(1, d), d, INT), I.fresh(node)), v.tags)
        if any(isinstance(x, SetA) for x in v.alts) and len(v.alts) == 1:
            return mk(SetA(kind, el if el.alts else None, ln, I.fresh(node)), v.tags)
        if v.one(Seq) is not None and v.one(Seq).kind == "range":
            return mk(SetA(kind, el, ln, I.fresh(node)), v.tags)
        if v.one(Map) is not None:
            return mk(SetA(kind, el if el.alts else None, ln, I.fresh(node)), v.tags)
        r = mk(SetA(kind, el if el.alts else None, Num(min(1, ln.lo), ln.hi, INT), I.fresh(node)), v.tags)
        return r
    return f


TABLE["builtins.set"] = set_like("set")
TABLE["builtins.frozenset"] = set_like("frozenset")


@ext("builtins.dict", "collections.OrderedDict")
def b_dict(I, a, args, kw, node, st):
    if args:
        m = args[0].one(Map)
        if m is not None:
            r = mk(Map(m.items, m.k, m.v, m.length, I.fresh(node)), args[0].tags)
        else:
            it = ops.exact_items(I, args[0], node, st)
            el, ln, _ = ops.iter_elem(I, args[0], node, st)
            r = ops.dict_from_pairs(I, el, ln, it, node)
    else:
        r = mk(Map((), None, None, num_const(0), I.fresh(node)))
    kw = {k: v for k, v in kw.items() if k != "**"}
    if kw:
        m = r.one(Map)
        items = None
        if m.items is not None:
            d = dict(m.items)
            d.update(kw)
            items = tuple(d.items())
        r = mk(Map(items, jopt(m.k, mk(Str(frozenset(kw)))), jopt(m.v, join_all(kw.values())),
                   num_const(len(items)) if items is not None else Num(1, INF, INT), m.roots), r.tags)
    return r


@ext("collections.Counter")
def b_counter(I, a, args, kw, node, st):
    if not args:
        return mk(Map((), None, None, num_const(0), I.fresh(node)))
    el, ln, _ = ops.iter_elem(I, args[0], node, st)
    if args[0].one(Map):
        m = args[0].one(Map)
        return mk(Map(None, m.k, m.v, m.length, I.fresh(node)), args[0].tags)
    return mk(Map(None, el, mk(Num(1, ln.hi, INT)), Num(min(1, ln.lo), ln.hi, INT), I.fresh(node)), args[0].tags)


@ext("collections.defaultdict")
def b_defaultdict(I, a, args, kw, node, st):
    d = BOT
    if args and args[0].alts != (NONE,):
        d = I.call(args[0], [], {}, node, st)
    return mk(Map(None, BOT, d, Num(0, INF, INT), I.fresh(node)))


@ext("builtins.enumerate")
def b_enum(I, a, args, kw, node, st):
    start = kw.get("start", args[1] if len(args) > 1 else const(0))
    s = start.num() or Num(-INF, INF, INT)
    v = args[0]
    it = ops.exact_items(I, v, node, st)
    if it is not None:
        out = [I.seq("tuple", [mk(ops.num_binop(I, "Add", s, num_const(k), st)), x], node, roots=frozenset()) for k, x in enumerate(it)]
        return I.seq("iter", out, node).tag(v.tags)
    el, ln, ex = ops.iter_elem(I, v, node, st)
    if not el.alts:
        return I.seq("iter", [], node)
    idx = Num(s.lo, s.hi + ln.hi - 1, INT)
    e = I.seq("tuple", [mk(idx), el], node, roots=frozenset())
    exs = tuple(I.seq("tuple", [mk(idx), w], node, roots=frozenset()) for w in ex)
    return mk(Seq("iter", None, e, ln, I.fresh(node), exs), v.tags)


@ext("builtins.zip")
def b_zip(I, a, args, kw, node, st):
    tags = ops.tags_of(*args)
    if any(isinstance(x, tuple) for x in args):
        el = join_all([ops.iter_elem(I, x[1] if isinstance(x, tuple) else x, node, st)[0] for x in args])
        t = mk(Seq("tuple", None, el, Num(0, INF, INT), frozenset()))
        return mk(Seq("iter", None, t, Num(0, INF, INT), I.fresh(node)), tags)
    its = [ops.exact_items(I, x, node, st) for x in args]
    if all(i is not None for i in its):
        strict = kw.get("strict")
        return I.seq("iter", [I.seq("tuple", list(t), node, roots=frozenset()) for t in zip(*its)], node).tag(tags)
    els = [ops.iter_elem(I, x, node, st) for x in args]
    ln = None
    for (e, l, x) in els:
        if ln is None:
            ln = l
        elif l.sym is not None and l.sym == ln.sym:
            pass
        else:
            ln = Num(min(ln.lo, l.lo), min(ln.hi, l.hi), INT)
    if any(not e.alts for e, _, _ in els) or ln is None:
        return I.seq("iter", [], node)
    t = I.seq("tuple", [e for e, _, _ in els], node, roots=frozenset())
    return mk(Seq("iter", None, t, ln, I.fresh(node)), tags)


@ext("builtins.map")
def b_map(I, a, args, kw, node, st):
    f, rest = args[0], args[1:]
    tags = ops.tags_of(*rest)
    rest = [x for x in rest if not isinstance(x, tuple)]
    if not rest:
        return mk(Seq("iter", None, unk("map"), Num(0, INF, INT), I.fresh(node)))
    its = [ops.exact_items(I, x, node, st) for x in rest]
    if all(i is not None and len(i) <= 8 for i in its):
        out = [I.call(f, list(t), {}, node, st) for t in zip(*its)]
        return I.seq("iter", out, node).tag(tags)
    els = [ops.iter_elem(I, x, node, st) for x in rest]
    if any(not e.alts for e, _, _ in els):
        return I.seq("iter", [], node)
    ln = els[0][1]
    ex = []
    if len(rest) == 1:
        for w in els[0][2][:3]:
            s2 = st.copy()
            I.raises.append([])
            try:
                ex.append(I.call(f, [w], {}, node, s2))
            except Dead:
                rs = I.raises.pop()
                I.raises.append([])
                if rs:
                    I.raises[-2].extend(rs)
                    raise
            finally:
                I.raises.pop()
    r = I.call(f, [e for e, _, _ in els], {}, node, st)
    if len(rest) > 1:
        for e, l, x in els[1:]:
            ln = ln if l.sym is not None and l.sym == ln.sym else Num(min(ln.lo, l.lo), min(ln.hi, l.hi), INT)
    return mk(Seq("iter", None, r, ln, I.fresh(node), tuple(ex)), tags)


@ext("builtins.filter")
def b_filter(I, a, args, kw, node, st):
    el, ln, ex = ops.iter_elem(I, args[1], node, st)
    if el.alts and args[0].alts != (NONE,):
        r = I.call(args[0], [el], {}, node, st)
        el = el.tag(ops.dtags(r))
    return mk(Seq("iter", None, el, Num(0, ln.hi, INT), I.fresh(node)), args[1].tags)


@ext("builtins.reversed")
def b_reversed(I, a, args, kw, node, st):
    v = args[0]
    it = ops.exact_items(I, v, node, st)
    if it is not None:
        return I.seq("iter", list(reversed(it)), node).tag(v.tags)
    el, ln, ex = ops.iter_elem(I, v, node, st)
    return mk(Seq("iter", None, el, ln, I.fresh(node), ex), v.tags)


def call_keys(I, kw, el, node, st):
    k = kw.get("key")
    if k is not None and k.alts != (NONE,) and el.alts:
        try:
            return I.call(k, [el], {}, node, st)
        except Dead:
            return None
    return None


@ext("builtins.sorted")
def b_sorted(I, a, args, kw, node, st):
    v = args[0]
    el, ln, ex = ops.iter_elem(I, v, node, st)
    kv = call_keys(I, kw, el, node, st)
    if kv is not None:
        el = el.tag(frozenset(t for t in ops.dtags(kv) if t[0] in ("p", "ps")))
    s = v.one(Seq) or v.one(SetA) or v.one(Map)
    if not el.alts:
        return I.seq("list", [], node)
    it = ops.exact_items(I, v, node, st)
    if it is not None and not kw and all(x.one(Num) is not None and x.one(Num).const is not None for x in it):
        return I.seq("list", sorted(it, key=lambda x: x.one(Num).const), node).tag(ops.dtags(v))
    return mk(Seq("list", None, el, ln, I.fresh(node), ex), ops.dtags(v))


@ext("builtins.max", "builtins.min")
def b_max(I, a, args, kw, node, st):
    mx = a.path == "builtins.max"
    tags = ops.dtags(*args)
    star = [x for x in args if isinstance(x, tuple)]
    if len(args) == 1 and not star:
        v = args[0]
        it = ops.exact_items(I, v, node, st)
        el, ln, ex = ops.iter_elem(I, v, node, st)
        if not el.alts or (ln is not None and ln.hi == 0):
            if "default" in kw:
                return kw["default"]
            I.raise_("ValueError", node, st)
        if "key" in kw:
            kv = call_keys(I, kw, el, node, st)
            r = el.tag(kv.tags if kv is not None else NOTAGS)
        elif it is not None:
            r = mm(I, it, mx, st)
        else:
            r = el
            n = el.one(Num)
            if n is not None and not n.bot:
                for w in ex:
                    m = w.one(Num)
                    if m is not None and not m.bot:
                        n = Num(max(n.lo, m.lo), n.hi, n.kinds, n.dt, n.nan) if mx else Num(n.lo, min(n.hi, m.hi), n.kinds, n.dt, n.nan)
                r = mk(n)
        if ln is not None and ln.lo < 1:
            if "default" in kw:
                r = join(r, kw["default"])
            else:
                I.maybe_raise("ValueError", node, st)
        return r.tag(tags)
    vals = [x for x in args if not isinstance(x, tuple)]
    if star:
        vals += [x[1] for x in star]
    if "key" in kw:
        kv = call_keys(I, kw, join_all(vals), node, st)
        return join_all(vals).tag(tags | (kv.tags if kv is not None else NOTAGS))
    return mm(I, vals, mx, st).tag(tags)


def mm(I, vals, mx, st):
    ns = [v.one(Num) for v in vals]
    if all(n is not None for n in ns) and ns:
        r = ns[0]
        for n in ns[1:]:
            t = ops.num_cmp(I, "LtE", r, n, st)
            if t is True:
                r = n if mx else r
                continue
            t2 = ops.num_cmp(I, "LtE", n, r, st)
            if t2 is True:
                r = r if mx else n
                continue
            if r.bot or n.bot:
                r = join_num(r, n)
            elif mx:
                r = Num(max(r.lo, n.lo), max(r.hi, n.hi), r.kinds | n.kinds, dt_join(r.dt, n.dt), r.nan or n.nan)
            else:
                r = Num(min(r.lo, n.lo), min(r.hi, n.hi), r.kinds | n.kinds, dt_join(r.dt, n.dt), r.nan or n.nan)
        return mk(r)
    return join_all(vals)


@ext("builtins.all", "builtins.any")
def b_all(I, a, args, kw, node, st):
    al = a.path == "builtins.all"
    v = args[0]
    tags = ops.dtags(v)
    it = ops.exact_items(I, v, node, st)
    if it is not None:
        ts = [ops.truth(I, x, st) for x in it]
        if al:
            t = False if False in ts else (None if None in ts else True)
        else:
            t = True if True in ts else (None if None in ts else False)
        if t is None and any(x.unk for x in it):
            return V((Num(0, 1, BOOL), Unk("all")), tags)
        return ops.ub(t).tag(tags)
    el, ln, ex = ops.iter_elem(I, v, node, st)
    if not el.alts or (ln is not None and ln.hi == 0):
        return ops.ub(al).tag(tags)
    for w in ex:
        t = ops.truth(I, w, st)
        if al and t is False:
            return FALSE.tag(tags)
        if not al and t is True:
            return TRUE.tag(tags)
    t = ops.truth(I, el, st)
    if t is not None and ((al and t) or (not al and not t)):
        return ops.ub(t).tag(tags)
    if t is not None and ln is not None and ln.lo >= 1:
        return ops.ub(t).tag(tags)
    if el.unk or v.unk:
        return V((Num(0, 1, BOOL), Unk("all")), tags)
    return BOOLTOP.tag(tags)


@ext("builtins.isinstance")
def b_isinstance(I, a, args, kw, node, st):
    outs = {ops.isinstance_atom(I, x, args[1]) for x in args[0].alts}
    r = outs.pop() if len(outs) == 1 else None
    if r is None and args[0].unk:
        return V((Num(0, 1, BOOL), Unk("isinstance")))
    return ops.ub(r)


@ext("builtins.issubclass", "builtins.callable")
def b_issub(I, a, args, kw, node, st):
    if a.path == "builtins.issubclass" and args[0].one(Cls) and args[1].one(Cls):
        return ops.ub(args[1].one(Cls).ci in I.prog.mro(args[0].one(Cls).ci))
    return BOOLTOP


@ext("builtins.hasattr")
def b_hasattr(I, a, args, kw, node, st):
    s = args[1].one(Str)
    outs = set()
    for x in args[0].alts:
        if s is None or s.consts is None or len(s.consts) != 1:
            outs.add(None)
            continue
        nm = next(iter(s.consts))
        if isinstance(x, Obj):
            rec = I.get_rec(st, x.oid)
            if I.prog.find_member(x.cls, nm) or (rec and nm in rec.attrs):
                outs.add(True)
            elif I.has_ext_base(x.cls):
                outs.add(None)
            else:
                outs.add(False)
        elif isinstance(x, Num) and nm in ("field", "ambient"):
            outs.add(False)
        else:
            outs.add(None)
    r = outs.pop() if len(outs) == 1 else None
    return ops.ub(r)


@ext("builtins.getattr")
def b_getattr(I, a, args, kw, node, st):
    s = args[1].one(Str)
    if s is not None and s.consts:
        r = BOT
        for nm in sorted(s.consts):
            try:
                r = join(r, I.getattr_v(args[0], nm, node, st))
            except Dead:
                if len(args) > 2:
                    r = join(r, args[2])
        if r.alts:
            return r
        raise Dead()
    return unk("getattr", ops.dtags(*args), roots_of(args[0], deep=True))


@ext("builtins.setattr", "object.__setattr__")
def b_setattr(I, a, args, kw, node, st):
    if a.path == "object.__setattr__" and a.recv is not None:
        args = [a.recv] + list(args)
    s = args[1].one(Str)
    for nm in (sorted(s.consts) if s is not None and s.consts else ["?"]):
        I.setattr_v(args[0], nm, args[2], node, st)
    return const(None)


@ext("builtins.object.__setattr__")
def b_osetattr(I, a, args, kw, node, st):
    return b_setattr(I, Ext("builtins.setattr"), args, kw, node, st)


@ext("builtins.delattr")
def b_delattr(I, a, args, kw, node, st):
    for o in args[0].only(Obj):
        if o.oid in I.preexisting:
            I.event("attrwrite", node, f"{o.cls.name}.<delattr>", roots=frozenset([o.oid]), tags=frozenset([("p", "del")]))
    return const(None)


@ext("builtins.type")
def b_type(I, a, args, kw, node, st):
    if len(args) != 1:
        return unk("type3")
    r = BOT
    for x in args[0].alts:
        r = join(r, mk(Cls(x.cls)) if isinstance(x, Obj) else unk("type"))
    return r


@ext("builtins.print", "warnings.warn", "warnings.simplefilter", "builtins.memoryview")
def b_print(I, a, args, kw, node, st):
    return const(None)


@ext("builtins.slice")
def b_slice(I, a, args, kw, node, st):
    if len(args) == 1:
        return mk(SliceA(None, args[0], None))
    return mk(SliceA(args[0], args[1], args[2] if len(args) > 2 else None))


@ext("builtins.pow", "operator.pow")
def b_pow(I, a, args, kw, node, st):
    if len(args) == 3:
        m = args[2].num()
        if m is not None and m.lo > 0 and all(x.one(Num) for x in args):
            return mk(Num(0, m.hi - 1, INT), ops.dtags(*args))
        return unk("pow3", ops.dtags(*args)) if not all(x.one(Num) for x in args) else mk(Num(-INF, INF, INT), ops.dtags(*args))
    return I.binop("Pow", args[0], args[1], node, st)


@ext("builtins.divmod")
def b_divmod(I, a, args, kw, node, st):
    x, y = args
    for o in x.only(Obj):
        if I.prog.find_member(o.cls, "__divmod__"):
            return I.call(I.getattr_obj(o, "__divmod__", node, st, NOTAGS), [y], {}, node, st)
    q = I.binop("FloorDiv", x, y, node, st)
    r = I.binop("Mod", x, y, node, st)
    return I.seq("tuple", [q, r], node, roots=frozenset())


@ext("builtins.bytes", "builtins.bytearray")
def b_bytes(I, a, args, kw, node, st):
    kind = a.path.split(".")[-1]
    roots = frozenset() if kind == "bytes" else I.fresh(node)
    if not args:
        return mk(Seq(kind, (), None, num_const(0), roots))
    v = args[0]
    if v.one(Num) is not None:
        return mk(Seq(kind, None, const(0), v.one(Num), roots))
    if v.one(Str) is not None:
        return mk(Seq(kind, None, mk(Num(0, 255, INT)), Num(0, INF, INT), roots))
    el, ln, ex = ops.iter_elem(I, v, node, st)
    n = el.num()
    if n is not None and not n.bot and (n.lo < 0 or n.hi > 255):
        I.event("bytes-range", node, f"bytes() of values in [{n.lo}, {n.hi}]")
        I.maybe_raise("ValueError", node, st)
        if n.lo > 255 and ln.lo >= 1:
            I.raise_("ValueError", node, st)
    return mk(Seq(kind, None, mk(Num(0, 255, INT)), ln, roots), ops.dtags(v))


@ext("builtins.object")
def b_object(I, a, args, kw, node, st):
    return unk("object")


@ext("builtins.property", "builtins.classmethod", "builtins.staticmethod")
def b_deco(I, a, args, kw, node, st):
    return args[0] if args else unk("deco")


# functools / operator / itertools / misc ----------------------------------
@ext("functools.partial")
def f_partial(I, a, args, kw, node, st):
    return mk(Partial(args[0], tuple(args[1:]), tuple(sorted(kw.items(), key=lambda t: t[0])), id(node)))


@ext("functools.wraps", "functools.update_wrapper")
def f_wraps(I, a, args, kw, node, st):
    if a.path.endswith("update_wrapper"):
        return args[0]
    return mk(Partial(const(None), (), (), id(node), "wraps"))


@ext("functools.cache", "functools.lru_cache")
def f_cache(I, a, args, kw, node, st):
    if args and any(isinstance(x, Fn) for x in args[0].alts):
        v = args[0]
        return V(tuple(Fn(x.fi, x.fid, x.self_v, True) if isinstance(x, Fn) else x for x in v.alts), v.tags)
    return mk(Partial(const(None), (), (), id(node), "lru_cache"))


@ext("dataclasses.dataclass", "typeguard.typechecked", "typing.runtime_checkable", "numpy.errstate")
def f_identity_dec(I, a, args, kw, node, st):
    if args and any(isinstance(x, (Fn, Cls)) for x in args[0].alts):
        return args[0]
    return mk(Partial(const(None), (), (), id(node), "identity-dec"))


@ext("dataclasses.replace")
def f_replace(I, a, args, kw, node, st):
    o = args[0].one(Obj)
    if o is None:
        return unk("replace", ops.dtags(*args))
    flds = I.dc_fields(o.cls)
    kws = {}
    for n in flds:
        kws[n] = kw[n] if n in kw else I.getattr_obj(o, n, node, st, NOTAGS)
    return I.instantiate(o.cls, [], kws, node, st)


@ext("dataclasses.field")
def f_field(I, a, args, kw, node, st):
    if "default_factory" in kw:
        return I.call(kw["default_factory"], [], {}, node, st)
    return kw.get("default", unk("field"))


@ext("dataclasses.fields", "dataclasses.asdict", "dataclasses.astuple")
def f_fields(I, a, args, kw, node, st):
    return unk("dc", ops.dtags(*args), roots_of(args[0], deep=True))


@ext("functools.reduce")
def f_reduce(I, a, args, kw, node, st):
    f, it = args[0], args[1]
    items = ops.exact_items(I, it, node, st)
    if items is not None and len(items) <= 8:
        items = list(items)
        if len(args) > 2:
            acc = args[2]
        elif items:
            acc = items.pop(0)
        else:
            I.raise_("TypeError", node, st)
        for x in items:
            acc = I.call(f, [acc, x], {}, node, st)
        return acc.tag(it.tags)
    el, ln, ex = ops.iter_elem(I, it, node, st)
    acc = args[2] if len(args) > 2 else el
    if not el.alts:
        if len(args) > 2:
            return acc
        I.raise_("TypeError", node, st)
    for k in range(8):
        s2 = st.copy()
        try:
            r = I.call(f, [acc, el], {}, node, s2)
        except Dead:
            if ln is not None and ln.lo >= (1 if len(args) > 2 else 2):
                raise
            break
        st.replace(s2)
        new = join(acc, r)
        if k >= 2:
            new = widen(acc, new)
        if new == acc:
            break
        acc = new
    return acc.tag(it.tags)


for _n, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"),
                ("xor", "BitXor"), ("and_", "BitAnd"), ("or_", "BitOr"), ("lshift", "LShift"), ("rshift", "RShift"),
                ("matmul", "MatMult")):
    TABLE["operator." + _n] = (lambda op: lambda I, a, args, kw, node, st: I.binop(op, args[0], args[1], node, st))(_op)
for _n in ("iadd", "ixor", "iand", "ior", "imul", "isub"):
    def _iop(I, a, args, kw, node, st, _op={"iadd": "Add", "ixor": "BitXor", "iand": "BitAnd", "ior": "BitOr", "imul": "Mult", "isub": "Sub"}[_n]):
        import ast
        cls = {"Add": ast.Add, "BitXor": ast.BitXor, "BitAnd": ast.BitAnd, "BitOr": ast.BitOr, "Mult": ast.Mult, "Sub": ast.Sub}[_op]
        return I.augop(cls(), args[0], args[1], node, st)
    TABLE["operator." + _n] = _iop
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    def _cmp(I, a, args, kw, node, st, _n=_n):
        import ast
        cls = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}[_n]
        return ops.compare(I, cls(), args[0], args[1], node, st)
    TABLE["operator." + _n] = _cmp


@ext("operator.neg", "operator.not_", "operator.invert", "operator.inv")
def o_neg(I, a, args, kw, node, st):
    import ast
    return ops.unop(I, {"neg": ast.USub(), "not_": ast.Not()}.get(a.path[9:], ast.Invert()), args[0], node, st)


@ext("operator.getitem")
def o_getitem(I, a, args, kw, node, st):
    return getitem(I, args[0], args[1], node, st)


@ext("operator.setitem")
def o_setitem(I, a, args, kw, node, st):
    setitem(I, args[0], args[1], args[2], node, st)
    return const(None)


@ext("operator.itemgetter", "operator.attrgetter", "operator.methodcaller")
def o_itemgetter(I, a, args, kw, node, st):
    return mk(Partial(mk(Ext("sa." + a.path[9:])), tuple(args), tuple(kw.items()), id(node)))


@ext("sa.itemgetter")
def sa_itemgetter(I, a, args, kw, node, st):
    *ks, x = args
    if len(ks) == 1:
        return getitem(I, x, ks[0], node, st)
    return I.seq("tuple", [getitem(I, x, k, node, st) for k in ks], node, roots=frozenset())


@ext("sa.attrgetter")
def sa_attrgetter(I, a, args, kw, node, st):
    *ks, x = args
    s = ks[0].one(Str)
    if s is None or not s.consts:
        return unk("attrgetter")
    r = x
    for p in next(iter(s.consts)).split("."):
        r = I.getattr_v(r, p, node, st)
    return r


@ext("sa.methodcaller")
def sa_methodcaller(I, a, args, kw, node, st):
    return unk("methodcaller", ops.dtags(*args))


@ext("itertools.product")
def i_product(I, a, args, kw, node, st):
    rep = kw.get("repeat")
    tags = ops.tags_of(*args)
    r = rep.num() if rep is not None else num_const(1)
    if r is None:
        r = Num(0, INF, INT)
    if any(isinstance(x, tuple) for x in args):
        el = join_all([ops.iter_elem(I, x[1] if isinstance(x, tuple) else x, node, st)[0] for x in args])
        t = mk(Seq("tuple", None, el, Num(0, INF, INT), frozenset()))
        return mk(Seq("iter", None, t, Num(0, INF, INT), I.fresh(node)), tags)
    els = [ops.iter_elem(I, x, node, st) for x in args]
    if r.const is not None and int(r.const) * len(els) <= 6:
        k = int(r.const)
        its = [ops.exact_items(I, x, node, st) for x in args]
        if all(i is not None for i in its):
            import itertools
            n = 1
            for i in its * k:
                n *= len(i)
            if n <= 8:
                return I.seq("iter", [I.seq("tuple", list(t), node, roots=frozenset()) for t in itertools.product(*its, repeat=k)], node).tag(tags)
        if any(not e.alts for e, _, _ in els) and k:
            return I.seq("iter", [], node)
        t = I.seq("tuple", [e for e, _, _ in els] * k, node, roots=frozenset())
        ln = num_const(1)
        for _ in range(k):
            for e, l, _ in els:
                ln = ops.num_binop(I, "Mult", ln, l, st)
        return mk(Seq("iter", None, t, Num(ln.lo, ln.hi, INT, sym=ln.sym), I.fresh(node)), tags)
    el = join_all([e for e, _, _ in els])
    ll = ops.num_binop(I, "Mult", num_const(len(els)), r, st)
    t = mk(Seq("tuple", None, el if el.alts else None, Num(max(0, ll.lo), ll.hi, INT, sym=ll.sym), frozenset()))
    ln = Num(0, INF, INT)
    if len(els) == 1:
        ln = ops.num_binop(I, "Pow", Num(els[0][1].lo, els[0][1].hi, INT, sym=els[0][1].sym), Num(max(0, r.lo), r.hi, INT, sym=r.sym), st)
    return mk(Seq("iter", None, t, Num(max(0, ln.lo), ln.hi, INT, sym=ln.sym), I.fresh(node)), tags)


@ext("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement")
def i_comb(I, a, args, kw, node, st):
    el, ln, _ = ops.iter_elem(I, args[0], node, st)
    r = (args[1] if len(args) > 1 else kw.get("r", const(None))).num()
    if r is None:
        r = ln
    if not el.alts:
        el = None
    if r.const is not None and r.const <= 4:
        k = int(r.const)
        t = I.seq("tuple", [el] * k, node, roots=frozenset()) if el is not None or k == 0 else BOT
    else:
        t = mk(Seq("tuple", None, el, Num(max(0, r.lo), r.hi, INT, sym=r.sym), frozenset()))
    lo = 1 if ops.num_cmp(I, "LtE", r, ln, st) is True else 0
    hi = INF
    if ln.const is not None and r.const is not None and ln.const <= 200 and a.path.endswith("combinations"):
        lo = hi = math.comb(int(ln.const), max(0, int(r.const)))
    if not t.alts or hi == 0:
        return I.seq("iter", [], node)
    return mk(Seq("iter", None, t, Num(lo, hi, INT), I.fresh(node)), args[0].tags)


@ext("itertools.count")
def i_count(I, a, args, kw, node, st):
    s = (args[0] if args else kw.get("start", const(0))).num() or Num(-INF, INF, INT)
    return mk(Seq("iter", None, mk(Num(s.lo, INF, s.kinds | INT)), num_iv(INF, INF), I.fresh(node)))


@ext("itertools.repeat")
def i_repeat(I, a, args, kw, node, st):
    n = args[1].num() if len(args) > 1 else num_iv(INF, INF)
    return mk(Seq("iter", None, args[0], n or Num(0, INF, INT), I.fresh(node)))


@ext("itertools.chain")
def i_chain(I, a, args, kw, node, st):
    vs = [x[1] if isinstance(x, tuple) else x for x in args]
    its = [ops.exact_items(I, x, node, st) for x in vs]
    if all(i is not None for i in its) and not any(isinstance(x, tuple) for x in args):
        return I.seq("iter", [y for i in its for y in i], node)
    els = [ops.iter_elem(I, x, node, st) for x in vs]
    el = join_all([e for e, _, _ in els])
    ln = num_const(0)
    for e, l, _ in els:
        ln = ops.num_binop(I, "Add", ln, l, st)
    if any(isinstance(x, tuple) for x in args):
        ln = Num(0, INF, INT)
    return mk(Seq("iter", None, el, Num(ln.lo, ln.hi, INT, sym=ln.sym), I.fresh(node)), ops.tags_of(*vs))


@ext("itertools.chain.from_iterable")
def i_chainf(I, a, args, kw, node, st):
    el, ln, _ = ops.iter_elem(I, args[0], node, st)
    if not el.alts:
        return I.seq("iter", [], node)
    e2, l2, _ = ops.iter_elem(I, el, node, st)
    l = ops.num_binop(I, "Mult", ln, l2, st)
    return mk(Seq("iter", None, e2 if e2.alts else None, Num(max(0, l.lo), l.hi, INT), I.fresh(node)), ops.dtags(args[0]))


@ext("itertools.islice", "itertools.takewhile", "itertools.dropwhile", "itertools.compress", "itertools.filterfalse", "itertools.cycle")
def i_islice(I, a, args, kw, node, st):
    v = args[0] if a.path.endswith(("islice", "compress", "cycle")) else args[1]
    el, ln, _ = ops.iter_elem(I, v, node, st)
    if a.path.endswith("islice") and len(args) == 2 and args[1].num() is not None:
        n = args[1].num()
        ln = n if n.hi <= ln.lo else Num(0, min(n.hi, ln.hi), INT)
    else:
        ln = Num(0, INF, INT)
    return mk(Seq("iter", None, el if el.alts else None, ln, I.fresh(node)), v.tags)


@ext("itertools.accumulate")
def i_accum(I, a, args, kw, node, st):
    el, ln, _ = ops.iter_elem(I, args[0], node, st)
    f = args[1] if len(args) > 1 else kw.get("func")
    acc = kw.get("initial", el)
    if not el.alts:
        return I.seq("iter", [], node)
    for k in range(6):
        r = I.call(f, [acc, el], {}, node, st) if f is not None and f.alts != (NONE,) else I.binop("Add", acc, el, node, st)
        new = join(acc, r)
        if k >= 2:
            new = widen(acc, new)
        if new == acc:
            break
        acc = new
    return mk(Seq("iter", None, acc, ln, I.fresh(node)), args[0].tags)


@ext("itertools.pairwise", "itertools.zip_longest", "itertools.starmap", "itertools.groupby", "itertools.tee", "itertools.batched")
def i_misc(I, a, args, kw, node, st):
    nm = a.path[10:]
    if nm == "pairwise":
        el, ln, _ = ops.iter_elem(I, args[0], node, st)
        return mk(Seq("iter", None, I.seq("tuple", [el, el], node, roots=frozenset()), Num(max(0, ln.lo - 1), max(0, ln.hi - 1), INT), I.fresh(node)), args[0].tags)
    if nm == "starmap":
        el, ln, _ = ops.iter_elem(I, args[1], node, st)
        it = ops.exact_items(I, el, node, st)
        r = I.call(args[0], it, {}, node, st) if it is not None else unk("starmap")
        return mk(Seq("iter", None, r, ln, I.fresh(node)), args[1].tags)
    I.note_unmodelled(a.path, node)
    return unk(a.path, ops.dtags(*args))


@ext("heapq.heappush")
def h_push(I, a, args, kw, node, st):
    for x in args[0].alts:
        if isinstance(x, Seq):
            el = args[1]
            strong_or_weak(I, st, x, lambda y: Seq(y.kind, None, jopt(y.elem, el), Num(y.length.lo + 1, y.length.hi + 1, INT), y.roots),
                           lambda y: weak_seq(y, el), node, "heappush()", ops.dtags(args[1]))
        elif isinstance(x, Unk):
            I.mutate(x.roots, None, node, st, "heappush()")
    cmp_elems(I, args[1], args[0], node, st)
    return const(None)


def cmp_elems(I, x, heap, node, st):
    pass


def order_tags(I, el, node, st):
    """what decides the order of the elements (their comparison)"""
    if not any(isinstance(x, Obj) for x in el.alts):
        return frozenset(t for t in ops.dtags(el) if t[0] in ("p", "ps"))
    try:
        return frozenset(t for t in ops.dtags(ops.compare(I, ast.Lt(), el, el, node, st)) if t[0] in ("p", "ps"))
    except Dead:
        return NOTAGS


@ext("heapq.heappop")
def h_pop(I, a, args, kw, node, st):
    el, _, _ = ops.iter_elem(I, args[0], node, st)
    r = seq_pop(I, args[0], None, node, st, "heappop()")
    return r.tag(order_tags(I, el, node, st))


@ext("heapq.heapify")
def h_heapify(I, a, args, kw, node, st):
    for x in args[0].alts:
        if isinstance(x, Seq):
            strong_or_weak(I, st, x, lambda y: Seq(y.kind, None, y.elem, y.length, y.roots),
                           lambda y: Seq(y.kind, None, y.elem, y.length, y.roots), node, "heapify()", NOTAGS)
        elif isinstance(x, Unk):
            I.mutate(x.roots, None, node, st, "heapify()")
    return const(None)


@ext("heapq.heapreplace", "heapq.heappushpop")
def h_replace(I, a, args, kw, node, st):
    r, _, _ = ops.iter_elem(I, args[0], node, st)
    for x in args[0].alts:
        if isinstance(x, (Seq, Unk)):
            I.mutate(x.roots, args[1], node, st, a.path)
    return join(r, args[1])


@ext("bisect.insort", "bisect.insort_left", "bisect.insort_right", "random.shuffle")
def h_insort(I, a, args, kw, node, st):
    if a.path.startswith("random."):
        I.event("ambient", node, a.path)
    for x in args[0].alts:
        I.mutate(getattr(x, "roots", frozenset()), args[1] if len(args) > 1 else None, node, st, a.path)
    return const(None)


@ext("bisect.bisect", "bisect.bisect_left", "bisect.bisect_right")
def h_bisect(I, a, args, kw, node, st):
    _, ln, _ = ops.iter_elem(I, args[0], node, st)
    return mk(Num(0, ln.hi if ln is not None else INF, INT), ops.dtags(*args))


@ext("copy.copy", "copy.deepcopy")
def c_copy(I, a, args, kw, node, st):
    v = args[0]
    deep = a.path.endswith("deepcopy")
    nr = I.fresh(node)
    if deep:
        return map_atoms(v, lambda x: with_roots(x, nr) if isinstance(x, (Arr, Seq, Map, SetA)) and x.key in MUTABLE else x)
    return V(tuple(with_roots(x, nr) if isinstance(x, (Arr, Seq, Map, SetA)) and x.key in MUTABLE else x for x in v.alts), v.tags)


@ext("typing.cast")
def t_cast(I, a, args, kw, node, st):
    return args[1]


@ext("tqdm.tqdm", "tqdm.auto.tqdm")
def t_tqdm(I, a, args, kw, node, st):
    v = args[0] if args else kw.get("iterable")
    if v is None or v.alts == (NONE,):
        return mk(Ext("tqdm.bar"))
    return v


@ext("typing.TypeVar", "typing.ParamSpec", "typing.NewType", "typing.TypeVarTuple", "typing.NamedTuple", "collections.namedtuple")
def t_typevar(I, a, args, kw, node, st):
    return unk("TypeVar")


@ext("statistics.NormalDist")
def s_nd(I, a, args, kw, node, st):
    return mk(Ext("statistics.nd"))


@ext("statistics.nd.inv_cdf", "statistics.nd.cdf", "statistics.nd.pdf", "statistics.NormalDist.inv_cdf")
def s_ndm(I, a, args, kw, node, st):
    if a.path.endswith("inv_cdf"):
        n = args[0].num()
        if n is not None and (n.hi <= 0 or n.lo >= 1):
            I.raise_("ValueError", node, st)
        return mk(Num(-INF, INF, FLOAT), ops.dtags(*args))
    return mk(Num(0.0, 1.0 if a.path.endswith("cdf") else INF, FLOAT), ops.dtags(*args))


@ext("fractions.Fraction", "decimal.Decimal")
def fr_new(I, a, args, kw, node, st):
    return unk("Fraction", ops.dtags(*args))


@ext("contextlib.suppress", "contextlib.nullcontext")
def ctx_any(I, a, args, kw, node, st):
    return unk("ctx")


@ext("sys.getrecursionlimit", "importlib.metadata.version")
def sysx(I, a, args, kw, node, st):
    return unk("sys")


@ext("builtins.super")
def b_super(I, a, args, kw, node, st):
    return unk("super")


@ext("builtins.int.from_bytes")
def int_from_bytes(I, a, args, kw, node, st):
    hi = INF
    x = args[0].one(Arr) if args else None
    if x is not None and x.shape is not None and len(x.shape) == 1 and x.shape[0].hi <= 64:
        hi = 256 ** int(x.shape[0].hi) - 1
    return mk(Num(0, hi, INT), (ops.dtags(*args) | {ops.BIG}) if hi >= 2 ** 53 else ops.dtags(*args))


@ext("builtins.dict.fromkeys")
def dict_fromkeys(I, a, args, kw, node, st):
    val = args[1] if len(args) > 1 else const(None)
    it = ops.exact_items(I, args[0], node, st)
    el, ln, ex = ops.iter_elem(I, args[0], node, st)
    if it is not None:
        ks = [ops.const_key(x) for x in it]
        if all(k is not None for k in ks):
            d = {k[0]: val for k in ks}
            return mk(Map(tuple(d.items()), el, val, num_const(len(d)), I.fresh(node)))
    return mk(Map(None, el, val, Num(min(1, ln.lo), ln.hi, INT), I.fresh(node)), args[0].tags)


@ext("builtins.zip.__call__", "builtins.vars")
def misc_unk(I, a, args, kw, node, st):
    return unk(a.path)


# ------------------------------------------------------------------ methods
def m(*paths):
    return ext(*paths)


@m("num.bit_length")
def n_bitlen(I, a, args, kw, node, st):
    n = a.recv.num()
    if n.kinds - {"int", "bool"} == n.kinds:
        I.raise_("AttributeError", node, st)
    mx = max(abs(n.lo), abs(n.hi))
    lo = 0
    if n.lo > 0:
        lo = int(n.lo).bit_length()
    hi = INF if mx == INF else int(mx).bit_length()
    return mk(num_iv(lo, hi), (a.recv.tags - {ops.BIG}) | ({ops.BDEG} if hi == INF and ops.BIG in a.recv.tags else set()))


@m("num.bit_count")
def n_bitcount(I, a, args, kw, node, st):
    n = a.recv.num()
    mx = max(abs(n.lo), abs(n.hi))
    return mk(Num(1 if n.lo > 0 or n.hi < 0 else 0, INF if mx == INF else int(mx).bit_length(), INT), a.recv.tags - {ops.BIG})


@m("num.conjugate", "num.conj", "num.copy", "num.squeeze", "num.item", "num.tolist", "num.max", "num.min", "num.sum", "num.mean",
   "num.prod", "num.__int__", "num.__index__")
def n_self(I, a, args, kw, node, st):
    n = a.recv.num()
    if a.path in ("num.item", "num.tolist", "num.__int__", "num.__index__"):
        return mk(Num(n.lo, n.hi, n.kinds, "py", n.nan, n.sym), a.recv.tags)
    return a.recv


@m("num.all", "num.any")
def n_all(I, a, args, kw, node, st):
    return ops.ub(ops.truth(I, a.recv, st)).tag(a.recv.tags)


@m("num.is_integer")
def n_isint(I, a, args, kw, node, st):
    n = a.recv.num()
    if n.kinds <= {"int", "bool"}:
        return TRUE
    if n.const is not None:
        return ops.ub(float(n.const).is_integer())
    return BOOLTOP.tag(a.recv.tags)


@m("num.astype")
def n_astype(I, a, args, kw, node, st):
    from . import npm
    return npm.cast_v(I, a.recv, npm.parse_dtype(I, args[0] if args else kw.get("dtype")), node, st)


@m("num.ravel", "num.reshape", "num.flatten", "num.repeat")
def n_reshape(I, a, args, kw, node, st):
    from . import npm
    n = a.recv.num()
    return npm.call_method(I, Ext("arr." + a.path[4:], mk(Arr((), ops.np_elem(mk(n)), I.fresh(node)))), args, kw, node, st).tag(a.recv.tags)


@m("num.to_bytes")
def n_tobytes(I, a, args, kw, node, st):
    ln = args[0].num() if args else num_const(1)
    return mk(Seq("bytes", None, mk(Num(0, 255, INT)), ln or Num(0, INF, INT), frozenset()), a.recv.tags)


@m("str.join")
def s_join(I, a, args, kw, node, st):
    return mk(Str(None), ops.dtags(a.recv, *args))


@m("str.format", "str.lower", "str.upper", "str.strip", "str.replace", "str.title", "str.lstrip", "str.rstrip", "str.zfill",
   "str.ljust", "str.rjust", "str.removeprefix", "str.removesuffix", "str.capitalize", "str.center", "str.translate")
def s_any(I, a, args, kw, node, st):
    s = a.recv.one(Str)
    nm = a.path[4:]
    if s is not None and s.consts and nm in ("lower", "upper", "strip", "title", "capitalize") and not args:
        return mk(Str(frozenset(getattr(x, nm)() for x in s.consts)), a.recv.tags)
    return mk(Str(None), ops.dtags(a.recv, *args))


@m("str.split", "str.splitlines", "str.rsplit", "str.partition")
def s_split(I, a, args, kw, node, st):
    return mk(Seq("list", None, mk(Str(None)), Num(1, INF, INT), I.fresh(node)), a.recv.tags)


@m("str.startswith", "str.endswith", "str.isdigit", "str.isalpha", "str.isidentifier")
def s_starts(I, a, args, kw, node, st):
    return BOOLTOP.tag(ops.dtags(a.recv, *args))


@m("str.count", "str.find", "str.index", "str.rfind", "seq.rfind", "seq.find")
def s_count(I, a, args, kw, node, st):
    return mk(Num(-1 if a.path.endswith("find") else 0, INF, INT), ops.dtags(a.recv, *args))


def recv_seqs(a):
    return [x for x in a.recv.alts if isinstance(x, Seq)]


@m("seq.append", "seq.appendleft")
def q_append(I, a, args, kw, node, st):
    left = a.path == "seq.appendleft"
    x = args[0]
    if I.frames[-1].pc:
        x = x.tag(I.frames[-1].pc)
    for s in recv_seqs(a):
        if s.kind in ("tuple", "range", "bytes"):
            I.raise_("AttributeError", node, st)
        items = None
        if s.items is not None and len(s.items) < 40:
            items = ((x,) + s.items) if left else (s.items + (x,))
        ln = ops.num_binop(I, "Add", s.length, num_const(1), st)

        def f(y):
            return Seq(y.kind, items, jopt(y.elem, x), num_const(len(items)) if items is not None else Num(ln.lo, ln.hi, INT, sym=ln.sym), y.roots,
                       (y.ex + (x,))[:4])
        strong_or_weak(I, st, s, f, lambda y: weak_seq(y, x), node, a.path[3:] + "()", ops.dtags(x))
    return const(None)


@m("seq.extend", "seq.extendleft")
def q_extend(I, a, args, kw, node, st):
    v = args[0]
    it = ops.exact_items(I, v, node, st)
    el, ln, ex = ops.iter_elem(I, v, node, st)
    pc = I.frames[-1].pc
    if pc:
        el = el.tag(pc)
    for s in recv_seqs(a):
        items = None
        if s.items is not None and it is not None and len(it) + len(s.items) < 40 and a.path == "seq.extend":
            items = s.items + tuple(x.tag(pc) for x in it)
        l2 = ops.num_binop(I, "Add", s.length, ln, st)

        def f(y):
            return Seq(y.kind, items, jopt(y.elem, el) if el.alts else y.elem, num_const(len(items)) if items is not None else Num(l2.lo, l2.hi, INT, sym=l2.sym),
                       y.roots, (y.ex + ex)[:4])
        strong_or_weak(I, st, s, f, lambda y: weak_seq(y, el if el.alts else None), node, a.path[3:] + "()", ops.dtags(v))
    return const(None)


@m("seq.insert")
def q_insert(I, a, args, kw, node, st):
    for s in recv_seqs(a):
        n = args[0].num()
        items = None
        if s.items is not None and n is not None and n.const is not None:
            l = list(s.items)
            l.insert(int(n.const), args[1])
            items = tuple(l)

        def f(y):
            return Seq(y.kind, items, jopt(y.elem, args[1]), Num(y.length.lo + 1, y.length.hi + 1, INT), y.roots)
        strong_or_weak(I, st, s, f, lambda y: weak_seq(y, args[1]), node, ".insert()", ops.dtags(args[1]))
    return const(None)


def seq_pop(I, v, idx, node, st, what):
    res = BOT
    n = idx.num() if idx is not None else None
    for s in v.alts:
        if isinstance(s, Unk):
            I.mutate(s.roots, None, node, st, what)
            res = join(res, unk(s.why))
            continue
        if not isinstance(s, Seq):
            continue
        if s.length.hi == 0:
            if len(v.alts) == 1:
                I.raise_("IndexError", node, st)
            continue
        if s.length.lo < 1:
            I.maybe_raise("IndexError", node, st)
        items = None
        if s.items is not None and (n is None or n.const is not None) and what != "heappop()":
            k = -1 if n is None else int(n.const)
            if what == ".popleft()":
                k = 0
            if not -len(s.items) <= k < len(s.items):
                I.raise_("IndexError", node, st)
            res = join(res, s.items[k])
            l = list(s.items)
            del l[k]
            items = tuple(l)
        else:
            res = join(res, s.elem if s.elem is not None else BOT)

        def f(y):
            if items is not None:
                return Seq(y.kind, items, join_all(items) if items else None, num_const(len(items)), y.roots)
            return Seq(y.kind, None, y.elem, Num(max(0, y.length.lo - 1), max(0, y.length.hi - 1), INT), y.roots)
        strong_or_weak(I, st, s, f, lambda y: Seq(y.kind, None, y.elem, Num(0, y.length.hi, INT), y.roots), node, what, NOTAGS)
    if not res.alts:
        raise Dead()
    return res.tag(v.tags)


@m("seq.pop")
def q_pop(I, a, args, kw, node, st):
    return seq_pop(I, a.recv, args[0] if args else None, node, st, ".pop()")


@m("seq.popleft")
def q_popleft(I, a, args, kw, node, st):
    return seq_pop(I, a.recv, None, node, st, ".popleft()")


@m("seq.remove", "seq.clear", "seq.sort", "seq.reverse", "seq.rotate")
def q_mut(I, a, args, kw, node, st):
    nm = a.path[4:]
    for s in recv_seqs(a):
        if nm == "sort":
            call_keys(I, kw, s.elem if s.elem is not None else BOT, node, st)

        def f(y):
            if nm == "clear":
                return Seq(y.kind, (), None, num_const(0), y.roots)
            if nm == "remove":
                return Seq(y.kind, None, y.elem, Num(max(0, y.length.lo - 1), max(0, y.length.hi - 1), INT), y.roots)
            if nm == "reverse" and y.items is not None:
                return Seq(y.kind, tuple(reversed(y.items)), y.elem, y.length, y.roots, y.ex)
            return Seq(y.kind, None, y.elem, y.length, y.roots, y.ex)
        if nm == "remove":
            I.maybe_raise("ValueError", node, st)
        strong_or_weak(I, st, s, f, lambda y: Seq(y.kind, None, y.elem, Num(0, y.length.hi, INT), y.roots), node, f".{nm}()", NOTAGS)
    return const(None)


@m("seq.index")
def q_index(I, a, args, kw, node, st):
    I.maybe_raise("ValueError", node, st)
    hi = max((s.length.hi for s in recv_seqs(a)), default=INF)
    return mk(Num(0, max(0, hi - 1), INT), ops.dtags(a.recv, *args))


@m("seq.count", "seq.__len__")
def q_count(I, a, args, kw, node, st):
    hi = max((s.length.hi for s in recv_seqs(a)), default=INF)
    if a.path.endswith("len__"):
        return b_len(I, a, [a.recv], {}, node, st)
    return mk(Num(0, hi, INT), ops.dtags(a.recv, *args))


@m("seq.copy")
def q_copy(I, a, args, kw, node, st):
    return V(tuple(with_roots(x, I.fresh(node)) if isinstance(x, Seq) else x for x in a.recv.alts), a.recv.tags)


@m("seq.__getitem__")
def q_getitem(I, a, args, kw, node, st):
    return getitem(I, a.recv, args[0], node, st)


@m("seq.__iter__")
def q_iter(I, a, args, kw, node, st):
    return b_iter(I, a, [a.recv], {}, node, st)


@m("seq.__next__")
def q_next(I, a, args, kw, node, st):
    return b_next(I, a, [a.recv], {}, node, st)


# dict
def recv_maps(a):
    return [x for x in a.recv.alts if isinstance(x, Map)]


@m("map.get")
def d_get(I, a, args, kw, node, st):
    dflt = args[1] if len(args) > 1 else kw.get("default", const(None))
    res = BOT
    for x in recv_maps(a):
        c = ops.const_key(args[0])
        if x.items is not None and c is not None:
            d = dict(x.items)
            res = join(res, d[c[0]] if c[0] in d else dflt)
        else:
            res = join(res, dflt)
            if x.v is not None:
                res = join(res, x.v)
    return res.tag(ops.dtags(a.recv, *args))


@m("map.items")
def d_items(I, a, args, kw, node, st):
    res = BOT
    for x in recv_maps(a):
        if x.items is not None:
            res = join(res, I.seq("iter", [I.seq("tuple", [const(k), v], node, roots=frozenset()) for k, v in x.items], node))
        elif x.k is None or x.v is None:
            res = join(res, I.seq("iter", [], node))
        else:
            res = join(res, mk(Seq("iter", None, I.seq("tuple", [x.k, x.v], node, roots=frozenset()), x.length, I.fresh(node))))
    res = V(tuple(Seq("dictview", y.items, y.elem, y.length, y.roots, y.ex) if isinstance(y, Seq) else y for y in res.alts), res.tags)
    return res.tag(a.recv.tags)


@m("map.keys")
def d_keys(I, a, args, kw, node, st):
    res = BOT
    for x in recv_maps(a):
        if x.items is not None:
            its = tuple(const(k) for k, _ in x.items)
            res = join(res, mk(Seq("dictview", its, join_all(its) if its else None, num_const(len(its)), I.fresh(node))))
        else:
            res = join(res, mk(Seq("dictview", None, x.k, x.length, I.fresh(node))))
    return res.tag(a.recv.tags)


@m("map.values")
def d_values(I, a, args, kw, node, st):
    res = BOT
    for x in recv_maps(a):
        if x.items is not None:
            its = tuple(v for _, v in x.items)
            res = join(res, mk(Seq("dictview", its, join_all(its) if its else None, num_const(len(its)), I.fresh(node))))
        else:
            res = join(res, mk(Seq("dictview", None, x.v, x.length, I.fresh(node))))
    return res.tag(a.recv.tags)


@m("map.setdefault")
def d_setdefault(I, a, args, kw, node, st):
    dflt = args[1] if len(args) > 1 else const(None)
    res = dflt
    for x in recv_maps(a):
        if x.v is not None:
            res = join(res, x.v)
    setitem(I, a.recv, args[0], res, node, st)
    return res


@m("map.update")
def d_update(I, a, args, kw, node, st):
    add = [v for v in args]
    kk, vv = None, None
    pairs = []
    ok = True
    for v in add:
        for x in v.alts:
            if isinstance(x, Map):
                kk, vv = jopt(kk, x.k) if x.k is not None else kk, jopt(vv, x.v) if x.v is not None else vv
                if x.items is not None:
                    pairs += list(x.items)
                else:
                    ok = False
            else:
                ok = False
                el, ln, _ = ops.iter_elem(I, mk(x), node, st)
                d = ops.dict_from_pairs(I, el, ln, None, node).one(Map)
                kk, vv = jopt(kk, d.k), jopt(vv, d.v)
    for k, v in kw.items():
        pairs.append((k, v))
        kk, vv = jopt(kk, const(k)), jopt(vv, v)

    def f(y):
        items = None
        if ok and y.items is not None:
            d = dict(y.items)
            d.update(pairs)
            items = tuple(d.items())
        return Map(items, jopt(y.k, kk), jopt(y.v, vv), num_const(len(items)) if items is not None else Num(y.length.lo, INF, INT), y.roots)
    for x in recv_maps(a):
        strong_or_weak(I, st, x, f, lambda y: Map(None, jopt(y.k, kk), jopt(y.v, vv), Num(y.length.lo, INF, INT), y.roots), node, ".update()",
                       ops.dtags(*args))
    return const(None)


@m("map.pop", "map.popitem", "map.clear")
def d_pop(I, a, args, kw, node, st):
    res = BOT
    I.keyrisk += 1
    nm = a.path[4:]
    for x in recv_maps(a):
        if nm == "popitem":
            res = join(res, I.seq("tuple", [x.k or BOT, x.v or BOT], node, roots=frozenset()))
        elif nm == "pop":
            if x.v is not None:
                c = ops.const_key(args[0])
                res = join(res, dict(x.items)[c[0]] if x.items is not None and c is not None and c[0] in dict(x.items) else x.v)
            if len(args) > 1:
                res = join(res, args[1])
        strong_or_weak(I, st, x, lambda y: Map(None if nm != "clear" else (), y.k if nm != "clear" else None, y.v if nm != "clear" else None, Num(0, y.length.hi, INT), y.roots),
                       lambda y: Map(None, y.k, y.v, Num(0, y.length.hi, INT), y.roots), node, f".{nm}()", NOTAGS)
    return const(None) if nm == "clear" else res


@m("map.copy")
def d_copy(I, a, args, kw, node, st):
    return V(tuple(with_roots(x, I.fresh(node)) if isinstance(x, Map) else x for x in a.recv.alts), a.recv.tags)


@m("map.most_common", "map.elements")
def d_mc(I, a, args, kw, node, st):
    x = recv_maps(a)[0]
    return mk(Seq("list", None, I.seq("tuple", [x.k or BOT, x.v or BOT], node, roots=frozenset()), x.length, I.fresh(node)), a.recv.tags)


@m("map.total")
def d_total(I, a, args, kw, node, st):
    return mk(Num(0, INF, INT), a.recv.tags)


# set
def recv_sets(a):
    return [x for x in a.recv.alts if isinstance(x, SetA)]


@m("setm.add", "setm.discard", "setm.remove", "setm.clear", "setm.update", "setm.difference_update", "setm.intersection_update",
   "setm.symmetric_difference_update")
def t_add(I, a, args, kw, node, st):
    nm = a.path[5:]
    I.keyrisk += nm == "remove"
    el = None
    if nm == "add":
        el = args[0]
    elif nm in ("update", "symmetric_difference_update"):
        for v in args:
            e, _, _ = ops.iter_elem(I, v, node, st)
            el = jopt(el, e)
    for x in recv_sets(a):
        def f(y):
            if nm == "clear":
                return SetA(y.kind, None, num_const(0), y.roots)
            if nm in ("discard", "remove", "difference_update", "intersection_update"):
                return SetA(y.kind, y.elem, Num(0, y.length.hi, INT), y.roots)
            return SetA(y.kind, jopt(y.elem, el), Num(max(y.length.lo, 1 if nm == "add" else 0), y.length.hi + (1 if nm == "add" else INF), INT), y.roots)
        strong_or_weak(I, st, x, f, lambda y: SetA(y.kind, jopt(y.elem, el), Num(0, INF, INT), y.roots), node, f".{nm}()", ops.dtags(*args))
    return const(None)


@m("setm.pop")
def t_pop(I, a, args, kw, node, st):
    res = BOT
    for x in recv_sets(a):
        if x.length.hi > 1 and ops.salted(I, x.elem):
            I.event("set-order", node, "set.pop() on a set of strings or identity-hashed objects")
        res = join(res, x.elem if x.elem is not None else BOT)
        strong_or_weak(I, st, x, lambda y: SetA(y.kind, y.elem, Num(max(0, y.length.lo - 1), y.length.hi, INT), y.roots),
                       lambda y: SetA(y.kind, y.elem, Num(0, y.length.hi, INT), y.roots), node, ".pop()", NOTAGS)
    if not res.alts:
        I.raise_("KeyError", node, st)
    return res.tag(a.recv.tags)


@m("setm.union", "setm.intersection", "setm.difference", "setm.symmetric_difference", "setm.copy")
def t_union(I, a, args, kw, node, st):
    nm = a.path[5:]
    res = BOT
    for x in recv_sets(a):
        el = x.elem
        if nm in ("union", "symmetric_difference"):
            for v in args:
                e, _, _ = ops.iter_elem(I, v, node, st)
                el = jopt(el, e)
        lo = x.length.lo if nm in ("union", "copy") else 0
        hi = x.length.hi if nm in ("copy", "difference", "intersection") else INF
        res = join(res, mk(SetA(x.kind, el, Num(lo, hi, INT), I.fresh(node))))
    return res.tag(ops.dtags(a.recv, *args))


@m("setm.issubset", "setm.issuperset", "setm.isdisjoint")
def t_sub(I, a, args, kw, node, st):
    return BOOLTOP.tag(ops.dtags(a.recv, *args))


@m("tqdm.bar.update", "tqdm.bar.close", "tqdm.bar.set_description", "tqdm.bar.refresh", "tqdm.bar.set_postfix")
def tq(I, a, args, kw, node, st):
    return const(None)


@m("object.__init__", "object.__init_subclass__")
def o_init(I, a, args, kw, node, st):
    return const(None)


@m("object.__eq__", "object.__ne__")
def o_eq(I, a, args, kw, node, st):
    return V((Num(0, 1, BOOL), NOTIMPL))


@m("object.__repr__", "object.__str__")
def o_repr(I, a, args, kw, node, st):
    return mk(Str(None))


@m("object.__hash__")
def o_hash(I, a, args, kw, node, st):
    I.event("hash", node, "object.__hash__", value=a.recv)
    return mk(Num(-INF, INF, INT))


@m("object.__new__", "builtins.object.__new__")
def o_new(I, a, args, kw, node, st):
    c = args[0].one(Cls) if args else None
    if c is None:
        return unk("new")
    oid = ("obj", id(node), I.ctx(), c.ci.qual)
    from .interp import Rec
    st.heap[oid] = Rec(c.ci, {}, False)
    st.howned.add(oid)
    I.oidstore[oid] = st.heap[oid]
    return mk(Obj(oid, c.ci))


def _orderless(f):
    def g(I, a, args, kw, node, st):
        return unso(f(I, a, args, kw, node, st))
    return g


for _n in ("set", "frozenset", "sorted", "min", "max", "sum", "any", "all", "len"):
    TABLE["builtins." + _n] = _orderless(TABLE["builtins." + _n])
