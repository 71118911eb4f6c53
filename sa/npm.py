"""numpy model: shapes, element ranges, dtypes, aliasing (view / fresh / in place), mixing along batch axes, random sources."""
import ast
import math

from .domain import *
from . import lit
from . import ops
from .builtins_ import Dead, nonev, slice_len, abs_num, round_event, plain, ln_tags

ONE = num_const(1)


def batch_syms(I, dims):
    return {a for d in dims if d is not None and d.sym is not None for m, _ in d.sym for a in m if a in I.batch}


def batch_tags(I, dims, node=None):
    """the operation combines items along these axes: tag the batch symbols they contain, with the place"""
    out = set()
    for a in batch_syms(I, dims):
        out.add(("mix", a, I.mix_site(node)))
    return frozenset(out)


# ------------------------------------------------------------------ dtypes
DTYPES = {
    "int": (INT, "i64"), "int64": (INT, "i64"), "integer": (INT, "i64"), "intp": (INT, "i64"), "int_": (INT, "i64"),
    "uint64": (INT, "i64"), "uint": (INT, "i64"), "longlong": (INT, "i64"), "int32": (INT, "i64"), "uint32": (INT, "i64"),
    "float": (FLOAT, "f64"), "float64": (FLOAT, "f64"), "floating": (FLOAT, "f64"), "float32": (FLOAT, "f64"),
    "double": (FLOAT, "f64"), "longdouble": (FLOAT, "f64"), "float16": (FLOAT, "f64"),
    "bool": (BOOL, "i64"), "bool_": (BOOL, "i64"), "complex": (CPLX, "f64"), "complex128": (CPLX, "f64"), "complex64": (CPLX, "f64"),
    "complexfloating": (CPLX, "f64"),
    "uint8": (INT, "u8"), "int8": (INT, "u8"), "uint16": (INT, "u8"), "int16": (INT, "u8"), "ubyte": (INT, "u8"), "byte": (INT, "u8"),
    "object": (None, "obj"), "object_": (None, "obj"),
}


def parse_dtype(I, v):
    """-> None (not given), ('?',) unknown, or (kinds, dt)."""
    if v is None or v.alts == (NONE,):
        return None
    out = None
    for a in v.alts:
        r = ("?",)
        if isinstance(a, Ext):
            if a.path == "sa.dtype":
                n = a.recv.num()
                r = (n.kinds, n.dt) if n is not None else ("?",)
            else:
                r = DTYPES.get(a.path.split(".")[-1], ("?",))
        elif isinstance(a, Str) and a.consts and len(a.consts) == 1:
            s = next(iter(a.consts))
            r = DTYPES.get(s, {"b": (BOOL, "i64")}.get(s, ("?",)))
        if out is not None and out != r:
            if "?" not in (out[0], r[0]) and out[0] is not None and r[0] is not None:
                r = (out[0] | r[0], dt_join(out[1], r[1]))
            elif {out, r} <= {(INT, "i64"), (None, "obj"), ("?", "int-or-object")}:
                r = ("?", "int-or-object")
            else:
                r = ("?",)
        out = r
    return out


def dtype_of(n):
    return mk(Ext("sa.dtype", mk(Num(-INF, INF, n.kinds, n.dt if n.dt != "py" else ("f64" if "float" in n.kinds else "i64")))))


def cast_num(I, n, kinds, dt, node):
    if kinds is None:
        return Num(n.lo, n.hi, n.kinds, dt, n.nan, n.sym)
    if n.bot and not n.nan:
        return Num(n.lo, n.hi, kinds, dt)
    if kinds <= {"bool"}:
        lo = 1 if n.lo > 0 or n.hi < 0 else 0
        hi = 0 if n.lo == n.hi == 0 and not n.nan else 1
        return Num(lo, hi, BOOL, dt)
    if kinds <= {"int", "bool"}:
        lo, hi = n.lo, n.hi
        if n.kinds & {"float", "complex"}:
            lo = lo if abs(lo) == INF else math.trunc(lo)
            hi = hi if abs(hi) == INF else math.trunc(hi)
        return Num(lo, hi, kinds, dt, False, n.sym if n.kinds <= {"int", "bool"} else None)
    if kinds == FLOAT:
        if n.kinds == CPLX:
            return Num(-INF, INF, FLOAT, dt, n.nan)
        return Num(n.lo, n.hi, FLOAT, dt, n.nan, n.sym if n.const is not None else None)
    if kinds == CPLX:
        return Num(-INF, INF, CPLX, dt, n.nan)
    return Num(n.lo, n.hi, kinds, dt, n.nan)


def cast_elem(I, el, dts, node, st):
    if dts is None or dts[0] == "?":
        return el
    kinds, dt = dts
    out = BOT
    for a in el.alts:
        if isinstance(a, Num):
            if kinds is not None and kinds <= {"int"} and "float" in a.kinds:
                round_event(I, mk(a, el.tags), node, "conversion to int")
                if a.kinds == FLOAT and not a.bot and (a.lo < -2 ** 63 or a.hi >= 2 ** 63):
                    I.event("cast-range", node, f"conversion to int of a float in [{a.lo}, {a.hi}]")
            out = join(out, mk(cast_num(I, a, kinds, dt, node)))
        elif isinstance(a, Obj) and kinds is not None and kinds <= {"int"}:
            from .builtins_ import obj_conv
            try:
                out = join(out, ops.np_elem(obj_conv(I, a, "int", node, st)))
            except Dead:
                out = join(out, unk("cast"))
        else:
            out = join(out, mk(a))
    return out.tag(el.tags)


def cast_v(I, v, dts, node, st):
    out = BOT
    for a in v.alts:
        if isinstance(a, Arr):
            out = join(out, mk(Arr(a.shape, cast_elem(I, a.elem, dts, node, st), I.fresh(node, "cast"), a.ex, a.aux if dts and dts[0] in (None, FLOAT) else frozenset())))
        elif isinstance(a, Num):
            out = join(out, cast_elem(I, ops.np_elem(mk(a, v.tags)), dts, node, st))
        else:
            out = join(out, mk(a))
    return out.tag(v.tags)


# ------------------------------------------------------------------ conversion
def arrs(I, v, node, st):
    """[(Arr|None, atom)] for each alternative; None where unknown."""
    out = []
    for a in v.alts:
        if isinstance(a, (Arr, Num, Seq, Obj)):
            x = ops.to_arr(I, a, node, st)
            if x is None and isinstance(a, Seq):
                x = nested_arr(I, a, node, st)
            out.append(x)
        elif isinstance(a, SetA):
            out.append(Arr((), unk("set"), I.fresh(node)))
        else:
            out.append(None)
    return out


def nested_arr(I, s, node, st):
    return None


def arr1(I, v, node, st):
    """Join of all array readings of v, or None if some alternative is unknown. NONE / strings raise TypeError."""
    r = None
    for a, x in zip(v.alts, arrs(I, v, node, st)):
        if x is None:
            if (a is NONE or isinstance(a, (Str, Cls, Fn))) and len(v.alts) > 1:
                continue
            if a is NONE and len(v.alts) == 1:
                return Arr((), mk(NONE), I.fresh(node))
            return None
        r = x if r is None else join_atom(r, x)
    return r


def shape_of_arg(I, v, node, st):
    """Shape tuple of Nums from a shape argument, or None."""
    n = v.one(Num)
    if n is not None:
        return (Num(n.lo, n.hi, INT, "py", False, n.sym),)
    s = v.one(Seq)
    if s is not None and s.items is not None:
        out = []
        for x in s.items:
            k = x.num()
            if k is None:
                k = Num(0, INF, INT)
            out.append(Num(k.lo, k.hi, INT, "py", False, k.sym))
        return tuple(out)
    a = v.one(Arr)
    if a is not None and a.shape == ():
        k = a.elem.num()
        if k is not None:
            return (k,)
    return None


def clampdims(shape):
    if shape is None:
        return None
    return tuple(Num(max(0, d.lo), max(0, d.hi), INT, "py", False, d.sym) if not d.bot else d for d in shape)


def prod_dims(I, dims, st):
    r = ONE
    for d in dims:
        r = ops.num_binop(I, "Mult", r, d, st)
    return r


def size_num(I, arr, st):
    if arr.shape is None:
        return Num(0, INF, INT)
    return prod_dims(I, arr.shape, st)


def asarray(I, v, dts, node, st, copy=False):
    out = BOT
    for a in v.alts:
        if isinstance(a, Arr):
            same = dts is None or dts[0] == "?"
            el = cast_elem(I, a.elem, dts, node, st)
            n = a.elem.num()
            if n is not None and n.dt == "obj":
                big_fixed(I, el, ops.dtags(v), node)
            roots = a.roots
            if copy:
                roots = I.fresh(node, "copy")
            elif not same and n is not None and not n.bot:
                # certain conversion -> fresh; possible identity -> may alias
                ident = dts[1] == n.dt and (dts[0] is None or n.kinds & dts[0])
                if n.dt == "narrow" or (n.dt != dts[1]) is False or ident or roots_param(roots):
                    roots = roots | I.fresh(node, "asarray")
                else:
                    roots = I.fresh(node, "asarray")
            out = join(out, mk(Arr(a.shape, el, roots, a.ex, a.aux)))
        elif isinstance(a, Unk):
            out = join(out, mk(Unk(a.why, a.roots)))
        elif isinstance(a, (Str,)):
            if dts is not None and len(v.alts) == 1:
                I.raise_("ValueError", node, st)
            out = join(out, unk("arr of str"))
        elif a is NONE:
            if dts is not None and dts[0] not in (None, "?"):
                if len(v.alts) == 1:
                    I.raise_("TypeError", node, st)
                continue
            out = join(out, mk(Arr((), mk(NONE), I.fresh(node, "asarray"))))
        else:
            x = ops.to_arr(I, a, node, st) if isinstance(a, (Num, Seq, Obj)) else None
            if x is None:
                out = join(out, unk("asarray"))
            else:
                r = Arr(x.shape, cast_elem(I, x.elem, dts, node, st), I.fresh(node, "asarray"), x.ex, x.aux)
                if dts is None or dts[0] != "?":
                    big_fixed(I, r.elem, ops.dtags(v), node)
                out = join(out, mk(r))
                if isinstance(a, Seq) and a.elem is not None and a.elem.unk:
                    out = join(out, unk("asarray"))
    if not out.alts:
        raise Dead()
    tg = ops.dtags(v)
    if ops.BIG in tg and all(isinstance(x, Arr) and all(isinstance(n, Num) and -2 ** 53 < n.lo and n.hi < 2 ** 53 for n in x.elem.alts) for x in out.alts):
        out = V(tuple(Arr(x.shape, V(x.elem.alts, x.elem.tags - {ops.BIG}), x.roots, x.ex, x.aux) for x in out.alts), out.tags - {ops.BIG})
        tg = tg - {ops.BIG}
    return out.tag(tg)


def big_fixed(I, el, tags, node):
    """an arbitrary-size integer is put into a fixed-width array element"""
    if ops.BIG in tags:
        for n in el.alts:
            if isinstance(n, Num) and not n.bot and n.dt not in ("obj", "py") and n.kinds <= {"int", "bool"} and (n.hi >= 2 ** 63 or n.lo < -2 ** 63):
                I.event("big-fixed", node, "an arbitrary-size integer is stored in a fixed-width array element")
                return


def roots_param(roots):
    return any(r[0] != "new" for r in roots)


# ------------------------------------------------------------------ attributes
def arr_attr(I, a, name, node, st, tags):
    if name == "shape":
        if a.shape is None:
            return mk(Seq("tuple", None, mk(Num(0, INF, INT)), Num(0, INF, INT), frozenset()), tags)
        return I.seq("tuple", [mk(d) for d in a.shape], node, roots=frozenset()).tag(shape_tags(tags, a))
    if name == "ndim":
        return (const(len(a.shape)) if a.shape is not None else mk(Num(0, 8, INT))).tag(shape_tags(tags))
    if name == "size":
        return mk(size_num(I, a, st), shape_tags(tags, a))
    if name == "dtype":
        n = a.elem.num()
        return dtype_of(n) if n is not None else unk("dtype")
    if name in ("T", "mT"):
        r = mk(Arr(None if a.shape is None else tuple(reversed(a.shape)), a.elem, a.roots, a.ex), tags)
        t = dict(a.aux).get("lit") if a.aux else None
        return lit.attach(r, lit.transpose(t)) if t is not None else r
    if name in ("real", "imag"):
        n = a.elem.num()
        if n is not None and "complex" in n.kinds:
            el = mk(Num(-INF, INF, FLOAT, "f64"), a.elem.tags)
        else:
            el = a.elem if name == "real" else const(0)
        return mk(Arr(a.shape, el, a.roots), tags)
    if name == "flat":
        return mk(Arr((size_num(I, a, st),), a.elem, a.roots, a.ex), tags)
    if name in ("nbytes", "itemsize"):
        return mk(Num(0, INF, INT), tags)
    if name in ("base", "data", "ctypes", "flags"):
        return unk("arr." + name, tags, a.roots)
    return mk(Ext("arr." + name, mk(a, tags)))


def shape_tags(tags, a=None):
    if a is not None and (a.shape is None or any(d.const is None and d.sym is None for d in a.shape)):
        return frozenset(t for t in tags if t[0] != "mix") | SZ     # the extent may depend on values (a mask, unique, ...)
    # what flows into a shape is the *size* of a parameter, not its values
    return frozenset(("ps", t[1]) if t[0] == "p" and len(t) == 2 else t for t in tags if t[0] != "mix") | SZ


# ------------------------------------------------------------------ indexing
def arr_index(I, a, i, node, st):
    """-> (shape|None, is_view, scalar?)"""
    if a.shape is None:
        return None
    idx = []
    t = i.one(Seq)
    if t is not None and t.kind == "tuple":
        if t.items is None:
            # a tuple of unknown length: only integers -> scalar or sub-array
            return ("tuple?",)
        idx = list(t.items)
    else:
        idx = [i]
    n_used = 0
    for x in idx:
        if x.alts == (NONE,) or x.alts == (ELLIPSIS,):
            continue
        b = x.one(Arr)
        if b is not None and is_boolarr(b):
            n_used += len(b.shape) if b.shape is not None else 1
        else:
            n_used += 1
    nd = len(a.shape)
    if n_used > nd:
        I.raise_("IndexError", node, st)
    out, fancy, fpos, view = [], [], None, True
    k = 0
    seen_ell = False
    for x in idx:
        if x.alts == (NONE,):
            out.append(ONE)
            continue
        if x.alts == (ELLIPSIS,):
            cnt = nd - n_used
            out += list(a.shape[k:k + cnt])
            k += cnt
            seen_ell = True
            continue
        s = x.one(SliceA)
        if s is not None:
            out.append(slice_len(I, a.shape[k], s, st))
            k += 1
            continue
        n = x.one(Num)
        if n is not None and not (n.dt != "py" and n.kinds <= {"bool"}):
            if "float" in n.kinds and n.kinds == FLOAT:
                I.raise_("IndexError", node, st)
            d = a.shape[k]
            if n.lo >= 0 and ops.num_cmp(I, "LtE", d, n, st) is True:
                I.raise_("IndexError", node, st)
            if n.hi < 0 and d.hi + n.hi < 0:
                I.raise_("IndexError", node, st)
            k += 1
            continue
        b = None
        if x.one(Arr) is not None:
            b = x.one(Arr)
        elif x.one(Seq) is not None:
            b = ops.to_arr(I, x.one(Seq), node, st)
            if b is not None and b.shape is not None and b.shape and b.shape[0].const == 0:
                b = Arr(b.shape, mk(Num(INF, -INF, INT, "i64")), b.roots)
        if b is None:
            return None
        view = False
        if fpos is None:
            fpos = len(out)
        if is_boolarr(b):
            cnt = len(b.shape) if b.shape is not None else 1
            fancy.append((Num(0, prod_dims(I, a.shape[k:k + cnt], st).hi, INT),))
            k += cnt
        else:
            if b.shape is None:
                return None
            fancy.append(b.shape)
            k += 1
    if not seen_ell:
        out += list(a.shape[k:])
    if fancy:
        sh = fancy[0]
        for f in fancy[1:]:
            sh = ops.broadcast(I, sh, f, st)
        out = out[:fpos] + list(sh) + out[fpos:]
    return (tuple(out), view)


def slice_mix(I, a, i, node):
    """Tags for slices of one axis whose bounds are computed from the size of a batch axis that is not part of it."""
    if not I.batch or a.shape is None:
        return NOTAGS
    t = i.one(Seq)
    parts = list(t.items) if t is not None and t.kind == "tuple" and t.items is not None else [i]
    if not any(p.one(SliceA) is not None for p in parts):
        return NOTAGS
    out, k, nd = NOTAGS, 0, len(a.shape)
    for p in parts:
        if p.alts == (NONE,):
            continue
        if p.alts == (ELLIPSIS,):
            k = nd - sum(1 for q in parts[parts.index(p) + 1:] if q.alts != (NONE,))
            continue
        s = p.one(SliceA)
        if s is None and not isinstance(p.alts[0] if len(p.alts) == 1 else None, Num):
            return out                                       # masks and index arrays may use several axes
        if s is not None and k < nd:
            own = batch_syms(I, [a.shape[k]])
            far = [d for d in (x.num() for x in (s.lo, s.hi, s.step) if x is not None) if d is not None and batch_syms(I, [d]) - own]
            if far:
                out = out | frozenset(("mix", y, I.mix_site(node)) for y in batch_syms(I, far) - own)
        k += 1
    return out


def is_boolarr(b):
    n = b.elem.num()
    return n is not None and n.kinds <= {"bool"}


def arr_getitem(I, a, i, node, st, tags):
    if len(i.alts) > 1 and not i.unk:
        res = BOT
        for x in i.alts:
            try:
                res = join(res, arr_getitem(I, a, mk(x, i.tags), node, st, tags))
            except Dead:
                continue
        if not res.alts:
            I.raise_("IndexError", node, st)
        return res
    if a.aux:
        t = dict(a.aux).get("lit")
        if t is not None:
            t = lit.index(t, i)
            if t is not None:
                return lit.attach(arr_getitem(I, Arr(a.shape, a.elem, a.roots, a.ex), i, node, st, tags), t)
    t = i.one(Seq)
    for x in (t.items if t is not None and t.kind == "tuple" and t.items is not None else (i,)):
        b = x.one(Arr)
        if b is not None and b.elem.num() is not None and b.elem.num().dt == "narrow" and not is_boolarr(b):
            I.event("narrow", node, "indexing by an array of the caller's dtype (a boolean array acts as a mask)")
    r = arr_index(I, a, i, node, st)
    tags = tags | slice_mix(I, a, i, node)
    if r is None:
        if a.shape is None:
            parts = t.items if t is not None and t.kind == "tuple" and t.items is not None else (i,)
            if any(x.one(SliceA) is not None or x.one(Arr) is not None and x.one(Arr).shape != () or x.one(Seq) is not None or x.alts == (ELLIPSIS,) or x.alts == (NONE,) for x in parts):
                return mk(Arr(None, a.elem, a.roots), tags)
            return join(unk("element of an array of unknown rank", a.elem.tags), mk(Arr(None, a.elem, a.roots)))
        return mk(Arr(None, a.elem, a.roots), tags)
    if r == ("tuple?",):
        return join(a.elem, mk(Arr(None, a.elem, a.roots)))
    sh, view = r
    if sh == () and not has_ellipsis(i):
        return a.elem
    nsame = i.one(SliceA) is not None and nonev(i.one(SliceA).lo) and nonev(i.one(SliceA).hi)
    full = all_full(i)
    ex = a.ex if full else ()
    if view:
        return mk(Arr(sh, a.elem, a.roots, ex), tags)
    return mk(Arr(sh, a.elem, I.fresh(node, "fancy")), tags)


def has_ellipsis(i):
    if i.alts == (ELLIPSIS,):
        return True
    t = i.one(Seq)
    return t is not None and t.items is not None and any(x.alts == (ELLIPSIS,) for x in t.items)


def all_full(i):
    t = i.one(Seq)
    xs = list(t.items) if t is not None and t.items is not None else [i]
    for x in xs:
        if x.alts in ((NONE,), (ELLIPSIS,)):
            continue
        s = x.one(SliceA)
        if s is None or not (nonev(s.lo) and nonev(s.hi)):
            return False
    return True


def index_trick(I, path, i, node, st):
    if path == "numpy.s_":
        return i
    t = i.one(Seq)
    parts = list(t.items) if t is not None and t.items is not None else [i]
    if any(p.one(SliceA) for p in parts):
        return unk(path)
    return concat(I, parts, 0, node, st)


def elem_of(I, val, node, st):
    """Element value(s) of something being stored into an array."""
    out = BOT
    for a in val.alts:
        if isinstance(a, Arr):
            out = join(out, a.elem)
        elif isinstance(a, Num):
            out = join(out, mk(a))
        elif isinstance(a, Seq):
            x = ops.to_arr(I, a, node, st)
            out = join(out, x.elem if x is not None else unk("elem"))
        else:
            out = join(out, mk(a))
    return out.tag(val.tags)


MASKED = frozenset([("masked",)])        # chosen under a condition that the interval of the value does not reflect


def arr_setitem(I, a, i, val, node, st, tags, strong=False):
    if a.shape is not None:
        try:
            arr_index(I, a, i, node, st)
        except Dead:
            raise
    el = elem_of(I, val, node, st).tag(slice_mix(I, a, i, node))
    full = strong and all_full(i)
    mk_ = i.one(Arr)
    mn = mk_.elem.num() if mk_ is not None and not mk_.elem.unk else None
    if mn is not None and mn.kinds <= {"bool"} and mn.const is not None:
        if not mn.const:                                     # nothing is selected
            el = V(a.elem.alts, a.elem.tags | tags)
        elif strong and mk_.shape is not None and a.shape is not None and mk_.shape == a.shape:
            full = True                                      # everything is selected
    if mn is not None and mn.kinds <= {"bool"} and mn.const is None and el.num() is not None and el.num().const is None:
        el = el.tag(MASKED)
    store(I, a, el, node, st, "item assignment", tags, full=full, val=val)


def store(I, a, el, node, st, what, tags, full=False, val=None):
    ops.inplace_cast(I, a, el, node, what)
    c = ops.cast_elem_to(I, el, a.elem)
    c = V(tuple(Num(n.lo, n.hi, n.kinds, a.elem.num().dt if a.elem.num() is not None else "i64", n.nan, None if n.const is None else n.sym)
                if isinstance(n, Num) else n for n in c.alts), el.tags)
    t = a.elem.num()
    if ops.BIG in el.tags and ("count",) in el.tags and t is not None and t.dt not in ("obj", "py"):
        big_fixed(I, c, el.tags, node)
    if t is not None and t.kinds <= {"int"} and el.num() is not None and "float" in el.num().kinds:
        round_event(I, el, node, "store into an integer array")

    if full:
        def upd(x):
            if x == a:
                return Arr(x.shape, c, x.roots)
            if isinstance(x, Arr):
                return Arr(x.shape, join(x.elem, c), x.roots)
            return x
        I.mutate(a.roots, None, node, st, what, tags=tags, update=upd)
    else:
        n = c.num()
        if n is not None and t is not None and not (t.lo <= n.lo and n.hi <= t.hi):
            # the element range becomes a join of values before and after a partial store
            small = isinstance(t.const, int) and abs(t.const) < 16
            c = c.tag(frozenset([("weak", t.const, t.const) if small else ("weak", -INF, INF)]))
        I.mutate(a.roots, c, node, st, what, tags=tags)


# ------------------------------------------------------------------ elementwise
def elementwise(I, v, f, node, st, name, tags=NOTAGS):
    """f(Num)->Num applied to every element."""
    out = BOT
    for a in v.alts:
        if isinstance(a, Num):
            out = join(out, mk(np_num(f(a))))
        elif isinstance(a, (Arr, Seq)):
            x = ops.to_arr(I, a, node, st)
            if x is None:
                out = join(out, unk(name))
                continue
            n = x.elem.num()
            if x.shape is None or x.shape != () or True:
                el = BOT
                for b in x.elem.alts:
                    el = join(el, mk(np_num(f(b))) if isinstance(b, Num) else unk(name))
                ex = ()
                if n is not None:
                    ex = tuple(ops.num_tuple(f(ops.wnum(w, n))) for w in x.ex)
                if x.shape == ():
                    out = join(out, el.tag(x.elem.tags))
                else:
                    out = join(out, mk(Arr(x.shape, ops.drop_sym(el).tag(x.elem.tags), I.fresh(node, name), ex)))
        elif isinstance(a, Unk):
            out = join(out, unk(a.why))
        elif isinstance(a, Obj):
            out = join(out, unk(name))
        elif len(v.alts) == 1:
            I.raise_("TypeError", node, st)
    if not out.alts:
        raise Dead()
    return out.tag(ops.dtags(v) | tags)


def np_num(n):
    if n.dt == "py":
        return Num(n.lo, n.hi, n.kinds, "f64" if n.kinds & {"float", "complex"} else "i64", n.nan, n.sym)
    return n


def fl(f, lo=-INF, hi=INF, dlo=-INF, dhi=INF):
    """Monotone increasing float function with result range [lo, hi]."""
    def g(n):
        if "complex" in n.kinds:
            return Num(-INF, INF, CPLX | (FLOAT if n.kinds != CPLX else frozenset()), "f64", n.nan)
        if n.bot:
            return Num(n.lo, n.hi, FLOAT, "f64", n.nan)
        nan = n.nan or n.lo < dlo or n.hi > dhi

        def s(x, d):
            x = min(max(x, dlo), dhi)
            try:
                return f(x)
            except (OverflowError, ValueError, ZeroDivisionError):
                return d
        return Num(s(n.lo, lo), s(n.hi, hi), FLOAT, "f64", nan)
    return g


def rng_(lo, hi):
    def g(n):
        if "complex" in n.kinds:
            return Num(-INF, INF, CPLX, "f64", n.nan)
        return Num(lo, hi, FLOAT, "f64", n.nan)
    return g


def rounding(f):
    def g(n):
        if n.kinds <= {"int", "bool"}:
            return n
        lo = n.lo if abs(n.lo) == INF or n.bot else float(f(n.lo))
        hi = n.hi if abs(n.hi) == INF or n.bot else float(f(n.hi))
        return Num(lo, hi, n.kinds, "f64w" if n.kinds == FLOAT else "f64", n.nan)       # whole-valued floats
    return g


def toreal(n):
    if "complex" in n.kinds:
        return Num(-INF, INF, FLOAT, "f64", n.nan)
    return n


def square(n):
    if "complex" in n.kinds or n.bot:
        return n
    vals = [ops.imul(n.lo, n.lo), ops.imul(n.hi, n.hi)]
    lo = 0 if n.lo <= 0 <= n.hi else min(vals)
    return Num(lo, max(vals), n.kinds - BOOL | (INT if "bool" in n.kinds else frozenset()), n.dt, n.nan)


def signf(n):
    if "complex" in n.kinds or n.bot:
        return n
    s = lambda x: (x > 0) - (x < 0)
    return Num(s(n.lo), s(n.hi), n.kinds, n.dt, n.nan)


def boolf(f):
    def g(n):
        r = f(n)
        return Num(0, 1, BOOL, "i64") if r is None else Num(int(r), int(r), BOOL, "i64")
    return g


def lognot(n):
    t = ops.truth_atom(None, n, None)
    return Num(0, 1, BOOL, "i64") if t is None else Num(int(not t), int(not t), BOOL, "i64")


def isnan_(n):
    if n.bot and n.nan:
        return True
    return None if n.nan or n.bot else False


def isfin_(n):
    if n.bot and n.nan:
        return False
    if not n.nan and not n.bot and n.kinds <= {"int", "bool"}:
        return True
    if not n.nan and n.lo == n.hi and abs(n.lo) == INF:
        return False
    return None


UFUNC1 = {
    "exp": fl(lambda x: 0.0 if x == -INF else math.exp(x), 0.0, INF), "exp2": fl(lambda x: 2.0 ** x, 0.0), "expm1": fl(math.expm1, -1.0),
    "log": fl(lambda x: math.log(x) if 0 < x < INF else (-INF if x <= 0 else INF), -INF, INF, 0, INF),
    "log2": fl(lambda x: math.log2(x) if 0 < x < INF else (-INF if x <= 0 else INF), -INF, INF, 0, INF),
    "log10": fl(lambda x: math.log10(x) if 0 < x < INF else (-INF if x <= 0 else INF), -INF, INF, 0, INF),
    "log1p": fl(lambda x: math.log1p(x) if -1 < x < INF else (-INF if x <= -1 else INF), -INF, INF, -1, INF),
    "sqrt": fl(lambda x: math.sqrt(x) if x < INF else INF, 0.0, INF, 0, INF), "cbrt": rng_(-INF, INF),
    "sin": rng_(-1.0, 1.0), "cos": rng_(-1.0, 1.0), "tan": rng_(-INF, INF), "sinc": rng_(-0.3, 1.0), "arcsin": rng_(-2.0, 2.0),
    "arccos": rng_(0.0, 4.0), "arctan": rng_(-2.0, 2.0), "sinh": rng_(-INF, INF), "cosh": rng_(1.0, INF), "tanh": rng_(-1.0, 1.0),
    "arctanh": rng_(-INF, INF), "arcsinh": rng_(-INF, INF), "arccosh": rng_(0.0, INF), "i0": rng_(0.0, INF),
    "abs": abs_num, "absolute": abs_num, "fabs": abs_num, "sign": signf, "square": square, "negative": None, "positive": lambda n: n,
    "ceil": rounding(math.ceil), "floor": rounding(math.floor), "rint": rounding(round), "trunc": rounding(math.trunc), "fix": rounding(math.trunc),
    "around": rounding(round), "round": rounding(round), "round_": rounding(round), "nan_to_num": lambda n: Num(n.lo, n.hi, n.kinds, n.dt),
    "real": toreal, "imag": lambda n: toreal(n) if "complex" in n.kinds else Num(0, 0, n.kinds, n.dt), "conj": lambda n: n,
    "conjugate": lambda n: n, "angle": lambda n: Num(-math.pi, math.pi, FLOAT, "f64", n.nan), "isnan": boolf(isnan_), "isinf": boolf(lambda n: None if n.bot or n.lo == -INF or n.hi == INF else False),
    "isfinite": boolf(isfin_), "logical_not": lognot, "isreal": boolf(lambda n: True if "complex" not in n.kinds else None),
    "iscomplex": boolf(lambda n: False if "complex" not in n.kinds else None), "deg2rad": rng_(-INF, INF), "rad2deg": rng_(-INF, INF),
    "reciprocal": rng_(-INF, INF), "bitwise_count": lambda n: Num(0, 64, INT, "i64"), "real_if_close": lambda n: n,
    "signbit": boolf(lambda n: None),
}
VIEWY = ("real", "imag")
REALF = ("exp", "sin", "cos", "tan", "sinc", "angle", "arctan", "arcsin", "arccos", "tanh", "sinh", "cosh")
INEXACT_INT = ("log", "log2", "log10", "sqrt", "log1p", "cbrt", "exp2")
UFUNC2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "floor_divide": "FloorDiv",
          "mod": "Mod", "remainder": "Mod", "power": "Pow", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
          "left_shift": "LShift", "right_shift": "RShift", "bitwise_left_shift": "LShift", "bitwise_right_shift": "RShift"}
CMP2 = {"equal": ast.Eq, "not_equal": ast.NotEq, "less": ast.Lt, "less_equal": ast.LtE, "greater": ast.Gt, "greater_equal": ast.GtE}


def binary(I, x, y, f, node, st, name, kinds=None):
    """Broadcast f(Num, Num) -> Num."""
    a, b = arr_pair(I, x, node, st), arr_pair(I, y, node, st)
    tags = ops.dtags(x, y)
    if a is None or b is None:
        return unk(name, tags)
    el = BOT
    for p in a[1].alts:
        for q in b[1].alts:
            el = join(el, mk(np_num(f(p, q))) if isinstance(p, Num) and isinstance(q, Num) else unk(name))
    if not el.alts:
        el = mk(Num(INF, -INF, FLOAT, "f64"))
    sh = ops.broadcast(I, a[0], b[0], st)
    if sh == ():
        return el.tag(tags)
    ex = ()
    n, m = a[1].num(), b[1].num()
    if n is not None and m is not None:
        if a[2] and b[0] == ():
            ex = tuple(ops.num_tuple(f(ops.wnum(w, n), m)) for w in a[2])
    return mk(Arr(sh, ops.drop_sym(el), I.fresh(node, name), ex), tags)


def arr_pair(I, v, node, st):
    if v.one(Num) is not None:
        n = v.one(Num)
        return (), mk(n), ()
    x = arr1(I, v, node, st)
    if x is None:
        return None
    return x.shape, x.elem, x.ex


def maxf(p, q):
    return Num(max(p.lo, q.lo), max(p.hi, q.hi), p.kinds | q.kinds, dt_join(p.dt, q.dt), p.nan or q.nan)


def minf(p, q):
    return Num(min(p.lo, q.lo), min(p.hi, q.hi), p.kinds | q.kinds, dt_join(p.dt, q.dt), p.nan or q.nan)


def logical(op):
    def f(p, q):
        a, b = ops.truth_atom(None, p, None), ops.truth_atom(None, q, None)
        r = None
        if op == "and":
            r = False if a is False or b is False else (True if a and b else None)
        elif op == "or":
            r = True if a or b else (False if a is False and b is False else None)
        elif a is not None and b is not None:
            r = a != b
        return Num(0, 1, BOOL, "i64") if r is None else Num(int(r), int(r), BOOL, "i64")
    return f


BIN = {"maximum": maxf, "fmax": maxf, "minimum": minf, "fmin": minf, "logical_and": logical("and"), "logical_or": logical("or"),
       "logical_xor": logical("xor"), "hypot": lambda p, q: Num(0.0, INF, FLOAT, "f64"), "arctan2": lambda p, q: Num(-3.2, 3.2, FLOAT, "f64"),
       "logaddexp": lambda p, q: Num(max(p.lo, q.lo), INF, FLOAT, "f64", p.nan or q.nan),
       "logaddexp2": lambda p, q: Num(max(p.lo, q.lo), INF, FLOAT, "f64", p.nan or q.nan),
       "float_power": lambda p, q: Num(0.0 if p.lo >= 0 else -INF, INF, FLOAT, "f64"), "copysign": lambda p, q: Num(-INF, INF, FLOAT, "f64"),
       "fmod": lambda p, q: Num(-INF, INF, p.kinds | q.kinds, "f64"), "gcd": lambda p, q: Num(0, INF, INT, "i64"),
       "lcm": lambda p, q: Num(0, INF, INT, "i64"), "heaviside": lambda p, q: Num(-INF, INF, FLOAT, "f64"),
       "isclose": lambda p, q: closef(p, q)}


def closef(p, q, tol=(1e-5, 1e-8)):
    """|p - q| <= atol + rtol |q|; tol None: tolerances not known"""
    if p.nan and p.bot or q.nan and q.bot:
        return Num(0, 0, BOOL, "i64")
    if p.bot or q.bot or tol is None or not (p.kinds | q.kinds <= REALNUM):
        return Num(0, 1, BOOL, "i64")
    rt, at = tol
    aq = (0 if q.lo <= 0 <= q.hi else min(abs(q.lo), abs(q.hi)), max(abs(q.lo), abs(q.hi)))
    gap = max(q.lo - p.hi, p.lo - q.hi)
    if gap > 0 and aq[1] < INF and gap > (at + rt * aq[1]) * 1.001 + 1e-13 * (1 + aq[1]):
        return Num(0, 0, BOOL, "i64")
    if not (p.nan or q.nan) and max(abs(p.lo), abs(p.hi), aq[1]) < INF and max(p.hi - q.lo, q.hi - p.lo) <= (at + rt * aq[0]) * 0.999 - 1e-13 * (1 + aq[1]):
        return Num(1, 1, BOOL, "i64")
    return Num(0, 1, BOOL, "i64")


def tolerances(args, kw):
    """(rtol, atol) of an isclose/allclose call; None when not constant"""
    out = []
    for i, (nm, d) in enumerate((("rtol", 1e-5), ("atol", 1e-8))):
        v = args[2 + i] if len(args) > 2 + i else kw.get(nm)
        n = v.num() if v is not None else None
        c = d if v is None else n.const if n is not None else None
        if c is None:
            return None
        out.append(c)
    return None if len(args) > 4 or "equal_nan" in kw else tuple(out)


# ------------------------------------------------------------------ reductions
def axis_list(I, axis, nd):
    """None -> all; list of ints; or 'unknown'."""
    if axis is None or axis.alts == (NONE,):
        return None
    n = axis.one(Num)
    if n is not None and n.const is not None:
        return [int(n.const) % nd if nd else 0]
    s = axis.one(Seq)
    if s is not None and s.items is not None and all(x.num() is not None and x.num().const is not None for x in s.items):
        return [int(x.num().const) % nd for x in s.items] if nd else []
    return "unknown"


def red_elem(I, kind, arr, removed, node, st):
    """Element (V) after reducing the dims in `removed` (list of Num)."""
    el = arr.elem
    n = el.one(Num)
    cnt = prod_dims(I, removed, st)
    if n is None:
        if kind in ("all", "any"):
            t = Num(0, 1, BOOL, "i64")
            return V((t, Unk(kind)) if el.unk or any(isinstance(a, Obj) for a in el.alts) else (t,), el.tags)
        if kind in ("count_nonzero",):
            return mk(Num(0, cnt.hi, INT, "i64"), el.tags)
        if kind in ("argmin", "argmax"):
            return mk(Num(0, max(0, cnt.hi - 1), INT, "i64"), el.tags)
        return unk(kind, el.tags)
    tags = el.tags
    if kind in ("all", "any"):
        t = ops.truth(I, mk(n), st)
        r = None
        wt = [ops.truth(I, mk(ops.wnum(w, n)), st) for w in arr.ex]
        if kind == "all":
            if False in wt:
                r = False
            elif t is True or cnt.hi == 0:
                r = True
            elif t is False and cnt.lo >= 1:
                r = False
        else:
            if True in wt:
                r = True
            elif t is False or cnt.hi == 0:
                r = False
            elif t is True and cnt.lo >= 1:
                r = True
        return mk(Num(0, 1, BOOL, "i64") if r is None else Num(int(r), int(r), BOOL, "i64"), tags)
    if kind in ("max", "min"):
        if cnt.hi == 0:
            I.raise_("ValueError", node, st)
        if cnt.lo < 1:
            I.maybe_raise("ValueError", node, st)
        lo, hi = n.lo, n.hi
        for w in arr.ex:
            if kind == "max":
                lo = max(lo, w[0])
            else:
                hi = min(hi, w[1])
        return mk(Num(lo, hi, n.kinds, n.dt, n.nan), tags)
    if kind == "sum":
        ks = frozenset("int" if k == "bool" else k for k in n.kinds)
        dt = "i64" if n.kinds <= {"int", "bool"} else n.dt
        if n.dt == "obj":
            dt = "obj"
        for k, v in arr.aux:
            if k == "sum":
                return mk(Num(v[0], v[1], ks, "f64" if "float" in ks else dt, n.nan), tags)
        if n.bot:
            return mk(Num(0, 0, ks, dt), tags)
        t = ops.num_binop(I, "Mult", Num(n.lo, n.hi, ks), Num(max(0, cnt.lo), cnt.hi, INT), st)
        lo, hi = t.lo, t.hi
        if n.lo >= 0 and arr.ex:
            lo = max(lo, max(w[0] for w in arr.ex))
        if cnt.lo == 0 and cnt.hi > 0:
            lo, hi = min(lo, 0), max(hi, 0)
        return mk(Num(lo, hi, ks, dt, n.nan), tags)
    if kind == "prod":
        ks = frozenset("int" if k == "bool" else k for k in n.kinds)
        if n.lo >= 1:
            return mk(Num(n.lo if cnt.lo >= 1 else 1, INF, ks, "i64" if ks <= {"int"} else "f64"), tags)
        return mk(Num(0 if n.lo >= 0 else -INF, INF if n.hi > 1 else 1, ks, "i64" if ks <= {"int"} else "f64", n.nan), tags)
    if kind == "mean":
        if n.kinds <= {"complex"}:
            return mk(Num(-INF, INF, CPLX, "f64"), tags)
        ks = (n.kinds & CPLX) | FLOAT
        return mk(Num(n.lo, n.hi, ks, "f64", n.nan or cnt.lo == 0), tags)
    if kind in ("std", "var", "norm", "ptp"):
        return mk(Num(0, INF, FLOAT, "f64", n.nan), tags)
    if kind == "median":
        return mk(Num(n.lo, n.hi, FLOAT, "f64", n.nan), tags)
    if kind == "count_nonzero":
        t = ops.truth(I, mk(n), st)
        hi = 0 if t is False else cnt.hi
        lo = cnt.lo if t is True else (1 if any(ops.truth(I, mk(ops.wnum(w, n)), st) for w in arr.ex) else 0)
        return mk(Num(lo, hi, INT, "i64", False, cnt.sym if t is True else None), tags)
    if kind in ("argmin", "argmax"):
        if cnt.hi == 0:
            I.raise_("ValueError", node, st)
        r = Num(0, max(0, cnt.hi - 1), INT, "i64")
        return mk(r, tags)
    if kind in ("xor", "or", "and"):
        if n.lo >= 0:
            hi = INF if n.hi == INF else (1 << int(n.hi).bit_length()) - 1
            return mk(Num(0, max(hi, 0), n.kinds, n.dt, n.nan), tags)
        return mk(Num(-INF, INF, n.kinds, n.dt), tags)
    return unk(kind, tags)


def reduce_(I, v, kind, args, kw, node, st, axis_pos=0):
    axis = kw.get("axis", args[axis_pos] if len(args) > axis_pos else None)
    keep = ops.truth(I, kw["keepdims"], st) if "keepdims" in kw else False
    init = kw.get("initial")
    tags = ops.dtags(v)
    dts = parse_dtype(I, kw.get("dtype"))
    res = BOT
    for a in v.alts:
        if isinstance(a, Unk):
            if kind in ("all", "any"):
                res = join(res, V((Num(0, 1, BOOL, "i64"), Unk(a.why))))
            else:
                res = join(res, unk(a.why))
            continue
        x = ops.to_arr(I, a, node, st) if isinstance(a, (Arr, Num, Seq, Obj)) else None
        if x is None:
            if a is NONE or isinstance(a, Str):
                if len(v.alts) == 1:
                    I.raise_("TypeError", node, st)
                continue
            res = join(res, unk(kind))
            continue
        if x.shape is None:
            ax = None if axis is None or axis.alts == (NONE,) else "unknown"
            el = red_elem(I, kind, x, [Num(0, INF, INT)], node, st)
            res = join(res, el)
            if ax == "unknown":
                res = join(res, mk(Arr(None, el, I.fresh(node, kind))))
            continue
        nd = len(x.shape)
        ax = axis_list(I, axis, nd)
        if ax == "unknown":
            el = red_elem(I, kind, x, list(x.shape), node, st)
            res = join(res, mk(Arr(None, el, I.fresh(node, kind))))
            continue
        if ax is None:
            removed, keepd = list(x.shape), []
            newshape = tuple(ONE for _ in x.shape) if keep else ()
        else:
            if nd == 0 and ax:
                I.raise_("ValueError", node, st)
            removed = [x.shape[k] for k in ax]
            newshape = tuple(ONE if k in ax else d for k, d in enumerate(x.shape)) if keep else tuple(d for k, d in enumerate(x.shape) if k not in ax)
        try:
            el = red_elem(I, kind, x if ax is None or len(ax) == nd else Arr(x.shape, x.elem, x.roots, x.ex if False else (), frozenset()), removed, node, st)
        except Dead:
            if init is None:
                if len(v.alts) == 1:
                    raise
                continue
            el = init
        if ax is not None and kind == "sum":
            for k, sv in x.aux:
                if k == "rowsum" and ax == [nd - 1]:
                    n = x.elem.num()
                    el = mk(Num(sv[0], sv[1], n.kinds, n.dt), x.elem.tags)
        if ax is not None and kind in ("all", "any") and x.ex and len(ax) < nd:
            # some row contains the witness
            n = x.elem.num()
            full = red_elem(I, kind, x, removed, node, st)
            if n is not None and full.num().const is not None and el.num().const is None:
                el2 = el
                res = join(res, mk(Arr(newshape, ops.drop_sym(el2), I.fresh(node, kind), ((full.num().lo, full.num().hi),)), batch_tags(I, removed, node)))
                continue
        el = cast_elem(I, el, dts, node, st)
        mt = batch_tags(I, removed, node) if kind not in () else NOTAGS
        if newshape == ():
            res = join(res, el.tag(mt))
        else:
            res = join(res, mk(Arr(newshape, ops.drop_sym(el), I.fresh(node, kind)), mt))
    if not res.alts:
        raise Dead()
    if "out" in kw:
        return write_out(I, kw["out"], res, node, st)
    return res.tag(tags)


def write_out(I, out, res, node, st):
    for o in out.alts:
        if isinstance(o, Arr):
            store(I, o, elem_of(I, res, node, st), node, st, "out= argument", ops.dtags(res))
        elif isinstance(o, Unk):
            I.mutate(o.roots, None, node, st, "out= argument")
        elif isinstance(o, Seq) and o.items:
            write_out(I, o.items[0], res, node, st)
    cur = I
    return out


RED = {"sum": "sum", "nansum": "sum", "prod": "prod", "all": "all", "any": "any", "alltrue": "all", "sometrue": "any", "max": "max",
       "amax": "max", "nanmax": "max", "min": "min", "amin": "min", "nanmin": "min", "mean": "mean", "nanmean": "mean", "average": "mean",
       "std": "std", "var": "var", "median": "median", "count_nonzero": "count_nonzero", "argmin": "argmin", "argmax": "argmax",
       "ptp": "ptp"}
UFRED = {"add": "sum", "multiply": "prod", "logical_and": "all", "logical_or": "any", "maximum": "max", "minimum": "min",
         "bitwise_xor": "xor", "bitwise_or": "or", "bitwise_and": "and", "logaddexp": "logaddexp", "logical_xor": "lxor", "subtract": "unk"}


# ------------------------------------------------------------------ reshape
def reshape(I, arr, shape, node, st, tags):
    """shape: tuple of Nums (may contain -1)."""
    if shape is None:
        return mk(Arr(None, arr.elem, arr.roots, arr.ex), tags)
    dims = []
    hole = None
    for k, d in enumerate(shape):
        d = ops.fin(I, st, d)
        if d.const is not None and d.const == -1:
            hole = k
            dims.append(None)
        elif d.lo < 0 and d.hi >= 0 and d.const is None and d.lo == -1:
            dims.append(Num(0, INF, INT))
        else:
            dims.append(d)
    if arr.shape is None:
        out = tuple(Num(0, INF, INT) if d is None else d for d in dims)
        return mk(Arr(clampdims(out), arr.elem, arr.roots, arr.ex), tags)
    # cancel dims that appear on both sides
    src = list(arr.shape)
    rest = []
    for d in dims:
        if d is None:
            continue
        for s in src:
            if (s.const is not None and s.const == d.const) or (s.sym is not None and s.sym == d.sym):
                src.remove(s)
                break
        else:
            rest.append(d)
    total = prod_dims(I, src, st)
    known = prod_dims(I, rest, st)
    if hole is not None:
        if known.const == 1:
            h = total
        else:
            h = None
            if known.hi > 0:
                kn = Num(max(1, known.lo), known.hi, INT, "py", False, known.sym)
                m = ops.num_binop(I, "Mod", total, kn, st)
                if m.lo >= 1:
                    I.raise_("ValueError", node, st)
                if m.hi > 0:
                    I.maybe_raise("ValueError", node, st)
                h = ops.num_binop(I, "FloorDiv", total, kn, st)
            if h is None:
                h = Num(0, INF, INT)
        dims[hole] = Num(max(0, h.lo), max(0, h.hi), INT, "py", False, h.sym)
    else:
        t = ops.num_cmp(I, "Eq", total, known, st)
        if t is False:
            I.raise_("ValueError", node, st)
        if t is None:
            I.maybe_raise("ValueError", node, st)
    return mk(Arr(clampdims(tuple(dims)), arr.elem, arr.roots, arr.ex), tags)


# ------------------------------------------------------------------ matmul
def matmul(I, x, y, node, st, dot=False):
    tags = ops.dtags(x, y)
    res = BOT
    for p in x.alts:
        for q in y.alts:
            if isinstance(p, Obj) or isinstance(q, Obj):
                try:
                    res = join(res, ops.obj_binop(I, "MatMult", p, q, node, st, tags))
                except Dead:
                    continue
                continue
            if isinstance(p, Num) or isinstance(q, Num):
                if dot:
                    res = join(res, I.binop("Mult", mk(p), mk(q), node, st))
                    continue
                I.raise_("ValueError", node, st)
            a = ops.to_arr(I, p, node, st) if isinstance(p, (Arr, Seq)) else None
            b = ops.to_arr(I, q, node, st) if isinstance(q, (Arr, Seq)) else None
            if a is None or b is None:
                res = join(res, unk("matmul"))
                continue
            res = join(res, mm1(I, a, b, node, st, dot))
    if not res.alts:
        raise Dead()
    return res.tag(tags)


def mm1(I, a, b, node, st, dot):
    inner = None
    if a.shape is not None and b.shape is not None and a.shape and b.shape:
        k1 = a.shape[-1]
        k2 = b.shape[-2] if len(b.shape) > 1 else b.shape[0]
        t = ops.num_cmp(I, "Eq", k1, k2, st)
        if t is False:
            I.raise_("ValueError", node, st)
        if t is None:
            I.maybe_raise("ValueError", node, st)
        inner = k1 if k1.const is not None or k1.sym is not None else k2
        if len(a.shape) == 1 and len(b.shape) == 1:
            sh = ()
        elif len(b.shape) == 1:
            sh = a.shape[:-1]
        elif len(a.shape) == 1:
            sh = b.shape[:-2] + b.shape[-1:]
        elif dot:
            sh = a.shape[:-1] + b.shape[:-2] + b.shape[-1:]
        else:
            lead = ops.broadcast(I, a.shape[:-2], b.shape[:-2], st)
            sh = None if lead is None else tuple(lead) + (a.shape[-2], b.shape[-1])
        mt = batch_tags(I, [k1, k2], node)
    else:
        if (a.shape == () or b.shape == ()) and dot:
            sh = a.shape if b.shape == () else b.shape
            return mk(Arr(sh, ops.elem_binop(I, "Mult", a.elem, b.elem, node, st), I.fresh(node, "dot")))
        sh, mt = None, NOTAGS
    n, m = a.elem.one(Num), b.elem.one(Num)
    if n is None or m is None:
        el = unk("matmul") if a.elem.unk or b.elem.unk or not a.elem.alts or not b.elem.alts else obj_mm(I, a, b, node, st)
    else:
        t = ops.num_binop(I, "Mult", n, m, st)
        cnt = Num(0, INF, INT) if inner is None else Num(max(0, inner.lo), inner.hi, INT)
        s = ops.num_binop(I, "Mult", Num(t.lo, t.hi, t.kinds - BOOL | (INT if "bool" in t.kinds else frozenset())), cnt, st)
        ks = t.kinds
        lo, hi = (s.lo, s.hi)
        if ks <= {"bool"}:
            lo, hi = 0, 1
        r = Num(min(lo, 0) if cnt.lo == 0 else lo, max(hi, 0), ks, t.dt, t.nan)
        if ops.npbool(n) and ops.npbool(m):
            I.event("bool-matmul", node, "matrix product of boolean arrays")
        ops.check_narrow(I, "MatMult", r, node, n, m)
        el = mk(r)
    el = el.tag(a.elem.tags | b.elem.tags)
    if sh == ():
        return el.tag(mt)
    return mk(Arr(sh, ops.drop_sym(el), I.fresh(node, "matmul")), mt)


def obj_mm(I, a, b, node, st):
    try:
        t = I.binop("Mult", a.elem, b.elem, node, st)
        return I.binop("Add", t, t, node, st)
    except Dead:
        return unk("matmul")


# ------------------------------------------------------------------ concatenation
def concat(I, parts, axis, node, st, stack=False, kind="concatenate"):
    xs = []
    tags = ops.dtags(*parts)
    for p in parts:
        x = arr1(I, p, node, st)
        if x is None:
            return unk(kind, tags)
        xs.append(x)
    if not xs:
        I.raise_("ValueError", node, st)
    el = promote_elems([x.elem for x in xs])
    ex = tuple(w for x in xs for w in x.ex)[:6]
    if any(x.shape is None for x in xs):
        return mk(Arr(None, el, I.fresh(node, kind), ex), tags)
    if kind == "vstack":
        shapes = [((ONE,) + tuple(x.shape)) if len(x.shape) == 1 else ((ONE, ONE) if x.shape == () else x.shape) for x in xs]
        axis = 0
    elif kind == "hstack":
        shapes = [x.shape if x.shape != () else (ONE,) for x in xs]
        axis = 0 if len(shapes[0]) == 1 else 1
    elif kind == "column_stack":
        shapes = [(x.shape + (ONE,)) if len(x.shape) == 1 else x.shape for x in xs]
        axis = 1
    else:
        shapes = [x.shape for x in xs]
    if stack:
        sh0 = shapes[0]
        for s in shapes[1:]:
            sh0 = join_shape(sh0, s)
            if sh0 is None:
                return mk(Arr(None, el, I.fresh(node, kind)), tags)
        ax = axis % (len(sh0) + 1)
        return mk(Arr(sh0[:ax] + (num_const(len(xs)),) + sh0[ax:], el, I.fresh(node, kind), ex), tags)
    nd = len(shapes[0])
    if any(len(s) != nd for s in shapes) or nd == 0:
        I.raise_("ValueError", node, st)
    ax = axis % nd
    out = []
    for k in range(nd):
        if k == ax:
            t = num_const(0)
            for s in shapes:
                t = ops.num_binop(I, "Add", t, s[k], st)
            out.append(t)
        else:
            d = shapes[0][k]
            for s in shapes[1:]:
                if ops.num_cmp(I, "Eq", d, s[k], st) is False:
                    I.raise_("ValueError", node, st)
                if d.sym is None and s[k].sym is not None:
                    d = s[k]
            out.append(d)
    return mk(Arr(tuple(out), ops.drop_sym(el), I.fresh(node, kind), ex), tags)


def promote_elems(els):
    r = BOT
    dts = set()
    for e in els:
        n = e.num()
        if n is not None and not n.bot:
            dts.add(n.dt)
        r = join(r, e)
    if "i64" in dts and "narrow" in dts and "f64" not in dts:
        r = V(tuple(Num(a.lo, a.hi, a.kinds, "i64", a.nan, a.sym) if isinstance(a, Num) else a for a in r.alts), r.tags)
    return ops.drop_sym(r)


def seq_parts(I, v, node, st):
    """Parts of a sequence argument: exact list, or (elem, length)."""
    it = ops.exact_items(I, v, node, st)
    if it is not None:
        return it, None
    el, ln, _ = ops.iter_elem(I, v, node, st)
    return [el] if el.alts else [], ln


def concat_call(I, name, v, axis, node, st, dts=None):
    it, ln = seq_parts(I, v, node, st)
    if ln is None:
        r = concat(I, it, axis, node, st, stack=name == "stack", kind=name)
    elif not it:
        I.raise_("ValueError", node, st)
    else:
        # unknown number of equal parts
        x = arr1(I, it[0], node, st)
        if x is None:
            return unk(name, ops.dtags(v))
        tags = ops.dtags(v)
        if x.shape is None:
            return mk(Arr(None, x.elem, I.fresh(node, name)), tags)
        sh = x.shape
        if ln.hi == 0:
            I.raise_("ValueError", node, st)
        if ln.lo < 1:
            I.maybe_raise("ValueError", node, st)
        lnn = Num(max(1, ln.lo), ln.hi, INT, "py", False, ln.sym)
        if name == "stack" or (name == "vstack" and len(sh) <= 1):
            if name == "vstack" and sh == ():
                sh = (ONE,)
            ax = axis % (len(sh) + 1)
            out = sh[:ax] + (lnn,) + sh[ax:]
        else:
            if sh == ():
                sh = (ONE,)
            ax = (0 if len(sh) == 1 else 1) if name == "hstack" else axis % len(sh)
            d = ops.num_binop(I, "Mult", lnn, sh[ax], st)
            t = ops.num_binop(I, "Add", ln, num_const(0), st)
            exactd = sh[ax].sym is not None and ln.sym is not None
            out = sh[:ax] + (d if exactd else Num(d.lo, d.hi, INT),) + sh[ax + 1:]
        r = mk(Arr(tuple(out), ops.drop_sym(x.elem), I.fresh(node, name), x.ex), tags)
    return cast_v(I, r, dts, node, st) if dts is not None else r


# ------------------------------------------------------------------ random
SIZE_POS = {"random": 0, "normal": 2, "choice": 1, "integers": 2, "uniform": 2, "standard_normal": 0, "binomial": 2, "exponential": 1,
            "poisson": 1, "rayleigh": 1, "standard_exponential": 0, "gamma": 2, "laplace": 2, "geometric": 1, "permutation": 9, "bytes": 9}


def call_rng(I, a, args, kw, node, st):
    r = _call_rng(I, a, args, kw, node, st)
    I.event("draw", node, a.path[4:] + (" (in loop)" if I.in_loop() else ""), value=(a.recv, r, I.in_loop(), I.cached_depth))
    return taint_draw(r)


DRAWN = frozenset([("draw",)])


def taint_draw(r):
    """everything computed from a draw can be traced back to it"""
    out = [Arr(x.shape, x.elem.tag(DRAWN), x.roots, x.ex, x.aux) if isinstance(x, Arr) else x for x in r.alts]
    return V(tuple(out), r.tags | DRAWN)


def _call_rng(I, a, args, kw, node, st):
    nm = a.path[4:]
    r = a.recv.one(Rng)
    tags = ops.dtags(*args, *kw.values()) | {("rng", str(r.src if r is not None else "?"))}
    pos = SIZE_POS.get(nm, 9)
    size = kw.get("size", args[pos] if len(args) > pos else None)
    if nm in ("shuffle",):
        for x in args[0].alts:
            I.mutate(getattr(x, "roots", frozenset()), None, node, st, "rng.shuffle()")
        return const(None)
    if nm == "spawn":
        return mk(Seq("list", None, mk(Rng(r.src)), Num(0, INF, INT), I.fresh(node)))
    el = Num(-INF, INF, FLOAT, "f64")
    if nm == "random":
        el = Num(0.0, 1.0 - 2.0 ** -53, FLOAT, "f64")       # half-open interval
    elif nm == "normal":
        loc, sc = (args[0] if args else kw.get("loc", const(0.0))), (args[1] if len(args) > 1 else kw.get("scale", const(1.0)))
        ln, sn = loc.num(), sc.num()
        if ln is not None and sn is not None and ln.const is not None and sn.const == 0:
            el = Num(float(ln.const), float(ln.const), FLOAT, "f64")
    elif nm == "uniform":
        lov, hiv = (args[0] if args else kw.get("low", const(0.0))), (args[1] if len(args) > 1 else kw.get("high", const(1.0)))
        ln, hn = lov.num(), hiv.num()
        if ln is not None and hn is not None and ln.lo <= hn.hi:
            import math
            el = Num(float(ln.lo), math.nextafter(float(hn.hi), -INF) if hn.hi < INF and hn.lo > ln.hi else float(hn.hi), FLOAT, "f64")
    elif nm == "integers":
        lo = args[0].num() if args else kw.get("low", const(0)).num()
        hi = args[1] if len(args) > 1 else kw.get("high")
        hin = hi.num() if hi is not None else None
        if hin is None:
            lo, hin = num_const(0), lo
        el = Num(lo.lo if lo else -INF, hin.hi - 1 if hin else INF, INT, "i64")
    elif nm == "binomial":
        nv = args[0] if args else kw.get("n")
        n = nv.num() if nv is not None else None
        pv = args[1] if len(args) > 1 else kw.get("p")
        pn = pv.num() if pv is not None else None
        el = Num(0, n.hi if n is not None else INF, INT, "i64")
        if n is not None and pn is not None and pn.const is not None and pn.const in (0, 1):
            el = Num(n.lo * pn.const, n.hi * pn.const, INT, "i64")
    elif nm == "choice":
        x = args[0] if args else kw.get("a")
        n = x.one(Num)
        if n is not None:
            el = Num(0, n.hi - 1, INT, "i64")
            pv = kw.get("p", args[3] if len(args) > 3 else None)
            ws = lit.literal(pv) if pv is not None else None
            if isinstance(ws, tuple) and ws and all(isinstance(w, (int, float)) for w in ws) and n.const == len(ws) and any(ws):
                nz = [k for k, w in enumerate(ws) if w]
                el = Num(nz[0], nz[-1], INT, "i64")
        else:
            e, _, _ = ops.iter_elem(I, x, node, st)
            n = e.num()
            el = n if n is not None else el
            el = np_num(el)
            pv = kw.get("p", args[3] if len(args) > 3 else None)
            ws, xs = (lit.literal(pv) if pv is not None else None), lit.literal(x)
            if (isinstance(ws, tuple) and isinstance(xs, tuple) and len(ws) == len(xs) and any(ws)
                    and all(isinstance(w, (int, float)) for w in ws + xs)):
                nz = [k for k, w in zip(xs, ws) if w]
                el = Num(min(nz), max(nz), el.kinds, el.dt)
    elif nm in ("exponential", "rayleigh", "standard_exponential", "gamma"):
        el = Num(0.0, INF, FLOAT, "f64")
    elif nm in ("poisson", "geometric"):
        el = Num(0, INF, INT, "i64")
    elif nm in ("permutation", "permuted"):
        x = arr1(I, args[0], node, st)
        if x is not None:
            if x.shape == ():
                n = x.elem.num()
                return mk(Arr((Num(0, n.hi, INT, sym=n.sym),), mk(Num(0, n.hi - 1, INT, "i64")), I.fresh(node)), tags)
            return mk(Arr(x.shape, x.elem, I.fresh(node), x.ex), tags)
        return unk("rng", tags)
    if "out" in kw:
        return write_out(I, kw["out"], mk(el), node, st)
    lo = args[0] if args else kw.get("loc")
    shp = None
    if size is not None and size.alts != (NONE,):
        sh = shape_of_arg(I, size, node, st)
        return mk(Arr(clampdims(sh), mk(el, tags), I.fresh(node, "rng")), tags)
    # shape from broadcast parameters
    sh = ()
    for v in list(args[:2]) + [kw[k] for k in ("loc", "scale", "low", "high", "p", "n") if k in kw]:
        if nm in ("choice",):
            continue
        p = arr_pair(I, v, node, st)
        if p is None or p[0] is None:
            sh = None
            break
        sh = ops.broadcast(I, sh, p[0], st)
        if sh is None:
            break
    if sh == ():
        return mk(el, tags)
    return mk(Arr(sh, mk(el, tags), I.fresh(node, "rng")), tags)


# ------------------------------------------------------------------ main dispatch
def call_np(I, a, args, kw, node, st):
    r = call_np0(I, a, args, kw, node, st)
    if not any(isinstance(x, tuple) for x in args):
        nm = a.path.split(".", 1)[1]
        dt = parse_dtype(I, kw.get("dtype"))
        if dt is None or dt[0] in (INT, FLOAT):
            x = lit.np_fold(nm, args, {k: v for k, v in kw.items() if k != "dtype"})
            if x is not None:
                r = lit.attach(r, x)
    return r


def call_np0(I, a, args, kw, node, st):
    path = a.path
    nm = path.split(".", 1)[1]
    tags = ops.dtags(*args, *kw.values())
    if any(isinstance(x, tuple) for x in args):
        args = plain(args)
        if nm not in ("ravel_multi_index", "broadcast_arrays", "lexsort", "ix_", "meshgrid"):
            return unk("splat " + nm, tags)
    args = list(args)
    if nm.startswith("random."):
        return np_random(I, nm[7:], args, kw, node, st, tags)
    if nm in ("seterr", "set_printoptions", "seterrcall", "set_string_function", "setbufsize"):
        I.event("extwrite", node, path)
        return unk(nm)
    if nm == "errstate" or nm == "printoptions":
        return mk(Ext("numpy.errstate_ctx"))
    if nm.startswith("linalg."):
        return np_linalg(I, nm[7:], args, kw, node, st, tags)
    if nm.startswith("fft."):
        x = arr1(I, args[0], node, st) if args else None
        if nm in ("fft.fft", "fft.ifft", "fft.rfft"):
            sh = x.shape if x is not None and nm != "fft.rfft" else None
            ax = axis_list(I, kw.get("axis", args[2] if len(args) > 2 else const(-1)), len(x.shape) if x is not None and x.shape is not None else 0)
            if x is not None and x.shape is not None:
                mt = NOTAGS if ax == "unknown" else batch_tags(I, [x.shape[k] for k in ax] if ax is not None else x.shape, node)
            else:
                mt = NOTAGS
            if ax is None or ax == "unknown" or not sh or len(ax) != 1:
                sh = None
            nv = kw.get("n", args[1] if len(args) > 1 else mk(NONE))
            if sh is not None and nv.alts != (NONE,):
                n = nv.num()
                sh = (sh[:ax[0]] + (n,) + sh[ax[0] + 1:]) if n is not None else None
            return mk(Arr(sh, mk(Num(-INF, INF, CPLX, "f64")), I.fresh(node)), tags | ops.REAL | mt)
        if nm in ("fft.fftshift", "fft.ifftshift"):
            if x is None:
                return unk(nm, tags)
            mt = NOTAGS
            if x.shape is not None:
                al = axis_list(I, kw.get("axes", args[1] if len(args) > 1 else mk(NONE)), len(x.shape))
                mt = batch_tags(I, x.shape, node) if al is None else NOTAGS if al == "unknown" else batch_tags(I, [x.shape[k] for k in al], node)
            return mk(Arr(x.shape, x.elem, I.fresh(node), x.ex), tags | mt)
        if nm in ("fft.fftfreq", "fft.rfftfreq"):
            n = (args[0] if args else kw["n"]).num()
            tags = ops.dtags(*args, *kw.values())
            return mk(Arr((n,) if n is not None else None, mk(Num(-INF, INF, FLOAT, "f64")), I.fresh(node)), tags | ops.REAL)
        return unk(nm, tags)
    if "." in nm:
        base, meth = nm.split(".", 1)
        if meth in ("reduce", "accumulate", "outer", "at", "reduceat"):
            return ufunc_method(I, base, meth, args, kw, node, st, tags)
        if nm == "polynomial.legendre.leggauss":
            n = args[0].num()
            ar = Arr((n,) if n is not None else None, mk(Num(-1.0, 1.0, FLOAT, "f64")), I.fresh(node, 1))
            br = Arr((n,) if n is not None else None, mk(Num(0.0, 2.0, FLOAT, "f64")), I.fresh(node, 2))
            return I.seq("tuple", [mk(ar, ops.REAL), mk(br, ops.REAL)], node, roots=frozenset())
        I.note_unmodelled(path, node)
        return unk(path, tags)
    f = NP.get(nm)
    if f is not None:
        I.npname = nm
        r = f(I, args, kw, node, st, tags)
        return unso(r) if nm in ORDERLESS and not kw and len(args) == 1 else r
    if nm in UFUNC1:
        return ufunc1(I, nm, args, kw, node, st)
    if nm in UFUNC2:
        if len(args) < 2:
            I.raise_("TypeError", node, st)
        x, y = (asw(I, v, node, st) for v in args[:2])
        r = I.binop(UFUNC2[nm], x, y, node, st)
        r = cast_v(I, r, parse_dtype(I, kw.get("dtype")), node, st) if "dtype" in kw else r
        out = kw.get("out", args[2] if len(args) > 2 else None)
        return write_out(I, out, r, node, st) if out is not None and out.alts != (NONE,) else r
    if nm in CMP2:
        r = ops.compare(I, CMP2[nm](), asw(I, args[0], node, st), asw(I, args[1], node, st), node, st)
        out = kw.get("out", args[2] if len(args) > 2 else None)
        return write_out(I, out, r, node, st) if out is not None and out.alts != (NONE,) else r
    if nm in BIN:
        r = binary(I, args[0], args[1], BIN[nm] if nm != "isclose" else lambda p, q, t=tolerances(args, kw): closef(p, q, t), node, st, nm)
        out = kw.get("out", args[2] if len(args) > 2 and nm != "isclose" else None)
        return write_out(I, out, r, node, st) if out is not None and out.alts != (NONE,) else r
    if nm in RED:
        pos = 1
        r = reduce_(I, args[0] if args else kw["a"], RED[nm], args, kw, node, st, axis_pos=pos)
        return unso(r) if len(args) < 2 and "axis" not in kw else r
    if nm in DTYPES:
        if not args:
            return const(0)
        return cast_v(I, asw(I, args[0], node, st), DTYPES[nm], node, st)
    I.note_unmodelled(path, node)
    return unk(path, tags)


ORDERLESS = {"sum", "prod", "max", "min", "amax", "amin", "any", "all", "mean", "sort", "unique", "bincount", "size", "lcm.reduce", "gcd.reduce", "count_nonzero"}


def asw(I, v, node, st):
    """Seq alternatives turned into arrays; scalars stay weak."""
    out = BOT
    for a in v.alts:
        if isinstance(a, Seq):
            x = ops.to_arr(I, a, node, st)
            out = join(out, mk(x) if x is not None else unk("arr"))
        else:
            out = join(out, mk(a))
    return out.tag(ops.dtags(v))


SIGNED, ROUNDED = frozenset([("signed",)]), frozenset([("rounded",)])


def ufunc1(I, nm, args, kw, node, st):
    v = args[0]
    if nm in VIEWY and any(isinstance(x, Arr) for x in v.alts):
        return I.getattr_v(asarray(I, v, None, node, st), nm, node, st)
    tags = NOTAGS
    tg = ops.dtags(v)
    if nm in REALF:
        tags = ops.REAL
    elif nm in INEXACT_INT and ("real",) not in tg:
        x = arr1(I, v, node, st)
        tags = ln_tags(nm, tg, x.elem.num() if x is not None else None, node)
    if nm in ("ceil", "floor", "rint", "round", "around", "trunc", "fix"):
        round_event(I, v, node, "np." + nm)
    if nm in ("sign", "rint", "around", "round", "floor", "ceil", "trunc"):     # the whole range is attained
        x = arr1(I, v, node, st)
        n = x.elem.num() if x is not None else None
        if n is not None and n.lo == -INF and n.hi == INF and "complex" not in n.kinds:
            tags = tags | (SIGNED if nm == "sign" else ROUNDED)
    if nm == "negative":
        r = ops.unop(I, ast.USub(), asw(I, v, node, st), node, st)
    else:
        f = UFUNC1[nm]
        dec = kw.get("decimals", args[1] if len(args) > 1 else None) if nm in ("around", "round", "round_") else None
        if dec is not None and (dec.num() is None or dec.num().const != 0):      # rounded to a decimal place: not whole, moved by at most one unit
            f, tags = (lambda n: n if n.bot or n.kinds <= {"int", "bool"} else Num(n.lo - 1, n.hi + 1, n.kinds, n.dt, n.nan)), tags - ROUNDED
        r = elementwise(I, v, f, node, st, nm, tags)
    out = kw.get("out", args[1] if len(args) > 1 and nm not in ("around", "round") else None)
    if out is not None and out.alts != (NONE,):
        return write_out(I, out, r, node, st)
    return r


def ufunc_method(I, base, meth, args, kw, node, st, tags):
    if meth == "at":
        x = args[0]
        for o in x.alts:
            if isinstance(o, Arr):
                el = o.elem
                if len(args) > 2:
                    el = join(el, ops.elem_binop(I, UFUNC2.get(base, "Add"), o.elem, elem_of(I, args[2], node, st), node, st))
                    n = el.num()
                    if base in ("add", "multiply") and n is not None:
                        el = join(el, mk(Num(n.lo if n.lo >= 0 else -INF, INF, n.kinds, n.dt)))
                store(I, o, el, node, st, f"np.{base}.at()", tags)
            elif isinstance(o, Unk):
                I.mutate(o.roots, None, node, st, f"np.{base}.at()")
        return const(None)
    if meth == "outer":
        a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
        if a is None or b is None or base not in UFUNC2:
            return unk(base + ".outer", tags)
        el = ops.elem_binop(I, UFUNC2[base], a.elem, b.elem, node, st)
        sh = a.shape + b.shape if a.shape is not None and b.shape is not None else None
        return mk(Arr(sh, ops.drop_sym(el), I.fresh(node, "outer")), tags)
    if meth == "accumulate":
        return cumulative(I, args[0], base, kw.get("axis", args[1] if len(args) > 1 else const(0)), node, st)
    kind = UFRED.get(base)
    if kind is None or kind == "unk":
        I.note_unmodelled(f"numpy.{base}.{meth}", node)
        return unk(base, tags)
    kw = dict(kw)
    if "axis" not in kw and len(args) < 2:
        kw["axis"] = const(0)
    v = args[0]
    if kind in ("logaddexp", "lxor"):
        r = reduce_(I, v, "max", args, kw, node, st, axis_pos=1)
        f = (lambda n: Num(n.lo, INF, FLOAT, "f64", n.nan)) if kind == "logaddexp" else (lambda n: Num(0, 1, BOOL, "i64"))
        return elementwise(I, r, f, node, st, kind)
    return reduce_(I, v, kind, args, kw, node, st, axis_pos=1)


def cumulative(I, v, base, axis, node, st):
    x = arr1(I, v, node, st)
    tags = ops.dtags(v)
    if x is None:
        return unk("cumulative", tags)
    n = x.elem.num()
    if n is None:
        el = unk("cum")
    elif base in ("add",):
        cnt = size_num(I, x, st)
        s = ops.num_binop(I, "Mult", Num(n.lo, n.hi, n.kinds), Num(1, max(1, cnt.hi), INT), st)
        el = mk(Num(min(n.lo, s.lo), max(n.hi, s.hi), s.kinds, "i64" if s.kinds <= {"int", "bool"} else "f64", n.nan))
    elif base in ("bitwise_xor", "bitwise_or") and n.lo >= 0 and n.hi < INF:
        el = mk(Num(0, (1 << int(n.hi).bit_length()) - 1, n.kinds, n.dt))
    elif base in ("maximum", "minimum"):
        el = mk(n)
    elif base in ("logical_xor", "logical_or", "logical_and"):
        el = mk(ops.NPBOOL)
    else:
        el = mk(Num(0 if n.lo >= 0 else -INF, INF, n.kinds, n.dt, n.nan))
    sh, mt = x.shape, NOTAGS
    if axis is None or axis.alts == (NONE,):
        if sh is not None:
            mt = batch_tags(I, sh, node) if len(sh) > 1 else batch_tags(I, sh, node)
            sh = (size_num(I, x, st),)
    elif sh is not None:
        k = axis.num()
        if k is not None and k.const is not None and sh:
            mt = batch_tags(I, [sh[int(k.const) % len(sh)]], node)
    return mk(Arr(sh, el.tag(x.elem.tags), I.fresh(node, "cum")), tags | mt)


def np_random(I, nm, args, kw, node, st, tags):
    if nm == "default_rng":
        seed = args[0] if args else kw.get("seed")
        if seed is not None and any(isinstance(x, Rng) for x in seed.alts):
            return seed
        kind = "os-entropy" if seed is None or seed.alts == (NONE,) else ("seed" if not seed.num() or seed.num().const is None else "constant-seed")
        I.event("rng-create", node, kind)
        fr = I.frames[-1] if I.frames else None
        where = fr.fi.qual if fr else "?"
        return mk(Rng(("created", where, kind, I.phase)), frozenset(t for t in tags if t[0] in ("p", "ps")))
    if nm in ("Generator", "PCG64", "SeedSequence", "MT19937", "Philox", "SFC64", "BitGenerator"):
        if nm == "Generator":
            I.event("rng-create", node, "explicit")
            fr = I.frames[-1] if I.frames else None
            return mk(Rng(("created", fr.fi.qual if fr else "?", "explicit", I.phase)))
        return unk("bitgen", tags)
    I.event("legacy-rng", node, "numpy.random." + nm)
    if nm in SIZE_POS or nm in ("rand", "randn", "randint", "shuffle", "seed"):
        if nm == "shuffle" and args:
            for x in args[0].alts:
                I.mutate(getattr(x, "roots", frozenset()), None, node, st, "shuffle()")
        if nm == "randint":
            hi = args[1].num() if len(args) > 1 else args[0].num()
            sz = kw.get("size")
            el = Num(0 if len(args) < 2 else (args[0].num().lo if args[0].num() else 0), hi.hi - 1 if hi else INF, INT, "i64")
            return mk(Arr(shape_of_arg(I, sz, node, st) if sz is not None else None, mk(el), I.fresh(node)), tags)
        return call_rng_like(I, nm, args, kw, node, st, tags)
    return unk("np.random", tags)


def call_rng_like(I, nm, args, kw, node, st, tags):
    pos = SIZE_POS.get(nm, 9)
    size = kw.get("size", args[pos] if len(args) > pos else None)
    el = mk(Num(-INF, INF, FLOAT, "f64"))
    if size is None:
        return mk(Arr(None, el, I.fresh(node)), tags)
    return mk(Arr(shape_of_arg(I, size, node, st), el, I.fresh(node)), tags)


def np_linalg(I, nm, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    tags = tags | ops.REAL if nm not in ("matrix_power",) else tags
    if nm == "norm":
        return reduce_(I, args[0], "norm", args, kw, node, st, axis_pos=2)
    if x is None:
        return unk(nm, tags)
    F = mk(Num(-INF, INF, FLOAT, "f64"))
    if nm in ("inv", "pinv"):
        return mk(Arr(x.shape, F, I.fresh(node)), tags)
    if nm == "matrix_power":
        n = x.elem.num()
        el = mk(Num(0 if n is not None and n.lo >= 0 else -INF, INF, n.kinds if n is not None else FLOAT, n.dt if n is not None else "f64"))
        return mk(Arr(x.shape, el, I.fresh(node)), tags)
    if nm == "det":
        return mk(Num(-INF, INF, FLOAT, "f64"), tags)
    if nm == "solve":
        b = arr1(I, args[1], node, st)
        return mk(Arr(b.shape if b is not None else None, F, I.fresh(node)), tags)
    if nm == "lstsq":
        b = arr1(I, args[1], node, st)
        sh = None
        if x.shape is not None and b is not None and b.shape is not None and len(x.shape) == 2:
            sh = (x.shape[1],) + b.shape[1:]
        return I.seq("tuple", [mk(Arr(sh, F, I.fresh(node)), tags), unk("res"), unk("rank"), unk("sv")], node, roots=frozenset())
    if nm == "matrix_rank":
        return mk(Num(0, INF, INT), tags)
    I.note_unmodelled("numpy.linalg." + nm, node)
    return unk("linalg." + nm, tags)


NP = {}


def np_(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


@np_("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "asarray_chkfinite")
def n_asarray(I, args, kw, node, st, tags):
    v = args[0] if args else kw.get("a", kw.get("object"))
    dts = parse_dtype(I, kw.get("dtype", args[1] if len(args) > 1 else None))
    cp = kw.get("copy")
    return asarray(I, v, dts, node, st, copy=cp is not None and ops.truth(I, cp, st) is True)


@np_("array")
def n_array(I, args, kw, node, st, tags):
    v = args[0] if args else kw.get("object")
    dts = parse_dtype(I, kw.get("dtype", args[1] if len(args) > 1 else None))
    cp = kw.get("copy")
    c = True if cp is None else ops.truth(I, cp, st) is True
    r = asarray(I, v, dts, node, st, copy=c)
    return r


@np_("copy")
def n_copy(I, args, kw, node, st, tags):
    return asarray(I, args[0] if args else kw["a"], None, node, st, copy=True)


@np_("zeros", "ones", "empty", "full")
def n_zeros(I, args, kw, node, st, tags):
    nm = node_name(node)
    return unk("zeros")


def node_name(node):
    return ""


def filler(name):
    def f(I, args, kw, node, st, tags):
        shp = args[0] if args else kw.get("shape")
        sh = clampdims(shape_of_arg(I, shp, node, st))
        p = 2 if name == "full" else 1
        dts = parse_dtype(I, kw.get("dtype", args[p] if len(args) > p else None))
        return fill_arr(I, name, sh, dts, args[1] if name == "full" and len(args) > 1 else kw.get("fill_value"), node, st, ops.dtags(shp))
    return f


def fill_arr(I, name, sh, dts, fillv, node, st, tags, like=None):
    if name == "full":
        el = ops.np_elem(elem_of(I, fillv, node, st))
        if dts is None and like is not None:
            dts = like
        el = cast_elem(I, el, dts, node, st)
        ex = ()
    else:
        kinds, dt = (FLOAT, "f64")
        if dts is None and like is not None:
            dts = like
        if dts is not None and dts[0] != "?":
            kinds, dt = dts
            kinds = kinds or INT
        if dts == ("?", "int-or-object"):
            kinds, dt = INT, "obj"
        if name == "empty":
            el = mk(Num(INF, -INF, kinds, dt))
        else:
            c = 0 if name == "zeros" else 1
            if kinds <= {"float"}:
                c = float(c)
            el = mk(Num(c, c, kinds, dt, False, p_const(int(c))))
        if dts is not None and dts[0] == "?":
            el = V(el.alts + (Unk("dtype"),)) if name != "empty" else unk("dtype")
    if sh == ():
        return mk(Arr((), el, I.fresh(node, name)), tags)
    return mk(Arr(sh, el, I.fresh(node, name)), tags)


for _n in ("zeros", "ones", "empty", "full"):
    NP[_n] = filler(_n)


def filler_like(name):
    def f(I, args, kw, node, st, tags):
        x = arr1(I, args[0], node, st)
        p = 2 if name == "full" else 1
        dts = parse_dtype(I, kw.get("dtype", args[p] if len(args) > p else None))
        if x is None:
            return unk(name + "_like", tags)
        n = x.elem.num()
        like = (n.kinds, n.dt) if n is not None else ("?",)
        sh = x.shape
        if "shape" in kw:
            sh = clampdims(shape_of_arg(I, kw["shape"], node, st))
        return fill_arr(I, name, sh, dts, args[1] if name == "full" and len(args) > 1 else kw.get("fill_value"), node, st, NOTAGS, like)
    return f


for _n in ("zeros", "ones", "empty", "full"):
    NP[_n + "_like"] = filler_like(_n)


@np_("eye", "identity")
def n_eye(I, args, kw, node, st, tags):
    n = args[0].num() or Num(0, INF, INT)
    m = n
    if len(args) > 1 and args[1].num() is not None:
        m = args[1].num()
    if "M" in kw and kw["M"].num() is not None:
        m = kw["M"].num()
    dts = parse_dtype(I, kw.get("dtype")) or (FLOAT, "f64")
    if dts[0] == "?":
        dts = (FLOAT, "f64")
    el = Num(0, 1, dts[0] or INT, dts[1])
    if n.const == 1 and m.const == 1 and "k" not in kw:
        el = Num(1, 1, dts[0] or INT, dts[1])
    return mk(Arr(clampdims((n, m)), mk(el), I.fresh(node, "eye")), tags)


@np_("arange")
def n_arange(I, args, kw, node, st, tags):
    tags = frozenset(t for t in tags if t[0] != "mix")
    from .builtins_ import TABLE
    dts = parse_dtype(I, kw.get("dtype"))
    pos = [x for x in args[:3]]
    if any(x.num() is not None and "float" in x.num().kinds for x in pos):
        ns = [x.num() for x in pos]
        el = Num(min(n.lo for n in ns[:2]) if len(ns) > 1 else 0.0, max(n.hi for n in ns[:2]), FLOAT, "f64")
        return mk(Arr((Num(0, INF, INT),), mk(el), I.fresh(node)), tags)
    r = TABLE["builtins.range"](I, None, pos, {}, node, st)
    s = r.one(Seq)
    el = s.elem if s.elem is not None else mk(Num(INF, -INF, INT))
    el = ops.drop_sym(ops.np_elem(el))
    n = el.num()
    ex = tuple((w.num().lo, w.num().hi) for w in s.ex if w.num() is not None)[:4]
    return mk(Arr((s.length,), cast_elem(I, el, dts, node, st), I.fresh(node, "arange"), ex), tags)


@np_("linspace", "logspace", "geomspace")
def n_linspace(I, args, kw, node, st, tags):
    n = (kw.get("num") or (args[2] if len(args) > 2 else const(50))).num() or Num(0, INF, INT)
    a, b = args[0].num(), args[1].num()
    lo = min(a.lo, b.lo) if a is not None and b is not None else -INF
    hi = max(a.hi, b.hi) if a is not None and b is not None else INF
    return mk(Arr((Num(max(0, n.lo), n.hi, INT, sym=n.sym),), mk(Num(lo, hi, FLOAT, "f64")), I.fresh(node)), tags)


@np_("concatenate", "vstack", "hstack", "stack", "column_stack", "dstack", "row_stack", "concat", "append", "block")
def n_concat_stub(I, args, kw, node, st, tags):
    return unk("concat", tags)


def _cc(name):
    def f(I, args, kw, node, st, tags):
        ax = kw.get("axis", args[1] if len(args) > 1 and name in ("concatenate", "concat", "stack") else None)
        dts = parse_dtype(I, kw.get("dtype"))
        nm = {"concat": "concatenate", "row_stack": "vstack"}.get(name, name)
        axis = 0
        if ax is not None:
            if ax.alts == (NONE,):
                return flat_concat(I, args[0], node, st, tags)
            n = ax.num()
            if n is None or n.const is None:
                return unk(name, tags)
            axis = int(n.const)
        r = concat_call(I, nm, args[0], axis, node, st, dts)
        if "out" in kw:
            return write_out(I, kw["out"], r, node, st)
        return r
    return f


def flat_concat(I, v, node, st, tags):
    it, ln = seq_parts(I, v, node, st)
    el = BOT
    for p in it:
        x = arr1(I, p, node, st)
        if x is None:
            return unk("concat", tags)
        el = join(el, x.elem)
    return mk(Arr((Num(0, INF, INT),), el, I.fresh(node)), tags)


for _n in ("concatenate", "vstack", "hstack", "stack", "column_stack", "row_stack", "concat"):
    NP[_n] = _cc(_n)


@np_("append")
def n_append(I, args, kw, node, st, tags):
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    parts = []
    for v in args[:2]:
        x = arr1(I, v, node, st)
        if x is None:
            return unk("append", tags)
        if ax is None or ax.alts == (NONE,):
            x = Arr((size_num(I, x, st),), x.elem, x.roots, x.ex)
        parts.append(mk(x, v.tags))
    k = 0
    if ax is not None and ax.num() is not None:
        k = int(ax.num().const or 0)
    return concat(I, parts, k, node, st)


@np_("reshape")
def n_reshape(I, args, kw, node, st, tags):
    v = asarray(I, args[0], None, node, st)
    shp = args[1] if len(args) > 1 else kw.get("shape", kw.get("newshape"))
    return do_reshape(I, v, [shp], node, st)


def do_reshape(I, v, shargs, node, st):
    if len(shargs) == 1:
        sh = shape_of_arg(I, shargs[0], node, st)
    else:
        sh = []
        for x in shargs:
            if isinstance(x, tuple):
                sh = None
                break
            n = x.num()
            sh.append(n if n is not None else Num(0, INF, INT))
        sh = tuple(sh) if sh is not None else None
    res = BOT
    for a in v.alts:
        if isinstance(a, Arr):
            res = join(res, reshape(I, a, sh, node, st, v.tags))
        elif isinstance(a, Unk):
            res = join(res, mk(a))
        elif isinstance(a, Num):
            res = join(res, reshape(I, ops.to_arr(I, a, node, st), sh, node, st, v.tags))
    if not res.alts:
        raise Dead()
    dep = frozenset(t for t in ops.dtags(*shargs) if t[0] in ("p", "ps"))
    return res.tag(v.tags | dep)


def per_arr(fn):
    def f(I, args, kw, node, st, tags):
        v = asarray(I, args[0] if args else next(iter(kw.values())), None, node, st)
        res = BOT
        for a in v.alts:
            if isinstance(a, Arr):
                res = join(res, fn(I, a, args[1:], kw, node, st, v.tags))
            elif isinstance(a, Num):
                res = join(res, fn(I, ops.to_arr(I, a, node, st), args[1:], kw, node, st, v.tags))
            else:
                res = join(res, mk(a))
        if not res.alts:
            raise Dead()
        return res.tag(ops.dtags(*args))
    return f


def view(shapef):
    def fn(I, a, args, kw, node, st, tags):
        sh = None if a.shape is None else shapef(I, a.shape, args, kw, st)
        return mk(Arr(sh, a.elem, a.roots, a.ex), tags)
    return per_arr(fn)


def sh_ravel(I, sh, args, kw, st):
    return (prod_dims(I, sh, st),)


def sh_T(I, sh, args, kw, st):
    ax = args[0] if args else kw.get("axes")
    if len(args) > 1:
        ks = [x.num() for x in args]
        if all(k is not None and k.const is not None for k in ks) and len(ks) == len(sh):
            return tuple(sh[int(k.const)] for k in ks)
    if ax is None or ax.alts == (NONE,):
        return tuple(reversed(sh))
    s = ax.one(Seq)
    if s is not None and s.items is not None and len(s.items) == len(sh) and all(x.num() is not None and x.num().const is not None for x in s.items):
        return tuple(sh[int(x.num().const)] for x in s.items)
    return None


def sh_swap(I, sh, args, kw, st):
    p, q = [x.num() for x in args[:2]]
    if p is None or q is None or p.const is None or q.const is None:
        return None
    l = list(sh)
    i, j = int(p.const), int(q.const)
    l[i], l[j] = l[j], l[i]
    return tuple(l)


def sh_move(I, sh, args, kw, st):
    p, q = [x.num() for x in args[:2]]
    if p is None or q is None or p.const is None or q.const is None:
        return None
    l = list(sh)
    x = l.pop(int(p.const))
    qi = int(q.const) % len(sh)
    l.insert(qi, x)
    return tuple(l)


def sh_squeeze(I, sh, args, kw, st):
    ax = args[0] if args else kw.get("axis")
    al = axis_list(I, ax, len(sh))
    if al is None:
        if all(d.const is not None or d.lo > 1 for d in sh):
            return tuple(d for d in sh if d.const != 1)
        return None
    if al == "unknown":
        return None
    return tuple(d for k, d in enumerate(sh) if k not in al)


def sh_expand(I, sh, args, kw, st):
    ax = args[0] if args else kw.get("axis")
    al = axis_list(I, ax, len(sh) + 1)
    if al in (None, "unknown"):
        return None
    l = list(sh)
    for k in sorted(al):
        l.insert(k, ONE)
    return tuple(l)


NP["ravel"] = view(sh_ravel)
NP["transpose"] = NP["permute_dims"] = view(sh_T)
NP["matrix_transpose"] = view(lambda I, sh, args, kw, st: sh[:-2] + (sh[-1], sh[-2]) if len(sh) > 1 else sh)
NP["swapaxes"] = view(sh_swap)
NP["moveaxis"] = view(sh_move)
NP["squeeze"] = view(sh_squeeze)
NP["expand_dims"] = view(sh_expand)
NP["flip"] = NP["fliplr"] = NP["flipud"] = view(lambda I, sh, args, kw, st: sh)
NP["atleast_1d"] = view(lambda I, sh, args, kw, st: sh if sh else (ONE,))
NP["atleast_2d"] = view(lambda I, sh, args, kw, st: sh if len(sh) > 1 else ((ONE,) + tuple(sh) if sh else (ONE, ONE)))
NP["diagonal"] = view(lambda I, sh, args, kw, st: None)


@np_("broadcast_to")
def n_broadcast_to(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    sh = shape_of_arg(I, args[1] if len(args) > 1 else kw["shape"], node, st)
    if x is None:
        return unk("broadcast_to", tags)
    return mk(Arr(sh, x.elem, x.roots if any(isinstance(q, Arr) for q in args[0].alts) else I.fresh(node), x.ex), tags)


@np_("diag")
def n_diag(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("diag", tags)
    if x.shape is not None and len(x.shape) == 1:
        k = kw.get("k", args[1] if len(args) > 1 else const(0)).num()
        d = x.shape[0]
        if k is None or k.const is None:
            d = Num(0, INF, INT)
        elif k.const != 0 and isinstance(d, Num):
            d = ops.num_binop(I, "Add", d, Num(abs(k.const), abs(k.const), INT), st)
        return mk(Arr((d, d), join(x.elem, ops.np_elem(const(0))), I.fresh(node)), tags)
    if len(args) > 1 or kw:
        return mk(Arr((Num(0, INF, INT),), x.elem, x.roots), tags)
    return mk(Arr((x.shape[0],) if x.shape is not None and x.shape[0] == x.shape[1] else (Num(0, INF, INT),), x.elem, x.roots), tags)


def same_shape_fresh(mix=False):
    def fn(I, a, args, kw, node, st, tags):
        mt = NOTAGS
        if mix and a.shape is not None and a.shape:
            ax = kw.get("axis", args[0] if args and node_is_sort else None)
            n = ax.num() if ax is not None else None
            k = int(n.const) if n is not None and n.const is not None else -1
            mt = batch_tags(I, [a.shape[k]], node) if ax is None or ax.alts != (NONE,) else batch_tags(I, a.shape, node)
        return mk(Arr(a.shape, a.elem, I.fresh(node), a.ex), tags | mt)
    return per_arr(fn)


node_is_sort = True
NP["sort"] = same_shape_fresh(True)


@np_("roll")
def n_roll(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("roll", tags)
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    mt = NOTAGS
    if x.shape is not None:
        al = axis_list(I, ax, len(x.shape))
        if al is None:
            mt = batch_tags(I, x.shape, node)
        elif al != "unknown":
            mt = batch_tags(I, [x.shape[k] for k in al], node)
    return mk(Arr(x.shape, x.elem, I.fresh(node), x.ex), tags | mt)


NP["tril"] = NP["triu"] = per_arr(lambda I, a, args, kw, node, st, tags: mk(Arr(a.shape, join(a.elem, ops.cast_elem_to(I, const(0), a.elem)), I.fresh(node)), tags))


@np_("tile", "repeat")
def n_tile(I, args, kw, node, st, tags):
    return unk("tile", tags)


def n_repeat(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    r = (args[1] if len(args) > 1 else kw.get("repeats")).num()
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if x is None or r is None:
        return mk(Arr(None, x.elem, I.fresh(node)), tags) if x is not None else unk("repeat", tags)
    sh = x.shape
    if sh is not None:
        al = axis_list(I, ax, len(sh))
        if al is None:
            sh = (ops.num_binop(I, "Mult", prod_dims(I, sh, st), r, st),)
        elif al == "unknown":
            sh = None
        else:
            sh = tuple(ops.num_binop(I, "Mult", d, r, st) if k in al else d for k, d in enumerate(sh))
    return mk(Arr(clampdims(sh), ops.drop_sym(x.elem), I.fresh(node), x.ex if r.lo >= 1 else ()), tags)


def n_tile_(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    reps = args[1] if len(args) > 1 else kw.get("reps")
    if x is None:
        return unk("tile", tags)
    rs = shape_of_arg(I, reps, node, st)
    sh = x.shape
    if rs is None or sh is None:
        sh = None
    else:
        n = max(len(rs), len(sh))
        rs = (ONE,) * (n - len(rs)) + tuple(rs)
        s2 = (ONE,) * (n - len(sh)) + tuple(sh)
        sh = tuple(ops.num_binop(I, "Mult", a, b, st) for a, b in zip(s2, rs))
    return mk(Arr(clampdims(sh), ops.drop_sym(x.elem), I.fresh(node), x.ex if rs is not None and all(r.lo >= 1 for r in rs) else ()), tags)


NP["repeat"] = n_repeat
NP["tile"] = n_tile_


@np_("dot")
def n_dot(I, args, kw, node, st, tags):
    r = matmul(I, asw(I, args[0], node, st), asw(I, args[1], node, st), node, st, dot=True)
    out = kw.get("out", args[2] if len(args) > 2 else None)
    return write_out(I, out, r, node, st) if out is not None else r


@np_("matmul", "inner", "vdot", "matvec", "vecmat")
def n_matmul(I, args, kw, node, st, tags):
    r = matmul(I, asw(I, args[0], node, st), asw(I, args[1], node, st), node, st)
    return write_out(I, kw["out"], r, node, st) if "out" in kw else r


@np_("outer")
def n_outer(I, args, kw, node, st, tags):
    a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
    if a is None or b is None:
        return unk("outer", tags)
    return mk(Arr((size_num(I, a, st), size_num(I, b, st)), ops.drop_sym(ops.elem_binop(I, "Mult", a.elem, b.elem, node, st)), I.fresh(node)), tags)


@np_("kron")
def n_kron(I, args, kw, node, st, tags):
    a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
    if a is None or b is None:
        return unk("kron", tags)
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
        sh = tuple(ops.num_binop(I, "Mult", x, y, st) for x, y in zip(a.shape, b.shape))
    return mk(Arr(sh, ops.drop_sym(ops.elem_binop(I, "Mult", a.elem, b.elem, node, st)), I.fresh(node)), tags)


@np_("convolve", "correlate")
def n_convolve(I, args, kw, node, st, tags):
    a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
    if a is None or b is None:
        return unk("convolve", tags)
    n, m = a.elem.num(), b.elem.num()
    el = unk("conv")
    if (n is None or m is None) and a.elem.alts and b.elem.alts and not a.elem.only(Unk) and not b.elem.only(Unk):
        # object arrays: sums of products of the elements' own operators
        t = I.binop("Mult", a.elem, b.elem, node, st)
        el = join(t, I.binop("Add", t, t, node, st))
        n = m = None
    if n is not None and m is not None:
        t = ops.num_binop(I, "Mult", n, m, st)
        ks = frozenset("int" if k == "bool" else k for k in t.kinds)
        el = mk(Num(0 if t.lo >= 0 else -INF, INF, ks, "i64" if ks <= {"int"} and t.dt == "i64" else ("f64" if ks & {"float", "complex"} else t.dt)))
        ops.check_narrow(I, "MatMult", el.num(), node, n, m)
    md = kw.get("mode", args[2] if len(args) > 2 else None)
    sh = (Num(0, INF, INT),)
    if a.shape is not None and b.shape is not None and len(a.shape) == 1 and len(b.shape) == 1 and md is None:
        t = ops.num_binop(I, "Add", a.shape[0], b.shape[0], st)
        sh = (ops.num_binop(I, "Sub", t, ONE, st),)
    return mk(Arr(clampdims(sh), el, I.fresh(node)), tags)


@np_("where")
def n_where(I, args, kw, node, st, tags):
    if len(args) == 1:
        return n_nonzero(I, args, kw, node, st, tags)
    c = arr_pair(I, args[0], node, st)
    a, b = arr_pair(I, args[1], node, st), arr_pair(I, args[2], node, st)
    if c is None or a is None or b is None:
        return unk("where", tags)
    t = ops.truth(I, c[1], st) if c[1].alts else None
    ea, eb = ops.np_elem(a[1]), ops.np_elem(b[1])
    n, m = a[1].num(), b[1].num()
    el = ea if t is True else (eb if t is False else join(ea, eb))
    if t is None and any(x is not None and x.const is None for x in (n, m)):
        el = el.tag(MASKED)
    if n is not None and m is not None:
        # dtype promotion
        dt = ops.promote_dt(n, m, "Add")
        if dt == "py":
            dt = "f64" if (n.kinds | m.kinds) & {"float", "complex"} else "i64"
        el = V(tuple(Num(x.lo, x.hi, x.kinds, dt, x.nan) if isinstance(x, Num) else x for x in el.alts), el.tags)
    sh = ops.broadcast(I, ops.broadcast(I, c[0], a[0], st), b[0], st)
    if sh == ():
        return el.tag(tags)
    return mk(Arr(sh, ops.drop_sym(el), I.fresh(node)), tags)


@np_("nonzero", "argwhere", "flatnonzero")
def n_nonzero(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("nonzero", tags)
    sz = size_num(I, x, st)
    hi = max((d.hi for d in x.shape), default=1) if x.shape is not None else INF
    el = mk(Num(0, max(0, hi - 1), INT, "i64"))
    lo = 0
    n = x.elem.num()
    if n is not None and any(ops.truth_atom(I, ops.wnum(w, n), st) for w in x.ex):
        lo = 1
    cnt = Num(lo, sz.hi, INT)
    k = len(x.shape) if x.shape is not None else 1
    mt = NOTAGS     # positions: used to gather and scatter the selected items
    fn = I.npname
    if fn == "flatnonzero":
        return mk(Arr((cnt,), mk(Num(0, max(0, sz.hi - 1), INT, "i64")), I.fresh(node)), tags | mt)
    if fn == "argwhere":
        return mk(Arr((cnt, num_const(k)), el, I.fresh(node)), tags | mt)
    return I.seq("tuple", [mk(Arr((cnt,), el, I.fresh(node, j)), tags | mt) for j in range(max(1, k))], node, roots=frozenset())


NP["flatnonzero"] = lambda I, args, kw, node, st, tags: _flatnz(I, args, kw, node, st, tags)


def _flatnz(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("flatnonzero", tags)
    sz = size_num(I, x, st)
    n = x.elem.num()
    lo = 1 if n is not None and any(ops.truth_atom(I, ops.wnum(w, n), st) for w in x.ex) else 0
    t = ops.truth_atom(I, n, st) if n is not None else None
    hi = 0 if t is False else sz.hi
    mt = NOTAGS
    return mk(Arr((Num(lo, hi, INT),), mk(Num(0, max(0, sz.hi - 1), INT, "i64")), I.fresh(node)), tags | mt)


def distinct_witnesses(ex):
    """a lower bound on the number of different values: pairwise disjoint intervals that each hold some element"""
    k, last = 0, -INF
    for lo, hi in sorted(ex, key=lambda w: w[1]):
        if lo > last:
            k, last = k + 1, hi
    return k


@np_("unique")
def n_unique(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("unique", tags)
    sz = size_num(I, x, st)
    n = x.elem.num()
    hi = sz.hi
    if n is not None and not n.bot and n.kinds <= {"int", "bool"} and n.hi < INF and n.lo > -INF:
        hi = min(hi, n.hi - n.lo + 1)
    axis = kw.get("axis")
    if axis is not None and axis.alts != (NONE,):
        sh = None if x.shape is None else (Num(min(1, x.shape[0].lo), x.shape[0].hi, INT),) + x.shape[1:]
    else:
        sh = (Num(min(max(min(1, sz.lo), distinct_witnesses(x.ex)), hi), hi, INT),)
    mt = NOTAGS     # distinct values, put back in place with return_inverse
    u = mk(Arr(sh, x.elem, I.fresh(node), x.ex), tags | mt)
    extra = [k for k in ("return_index", "return_inverse", "return_counts") if k in kw and ops.truth(I, kw[k], st) is not False]
    if extra:
        out = [u]
        for k in extra:
            l = 1 if k == "return_counts" else 0
            out.append(mk(Arr((sh[0] if k != "return_inverse" else sz,), mk(Num(l, INF, INT, "i64")), I.fresh(node, k)), tags | mt))
        return I.seq("tuple", out, node, roots=frozenset())
    return u


@np_("setdiff1d", "intersect1d", "union1d", "setxor1d")
def n_setdiff(I, args, kw, node, st, tags):
    a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
    if a is None or b is None:
        return unk("setop", tags)
    nm = I.npname
    el = a.elem if nm in ("setdiff1d", "intersect1d") else join(a.elem, b.elem)
    hi = size_num(I, a, st)
    ln = Num(0, hi.hi if nm != "union1d" else INF, INT)
    if nm == "setdiff1d":
        k = I.setdiff_len(a, b, hi, size_num(I, b, st), st) if hasattr(I, "setdiff_len") else None
        if k is not None:
            ln = k
    return mk(Arr((ln,), ops.drop_sym(ops.np_elem(el)), I.fresh(node)), tags)


@np_("isin", "in1d")
def n_isin(I, args, kw, node, st, tags):
    a = arr1(I, args[0], node, st)
    b = arr1(I, args[1], node, st)
    if a is None:
        return unk("isin", tags)
    el = ops.NPBOOL
    ex = ()
    n = a.elem.num()
    m = b.elem.num() if b is not None else None
    inv = "invert" in kw and ops.truth(I, kw["invert"], st) is True
    if n is not None and m is not None and not n.bot and not m.bot:
        if n.hi < m.lo or n.lo > m.hi:
            el = Num(int(inv), int(inv), BOOL, "i64")
        ex = tuple((int(inv), int(inv)) for w in a.ex if w[1] < m.lo or w[0] > m.hi)
    return mk(Arr(a.shape, mk(el), I.fresh(node), ex), tags)


@np_("array_equal", "allclose", "array_equiv")
def n_array_equal(I, args, kw, node, st, tags):
    a, b = arr1(I, args[0], node, st), arr1(I, args[1], node, st)
    nm = I.npname
    if a is None or b is None:
        return V((Num(0, 1, BOOL), Unk("array_equal")), tags)
    if nm == "array_equal" and a.shape is not None and b.shape is not None:
        if len(a.shape) != len(b.shape) or any(ops.num_cmp(I, "Eq", p, q, st) is False for p, q in zip(a.shape, b.shape)):
            return FALSE.tag(tags)
    n, m = a.elem.num(), b.elem.num()
    if n is not None and m is not None and len(a.elem.alts) == 1 and len(b.elem.alts) == 1:
        if a.aux or b.aux:
            pass
        tol = tolerances(args, kw) if nm == "allclose" else (0.0, 0.0)
        if any(closef(ops.wnum(w, n), m, tol).hi == 0 for w in a.ex) or any(closef(n, ops.wnum(w, m), tol).hi == 0 for w in b.ex):
            return FALSE.tag(tags)
        sz = size_num(I, a, st)
        if sz.lo >= 1 and closef(n, m, tol).hi == 0:
            return FALSE.tag(tags)
        if nm == "allclose" and closef(n, m, tol).lo == 1:
            return TRUE.tag(tags)
        if nm == "array_equal" and n.const is not None and m.const is not None and n.const == m.const and a.shape is not None and b.shape is not None \
                and len(a.shape) == len(b.shape) and all(ops.num_cmp(I, "Eq", p, q, st) is True for p, q in zip(a.shape, b.shape)):
            return TRUE.tag(tags)
    if a.elem.unk or b.elem.unk:
        return V((Num(0, 1, BOOL), Unk("array_equal")), tags)
    return BOOLTOP.tag(tags)


@np_("clip")
def n_clip(I, args, kw, node, st, tags):
    lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min", const(None)))
    hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max", const(None)))
    r = asw(I, args[0], node, st)
    if lo.alts != (NONE,):
        r = binary(I, r, lo, maxf, node, st, "clip")
    if hi.alts != (NONE,):
        r = binary(I, r, hi, minf, node, st, "clip")
    return write_out(I, kw["out"], r, node, st) if "out" in kw else r


@np_("ndim")
def n_ndim(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None or x.shape is None:
        res = BOT
        for a in args[0].alts:
            y = ops.to_arr(I, a, node, st) if isinstance(a, (Arr, Num, Seq, Obj)) else None
            res = join(res, const(len(y.shape)) if y is not None and y.shape is not None else mk(Num(0, 8, INT)))
        return res.tag(tags)
    return const(len(x.shape)).tag(shape_tags(tags))


@np_("size")
def n_size(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return mk(Num(0, INF, INT), tags | SZ)
    tags = shape_tags(tags, x)
    if len(args) > 1 and x.shape is not None and args[1].num() is not None and args[1].num().const is not None:
        return mk(x.shape[int(args[1].num().const)], tags)
    return mk(size_num(I, x, st), tags)


@np_("shape")
def n_shape(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("shape", tags)
    return arr_attr(I, x, "shape", node, st, tags)


@np_("iscomplexobj", "isrealobj")
def n_iscomplexobj(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    neg = I.npname == "isrealobj"
    if x is None or x.elem.num() is None:
        return BOOLTOP
    ks = x.elem.num().kinds
    r = True if ks == CPLX else (None if "complex" in ks else False)
    return ops.ub(r if r is None or not neg else not r)


@np_("isscalar", "isclose_", "issubdtype", "can_cast")
def n_isscalar(I, args, kw, node, st, tags):
    fn = I.npname
    if fn == "issubdtype" and len(args) == 2:
        d = parse_dtype(I, args[0])
        e = args[1].one(Ext)
        if d is not None and d[0] not in ("?", None) and e is not None:
            nm = e.path.split(".")[-1]
            cls = {"integer": INT, "floating": FLOAT, "bool": BOOL, "bool_": BOOL, "complexfloating": CPLX, "inexact": FLOAT | CPLX,
                   "number": INT | FLOAT | CPLX}.get(nm)
            if cls is not None:
                ok = d[0] & cls
                return ops.ub(True if ok == d[0] else (None if ok else False))
    if fn == "isscalar":
        rs = {isinstance(a, (Num, Str)) if not isinstance(a, Unk) else None for a in args[0].alts}
        return ops.ub(rs.pop() if len(rs) == 1 else None)
    return BOOLTOP.tag(tags)


@np_("bincount")
def n_bincount(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    ml = kw.get("minlength", args[2] if len(args) > 2 else const(0)).num()
    n = x.elem.num() if x is not None else None
    hi = n.hi + 1 if n is not None and not n.bot else INF
    ln = Num(ml.lo if ml is not None else 0, INF, INT)
    if ml is not None and n is not None and ml.sym is not None and ops.num_cmp(I, "Lt", n, ml, st) is True:
        ln = ml
    elif ml is not None:
        ln = Num(max(0, ml.lo), max(ml.hi, hi), INT)
    if n is not None and n.hi < 0 and x.shape is not None and x.shape[0].lo >= 1:
        I.raise_("ValueError", node, st)
    mt = batch_tags(I, x.shape, node) if x is not None and x.shape is not None else NOTAGS
    if "weights" in kw or len(args) > 1:
        el = Num(-INF, INF, FLOAT, "f64")
    else:
        el = Num(0, size_num(I, x, st).hi if x is not None else INF, INT, "i64")
    return mk(Arr((ln,), mk(el), I.fresh(node)), tags | mt)


@np_("digitize", "searchsorted")
def n_digitize(I, args, kw, node, st, tags):
    fn = I.npname
    x, b = (args[0], args[1]) if fn == "digitize" else (args[1], args[0])
    bn = arr1(I, b, node, st)
    hi = bn.shape[0] if bn is not None and bn.shape else Num(0, INF, INT)
    return elementwise(I, x, lambda n: Num(0, hi.hi, INT, "i64"), node, st, fn).tag(tags)


@np_("apply_along_axis")
def n_apply_along(I, args, kw, node, st, tags):
    f = args[0] if args else kw["func1d"]
    axis = args[1] if len(args) > 1 else kw["axis"]
    rest = list(args[3:])
    arr = args[2] if len(args) > 2 else kw["arr"]
    kw2 = {k: v for k, v in kw.items() if k not in ("func1d", "axis", "arr")}
    v = asarray(I, arr, None, node, st)
    res = BOT
    for a in v.alts:
        if not isinstance(a, Arr):
            r = I.call(f, [unk("row", v.tags)] + rest, kw2, node, st)
            res = join(res, unk("apply_along_axis"))
            continue
        ax = axis.num()
        if a.shape is None or ax is None or ax.const is None or not a.shape:
            row = mk(Arr((Num(0, INF, INT),), a.elem, a.roots), v.tags)
            r = I.call(f, [row] + rest, kw2, node, st)
            res = join(res, mk(Arr(None, elem_of(I, r, node, st), I.fresh(node))).tag(ops.dtags(r)))
            continue
        k = int(ax.const) % len(a.shape)
        row = mk(Arr((a.shape[k],), a.elem, a.roots, a.ex if len(a.shape) == 1 else ()), v.tags)
        # a row containing the witness, when there is one: if it can only raise, so does the whole call
        if a.ex and len(a.shape) > 1:
            s2 = st.copy()
            I.raises.append([])
            try:
                I.call(f, [mk(Arr((a.shape[k],), a.elem, a.roots, a.ex), v.tags)] + rest, kw2, node, s2)
            except Dead:
                rs = I.raises.pop()
                I.raises.append([])
                if rs:
                    I.raises[-2].extend(rs)
                    raise
            finally:
                I.raises.pop()
        I.iterdepth += 1
        try:
            r = I.call(f, [row] + rest, kw2, node, st)
        finally:
            I.iterdepth -= 1
        for b in r.alts:
            y = ops.to_arr(I, b, node, st) if isinstance(b, (Arr, Num, Seq, Obj)) else None
            if y is None:
                res = join(res, unk("apply_along_axis"))
                continue
            sh = None if y.shape is None else a.shape[:k] + tuple(y.shape) + a.shape[k + 1:]
            el = ops.drop_sym(ops.np_elem(y.elem))
            big_fixed(I, el, ops.dtags(r), node)  # the dtype of the result is that of the first value
            res = join(res, mk(Arr(sh, el, I.fresh(node, "aaa")), ops.dtags(r)))
    if not res.alts:
        raise Dead()
    return res.tag(v.tags)


@np_("vectorize", "frompyfunc")
def n_vectorize(I, args, kw, node, st, tags):
    return mk(Partial(mk(Ext("numpy.sa_vectorized")), (args[0],), tuple(sorted((k, v) for k, v in kw.items() if k == "excluded")), id(node)))


@np_("sa_vectorized")
def n_vectorized(I, args, kw, node, st, tags):
    f, rest = args[0], list(args[1:])
    ps = []
    for v in rest:
        p = arr_pair(I, v, node, st)
        if p is None:
            r = I.call(f, rest, kw, node, st)
            return unk("vectorize", tags)
        ps.append(p)
    sh = ()
    for p in ps:
        sh = ops.broadcast(I, sh, p[0], st) if sh is not None else None
    els = [V(tuple(np_num(a) if isinstance(a, Num) else a for a in p[1].alts), p[1].tags | v.tags) for p, v in zip(ps, rest)]
    if any(not e.alts for e in els):
        return mk(Arr(sh, mk(Num(INF, -INF, FLOAT, "f64")), I.fresh(node)), tags)
    I.iterdepth += 1
    try:
        r = I.call(f, els, {k: v for k, v in kw.items() if k != "excluded"}, node, st)
    finally:
        I.iterdepth -= 1
    r = ops.np_elem(r)
    if sh == ():
        return mk(Arr((), r, I.fresh(node)), tags)
    return mk(Arr(sh, ops.drop_sym(r), I.fresh(node)), tags | ops.dtags(r))


@np_("ndenumerate", "ndindex")
def n_ndenum(I, args, kw, node, st, tags):
    fn = I.npname
    if fn == "ndindex":
        sh = shape_of_arg(I, args[0], node, st) if len(args) == 1 else tuple(x.num() or Num(0, INF, INT) for x in args)
        if sh is None:
            return mk(Seq("iter", None, mk(Seq("tuple", None, mk(Num(0, INF, INT)), Num(0, INF, INT), frozenset())), Num(0, INF, INT), I.fresh(node)), tags)
        idx = I.seq("tuple", [mk(Num(0, max(0, d.hi - 1), INT)) for d in sh], node, roots=frozenset())
        n = prod_dims(I, sh, st)
        if n.hi == 0:
            return I.seq("iter", [], node)
        return mk(Seq("iter", None, idx, n, I.fresh(node)), tags)
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("ndenumerate", tags)
    if x.shape is None:
        idx = mk(Seq("tuple", None, mk(Num(0, INF, INT)), Num(0, INF, INT), frozenset()))
    else:
        idx = I.seq("tuple", [mk(Num(0, max(0, d.hi - 1), INT)) for d in x.shape], node, roots=frozenset())
    n = size_num(I, x, st)
    el = I.seq("tuple", [idx, x.elem], node, roots=frozenset())
    nn = x.elem.num()
    ex = tuple(I.seq("tuple", [idx, mk(ops.wnum(w, nn), x.elem.tags)], node, roots=frozenset()) for w in x.ex[:2]) if nn is not None else ()
    return mk(Seq("iter", None, el, n, I.fresh(node), ex), tags)


@np_("packbits", "unpackbits")
def n_packbits(I, args, kw, node, st, tags):
    fn = I.npname
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk(fn, tags)
    ax = kw.get("axis", args[1] if len(args) > 1 else None)
    el = mk(Num(0, 1 if fn == "unpackbits" else 255, INT, "u8"))
    sh = x.shape
    if sh is not None:
        al = axis_list(I, ax, len(sh))
        e8 = num_const(8)
        g = (lambda d: ops.num_binop(I, "Mult", d, e8, st)) if fn == "unpackbits" else (lambda d: ops.num_binop(I, "FloorDiv", ops.num_binop(I, "Add", d, num_const(7), st), e8, st))
        cnt = kw.get("count")
        if fn == "unpackbits" and cnt is not None and cnt.alts != (NONE,):
            c = cnt.num()
            g = lambda d: c if c is not None and c.lo >= 0 else Num(0, INF, INT)
        if al is None:
            sh = (g(prod_dims(I, sh, st)),)
        elif al == "unknown":
            sh = None
        else:
            sh = tuple(g(d) if k in al else d for k, d in enumerate(sh))
    return mk(Arr(clampdims(sh), el, I.fresh(node)), tags)


@np_("cumsum", "cumprod", "nancumsum")
def n_cumsum(I, args, kw, node, st, tags):
    fn = I.npname
    return cumulative(I, args[0], "add" if "sum" in fn else "multiply", kw.get("axis", args[1] if len(args) > 1 else None), node, st)


@np_("diff", "ediff1d", "gradient")
def n_diff(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None:
        return unk("diff", tags)
    n = x.elem.num()
    if n is not None:
        ops.check_narrow(I, "Sub", ops.num_binop(I, "Sub", n, n, st), node, n, n)
    el = ops.elem_binop(I, "Sub", x.elem, x.elem, node, st)
    sh = None
    if x.shape and len(x.shape) == 1 and "prepend" not in kw and "append" not in kw:
        sh = (ops.num_binop(I, "Sub", x.shape[0], ONE, st),)
    return mk(Arr(clampdims(sh), ops.drop_sym(el), I.fresh(node)), tags)


@np_("take", "delete", "insert", "compress", "extract", "take_along_axis", "choose", "select", "pad", "resize", "partition", "argpartition")
def n_take(I, args, kw, node, st, tags):
    fn = I.npname
    x = arr1(I, args[0], node, st)
    if fn == "take" and x is not None and "axis" not in kw and len(args) == 2:
        i = arr_pair(I, args[1], node, st)
        if i is not None:
            if i[0] == ():
                return x.elem.tag(tags)
            return mk(Arr(i[0], x.elem, I.fresh(node)), tags)
    if x is not None and fn in ("take", "delete", "compress", "resize", "partition", "take_along_axis"):
        return mk(Arr(x.shape if fn == "partition" else None, x.elem, I.fresh(node)), tags)
    if fn == "pad" and x is not None:
        md = kw.get("mode", args[2] if len(args) > 2 else None)
        el = join(x.elem, ops.cast_elem_to(I, elem_of(I, kw.get("constant_values", const(0)), node, st), x.elem))
        return mk(Arr(tuple(Num(d.lo, INF, INT) for d in x.shape) if x.shape is not None else None, ops.drop_sym(el), I.fresh(node), x.ex), tags)
    return unk(fn, tags)


@np_("argsort", "lexsort")
def n_argsort(I, args, kw, node, st, tags):
    x = arr1(I, args[0], node, st)
    if x is None or x.shape is None:
        return unk("argsort", tags)
    d = x.shape[-1] if x.shape else ONE
    return mk(Arr(x.shape, mk(Num(0, max(0, d.hi - 1), INT, "i64")), I.fresh(node)), tags | batch_tags(I, [d], node))


@np_("ix_")
def n_ix(I, args, kw, node, st, tags):
    out = []
    for k, v in enumerate(args):
        x = arr1(I, v, node, st)
        if x is None or x.shape is None or len(x.shape) != 1:
            return unk("ix_", tags)
        sh = tuple(x.shape[0] if j == k else ONE for j in range(len(args)))
        out.append(mk(Arr(sh, ops.np_elem(x.elem), I.fresh(node, k)), v.tags))
    return I.seq("tuple", out, node, roots=frozenset())


@np_("meshgrid", "broadcast_arrays", "indices", "divmod", "modf", "frexp", "unravel_index", "split", "array_split", "hsplit", "vsplit",
     "histogram", "linalg", "einsum", "tensordot", "interp", "trapezoid", "trapz", "cross", "trace", "quantile", "percentile", "cov", "corrcoef",
     "fromiter", "frombuffer", "fromfunction", "fromstring", "polyval", "polyfit", "roots", "poly", "piecewise", "nditer", "base_repr",
     "binary_repr", "ravel_multi_index", "tril_indices", "triu_indices", "tri", "vander", "hanning", "hamming", "save", "load", "dtype",
     "result_type", "promote_types", "finfo", "iinfo", "array2string", "array_str", "array_repr", "format_float_positional", "errstate_ctx")
def n_misc(I, args, kw, node, st, tags):
    fn = I.npname
    if fn == "divmod":
        return I.seq("tuple", [I.binop("FloorDiv", asw(I, args[0], node, st), asw(I, args[1], node, st), node, st),
                               I.binop("Mod", asw(I, args[0], node, st), asw(I, args[1], node, st), node, st)], node, roots=frozenset())
    if fn in ("trapezoid", "trapz"):
        return mk(Num(-INF, INF, FLOAT, "f64"), tags)
    if fn in ("result_type", "promote_types"):
        r = None
        for v in args:
            d = parse_dtype(I, v) if not any(isinstance(x, (Arr, Num)) for x in v.alts) else None
            if d is None:
                x = arr1(I, v, node, st)
                n = x.elem.num() if x is not None else None
                d = (n.kinds, n.dt) if n is not None else ("?",)
            if d[0] in ("?", None):
                return unk("dtype")
            r = d if r is None else (r[0] | d[0] if not (r[0] == CPLX or d[0] == CPLX) else CPLX, dt_join(r[1], d[1]))
        ks = r[0]
        if "float" in ks:
            ks = FLOAT
        return mk(Ext("sa.dtype", mk(Num(-INF, INF, ks, r[1]))))
    if fn == "dtype":
        return args[0]
    if fn == "fromiter":
        el, ln, ex = ops.iter_elem(I, args[0], node, st)
        dts = parse_dtype(I, kw.get("dtype", args[1] if len(args) > 1 else None))
        return mk(Arr((ln,), cast_elem(I, ops.np_elem(el), dts, node, st), I.fresh(node),
                      tuple((w.num().lo, w.num().hi) for w in ex if w.num() is not None)), tags)
    if fn in ("finfo", "iinfo"):
        return unk("finfo")
    if fn in ("array2string", "array_str", "array_repr", "base_repr", "binary_repr"):
        return mk(Str(None), tags)
    if fn in ("split", "array_split", "hsplit", "vsplit"):
        x = arr1(I, args[0], node, st)
        if x is not None:
            sh = None if x.shape is None else tuple(Num(0, d.hi, INT) for d in x.shape)
            return mk(Seq("list", None, mk(Arr(sh, x.elem, x.roots)), Num(0, INF, INT), I.fresh(node)), tags)
    if fn in ("meshgrid", "broadcast_arrays"):
        its = [arr1(I, v, node, st) for v in args]
        if all(x is not None for x in its):
            return I.seq("list", [mk(Arr(None, x.elem, x.roots if fn == "broadcast_arrays" else I.fresh(node, k))) for k, x in enumerate(its)], node).tag(tags)
    if fn == "indices":
        return mk(Arr(None, mk(Num(0, INF, INT, "i64")), I.fresh(node)), tags)
    if fn == "interp":
        return elementwise(I, args[0], lambda n: Num(-INF, INF, FLOAT, "f64"), node, st, fn)
    if fn == "tri":
        n = args[0].num()
        return mk(Arr((n, n) if n is not None and len(args) == 1 else None, mk(Num(0, 1, INT | FLOAT, "i64")), I.fresh(node)), tags)
    I.note_unmodelled("numpy." + fn, node)
    return unk("numpy." + fn, tags)


@np_("fill_diagonal", "put", "place", "copyto", "putmask", "put_along_axis")
def n_inplace(I, args, kw, node, st, tags):
    fn = I.npname
    val = args[1] if fn in ("fill_diagonal", "copyto") else (args[2] if len(args) > 2 else const(0))
    mv = args[1] if fn in ("place", "putmask") and len(args) > 2 else kw.get("where") if fn == "copyto" else None
    ma = mv.one(Arr) if mv is not None else None
    mn = ma.elem.num() if ma is not None and not ma.elem.unk else None
    for o in args[0].alts:
        if isinstance(o, Arr):
            el, full = elem_of(I, val, node, st), False
            if mn is not None and mn.const is not None:
                if not mn.const:
                    el = V(o.elem.alts, o.elem.tags | tags)
                else:
                    full = len(args[0].alts) == 1 and ma.shape is not None and ma.shape == o.shape
            store(I, o, el, node, st, f"np.{fn}()", tags, full=full)
        elif isinstance(o, Unk):
            I.mutate(o.roots, None, node, st, f"np.{fn}()")
    return const(None)


@np_("shares_memory", "may_share_memory")
def n_shares(I, args, kw, node, st, tags):
    return BOOLTOP


# ------------------------------------------------------------------ ndarray methods
def call_method(I, a, args, kw, node, st):
    nm = a.path[4:]
    I.npname = nm
    v = a.recv
    x = v.alts[0]
    tags = ops.dtags(v, *args, *kw.values())
    if any(isinstance(q, tuple) for q in args) and nm != "reshape":
        args = plain(args)
    if nm == "reshape":
        if any(isinstance(q, tuple) for q in args):
            return mk(Arr(None, x.elem, x.roots, x.ex), tags)
        if not args:
            return do_reshape(I, v, [kw.get("shape")], node, st)
        return do_reshape(I, v, list(args), node, st)
    if nm in ("ravel", "transpose", "swapaxes", "squeeze"):
        return NP[nm](I, [v] + list(args), kw, node, st, tags)
    if nm == "flatten":
        return mk(Arr((size_num(I, x, st),), x.elem, I.fresh(node), x.ex), tags)
    if nm in ("copy", "__copy__", "__deepcopy__"):
        return mk(Arr(x.shape, x.elem, I.fresh(node, "copy"), x.ex, x.aux), tags)
    if nm == "astype":
        dts = parse_dtype(I, args[0] if args else kw.get("dtype"))
        cp = kw.get("copy")
        if cp is not None and ops.truth(I, cp, st) is False:
            return asarray(I, v, dts, node, st)
        r = cast_v(I, v, dts, node, st)
        return lit.attach(r, lit.literal(v)) if dts is not None and dts[0] == INT and (x.elem.num() is not None and x.elem.num().kinds <= INT | BOOL) else r
    if nm == "view":
        dts = parse_dtype(I, args[0] if args else kw.get("dtype"))
        if dts is None:
            return mk(x, tags)
        n = x.elem.num()
        if dts == (INT, "u8") and n is not None:
            sh = None if x.shape is None else x.shape[:-1] + (ops.num_binop(I, "Mult", x.shape[-1], num_const(8), st),)
            return mk(Arr(sh, mk(Num(0, 255, INT, "u8")), x.roots), tags)
        return mk(Arr(None, mk(Num(-INF, INF, dts[0] or INT, dts[1])) if dts[0] != "?" else unk("view"), x.roots), tags)
    if nm in RED:
        return lit.attach(reduce_(I, v, RED[nm], args, kw, node, st), lit.np_fold(nm, [v] + list(args), kw))
    if nm in ("cumsum", "cumprod"):
        return cumulative(I, v, "add" if nm == "cumsum" else "multiply", kw.get("axis", args[0] if args else None), node, st)
    if nm == "item":
        if x.shape is not None and any(d.lo > 1 for d in x.shape) and not args:
            I.raise_("ValueError", node, st)
        return V(tuple(topy(n) if isinstance(n, Num) else n for n in x.elem.alts), tags)
    if nm == "tolist":
        return tolist(I, x, node, st).tag(tags)
    if nm in ("dot",):
        return matmul(I, v, args[0], node, st, dot=True)
    if nm in ("conj", "conjugate", "round", "clip"):
        if nm == "clip":
            return NP["clip"](I, [v] + list(args), kw, node, st, tags)
        return ufunc1(I, nm, [v], kw, node, st)
    if nm in ("repeat",):
        return NP["repeat"](I, [v] + list(args), kw, node, st, tags)
    if nm in ("nonzero",):
        return n_nonzero(I, [v], kw, node, st, tags)
    if nm == "argsort":
        return n_argsort(I, [v], kw, node, st, tags)
    if nm in ("take", "compress", "diagonal", "trace", "searchsorted"):
        if nm == "take":
            return NP["take"](I, [v] + list(args), kw, node, st, tags)
        return unk("arr." + nm, tags, x.roots if nm == "diagonal" else frozenset())
    if nm == "fill":
        store(I, x, elem_of(I, args[0], node, st), node, st, ".fill()", tags, full=len(v.alts) == 1)
        return const(None)
    if nm in ("sort", "partition", "byteswap", "resize", "setflags"):
        if nm == "setflags":
            return const(None)
        I.mutate(x.roots, None, node, st, f".{nm}()", tags=tags, update=lambda y: Arr(y.shape, y.elem, y.roots, y.ex) if isinstance(y, Arr) else y)
        return const(None)
    if nm == "put":
        store(I, x, elem_of(I, args[1], node, st), node, st, ".put()", tags)
        return const(None)
    if nm in ("tobytes", "tostring"):
        return mk(Seq("bytes", None, mk(Num(0, 255, INT)), Num(0, INF, INT), frozenset()), tags)
    if nm in ("__array__",):
        return mk(x, tags)
    if nm == "__len__":
        return mk(x.shape[0], tags) if x.shape else unk("len")
    if nm == "__getitem__":
        return arr_getitem(I, x, args[0], node, st, tags)
    if nm == "__setitem__":
        arr_setitem(I, x, args[0], args[1], node, st, tags)
        return const(None)
    if nm in ("__iter__",):
        el, ln, ex = ops.iter_elem(I, v, node, st)
        return mk(Seq("iter", None, el, ln, I.fresh(node), ex), tags)
    I.note_unmodelled("ndarray." + nm, node)
    I.raise_("AttributeError", node, st) if nm.startswith("append") else None
    return unk("arr." + nm, tags)


def topy(n):
    return Num(n.lo, n.hi, n.kinds, "py", n.nan, n.sym)


def tolist(I, x, node, st, depth=0):
    if x.shape is None:
        e = V(tuple(topy(n) if isinstance(n, Num) else n for n in x.elem.alts), x.elem.tags)
        return join(mk(Seq("list", None, join(e, unk("nested")), Num(0, INF, INT), I.fresh(node))), e) if False else \
            mk(Seq("list", None, e, Num(0, INF, INT), I.fresh(node)))
    if x.shape == ():
        return V(tuple(topy(n) if isinstance(n, Num) else n for n in x.elem.alts), x.elem.tags)
    if len(x.shape) == 1:
        e = V(tuple(topy(n) if isinstance(n, Num) else n for n in x.elem.alts), x.elem.tags)
        n = e.num()
        ex = tuple(mk(topy(ops.wnum(w, n)), x.elem.tags) for w in x.ex) if n is not None else ()
        if e.num() is not None and e.num().bot and len(e.alts) == 1:
            return mk(Seq("list", None, e, x.shape[0], I.fresh(node, depth)))
        return mk(Seq("list", None, e, x.shape[0], I.fresh(node, depth), ex))
    sub = tolist(I, Arr(x.shape[1:], x.elem, x.roots, ()), node, st, depth + 1)
    ex = ()
    if x.ex:
        ex = (tolist(I, Arr(x.shape[1:], x.elem, x.roots, x.ex), node, st, depth + 1),)
    return mk(Seq("list", None, sub, x.shape[0], I.fresh(node, depth), ex))
