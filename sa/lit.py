"""Constant propagation for small arrays: nested tuples of exact constants, carried by Arr.aux under the key 'lit'.
Everything here is plain Python over tuples; an operation that is not listed simply loses the constant."""
import operator, math
from fractions import Fraction
from .domain import *

LIMIT = 5000
OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
       "Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge,
       "Mod": operator.mod, "FloorDiv": operator.floordiv, "LShift": operator.lshift, "RShift": operator.rshift}


def literal(v, depth=0):
    """nested tuple of the exact constants of a list, tuple, array or number; None when some part is not constant"""
    if len(v.alts) != 1 or depth > 3:
        return None
    a = v.alts[0]
    if isinstance(a, Num):
        return a.const if "complex" not in a.kinds else None
    if isinstance(a, Seq) and a.items is not None:
        out = tuple(literal(x, depth + 1) for x in a.items)
        return None if any(x is None for x in out) or not out else out
    if isinstance(a, Arr) and a.aux:
        return dict(a.aux).get("lit")
    return None


def shape(t):
    sh = ()
    while isinstance(t, tuple):
        sh += (len(t),)
        t = t[0]
    return sh


def flat(t):
    if not isinstance(t, tuple):
        return [t]
    out = []
    for x in t:
        out += flat(x)
    return out


def build(sh, xs):
    if not sh:
        return xs[0]
    n = len(xs) // sh[0]
    return tuple(build(sh[1:], xs[i * n:(i + 1) * n]) for i in range(sh[0]))


def regular(t, sh=None):
    sh = shape(t) if sh is None else sh
    if not sh:
        return not isinstance(t, tuple)
    return isinstance(t, tuple) and len(t) == sh[0] and all(regular(x, sh[1:]) for x in t)


def ew(f, a, b):
    sa, sb = shape(a), shape(b)
    n = max(len(sa), len(sb))
    sa, sb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    out = tuple(y if x == 1 else x for x, y in zip(sa, sb))
    if any(y not in (1, o) or x not in (1, o) for x, y, o in zip(sa, sb, out)) or math.prod(out) > LIMIT:
        return None
    fa, fb = flat(a), flat(b)
    res = []
    for k in range(math.prod(out)):
        ia = ib = 0
        r, idx = k, []
        for d in reversed(out):
            idx.append(r % d)
            r //= d
        for d, i in zip(sa, reversed(idx)):
            ia = ia * d + (i if d > 1 else 0)
        for d, i in zip(sb, reversed(idx)):
            ib = ib * d + (i if d > 1 else 0)
        res.append(f(fa[ia], fb[ib]))
    return build(out, res)


def binop(op, a, b):
    f = OPS.get(op)
    if f is None or a is None or b is None:
        return None
    try:
        r = ew(f, a, b)
    except (ArithmeticError, TypeError, ValueError):
        return None
    return r


def move_axis_last(t, ax):
    sh = shape(t)
    xs = flat(t)
    n = len(sh)
    ax %= n
    order = [i for i in range(n) if i != ax] + [ax]
    nsh = tuple(sh[i] for i in order)
    out = []
    strides = [math.prod(sh[i + 1:]) for i in range(n)]
    for k in range(math.prod(nsh)):
        r, idx = k, []
        for d in reversed(nsh):
            idx.append(r % d)
            r //= d
        idx.reverse()
        out.append(xs[sum(i * strides[o] for i, o in zip(idx, order))])
    return nsh, out


def reduce_axis(f, t, ax):
    nsh, xs = move_axis_last(t, ax)
    n = nsh[-1]
    rows = [f(xs[i:i + n]) for i in range(0, len(xs), n)]
    return build(nsh[:-1], rows)


def transpose(t):
    if len(shape(t)) < 2:
        return t
    if len(shape(t)) == 2:
        return tuple(zip(*t))
    return None


def concat(parts, ax):
    if ax == 0:
        return sum((tuple(p) for p in parts), ())
    if any(len(p) != len(parts[0]) for p in parts):
        return None
    return tuple(concat(list(ps), ax - 1) for ps in zip(*parts))


def const_int(v):
    n = v.num() if v is not None else None
    return int(n.const) if n is not None and n.const is not None and "float" not in n.kinds else None


RED = {"sum": sum, "prod": math.prod, "max": max, "min": min, "amax": max, "amin": min, "any": any, "all": all,
       "count_nonzero": lambda xs: sum(1 for x in xs if x)}


def np_fold(nm, args, kw):
    """exact result of a numpy call on constant arguments, or None"""
    try:
        if nm in RED:
            x = literal(args[0]) if args else None
            if not isinstance(x, tuple) or set(kw) - {"axis"} or len(args) > 2:
                return None
            ax = kw.get("axis", args[1] if len(args) > 1 else None)
            if ax is None or ax.alts == (NONE,):
                return RED[nm](flat(x))
            k = const_int(ax)
            return reduce_axis(RED[nm], x, k) if k is not None and -len(shape(x)) <= k < len(shape(x)) else None
        if nm in ("array", "asarray", "ascontiguousarray", "copy"):
            x = literal(args[0]) if len(args) == 1 and not set(kw) - {"copy"} else None
            return x if isinstance(x, tuple) and regular(x) and len(flat(x)) <= LIMIT else None
        if nm in ("hstack", "vstack", "concatenate", "column_stack", "append"):
            if nm == "append":
                if len(args) != 2 or kw:
                    return None
                ps = [literal(a) for a in args]
                return tuple(flat(ps[0]) + flat(ps[1])) if all(p is not None for p in ps) else None
            s = args[0].one(Seq) if len(args) >= 1 else None
            if s is None or s.items is None or len(args) > (2 if nm == "concatenate" else 1):
                return None
            ps = [literal(x) for x in s.items]
            if not ps or any(not isinstance(p, tuple) for p in ps):
                return None
            ds = {len(shape(p)) for p in ps}
            if nm == "vstack":
                ps = [(p,) if len(shape(p)) == 1 else p for p in ps]
                return concat(ps, 0)
            if nm == "column_stack":
                ps = [tuple((x,) for x in p) if len(shape(p)) == 1 else p for p in ps]
                return concat(ps, 1)
            if len(ds) != 1:
                return None
            if nm == "hstack":
                return concat(ps, 0 if ds == {1} else 1)
            ax = kw.get("axis", args[1] if len(args) > 1 else None)
            k = 0 if ax is None else const_int(ax)
            return concat(ps, k % max(ds)) if k is not None else None
        if nm in ("eye", "identity") and len(args) == 1 and not set(kw) - {"dtype"}:
            n = const_int(args[0])
            return tuple(tuple(int(i == j) for j in range(n)) for i in range(n)) if n and n <= 64 else None
        if nm in ("zeros", "ones") and args:
            sh = literal(args[0])
            sh = (sh,) if isinstance(sh, int) else sh
            if sh and all(isinstance(d, int) and d > 0 for d in sh) and math.prod(sh) <= LIMIT:
                return build(sh, [0 if nm == "zeros" else 1] * math.prod(sh))
            return None
        if nm == "arange" and not kw:
            ns = [const_int(a) for a in args]
            if ns and all(n is not None for n in ns):
                r = tuple(range(*ns))
                return r if 0 < len(r) <= LIMIT else None
        if nm == "kron" and len(args) == 2:
            a, b = literal(args[0]), literal(args[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and len(shape(a)) == len(shape(b)) == 2 and len(flat(a)) * len(flat(b)) <= LIMIT:
                return tuple(tuple(x * y for x in ra for y in rb) for ra in a for rb in b)
        if nm == "transpose" and len(args) == 1 and not kw:
            x = literal(args[0])
            return transpose(x) if isinstance(x, tuple) else None
        if nm == "flip" and len(args) == 1 and not kw:
            x = literal(args[0])
            return tuple(reversed(x)) if isinstance(x, tuple) and len(shape(x)) == 1 else None
    except (TypeError, ValueError, IndexError, ArithmeticError, AttributeError):
        return None
    return None


def index(t, i):
    """t[i] for constant integers, None (newaxis) and slices with constant bounds"""
    s = i.one(Seq)
    idx = list(s.items) if s is not None and s.kind == "tuple" and s.items is not None else [i]
    try:
        return _index(t, idx)
    except (TypeError, ValueError, IndexError):
        return None


def _index(t, idx):
    if not idx:
        return t
    x, rest = idx[0], idx[1:]
    if len(x.alts) != 1:
        return None
    a = x.alts[0]
    if a is ELLIPSIS:
        lead = len(shape(t)) - sum(1 for y in rest if y.alts != (NONE,))
        return _index(t, [mk(SliceA(None, None, None))] * lead + rest) if lead >= 0 and not any(y.alts == (ELLIPSIS,) for y in rest) else None
    if a is NONE:
        r = _index(t, rest)
        return None if r is None else (r,)
    if not isinstance(t, tuple):
        return None
    if isinstance(a, Num):
        k = const_int(x)
        return _index(t[k], rest) if k is not None and -len(t) <= k < len(t) else None
    if isinstance(a, SliceA):
        bs = []
        for b in (a.lo, a.hi, a.step):
            if b is None or b.alts == (NONE,):
                bs.append(None)
            else:
                k = const_int(b)
                if k is None:
                    return None
                bs.append(k)
        out = tuple(_index(y, rest) for y in t[slice(*bs)])
        return None if not out or any(y is None for y in out) else out
    return None


def attach(r, x):
    """the abstract result r refined by the exact constant x"""
    if x is None or len(r.alts) != 1:
        return r
    a = r.alts[0]
    if isinstance(a, Arr) and isinstance(x, tuple):
        n = a.elem.num()
        if n is None or "complex" in n.kinds or a.shape is None or a.shape == () or not regular(x) or len(shape(x)) != len(a.shape):
            return r
        xs = flat(x)
        lo, hi = min(xs), max(xs)
        sh = tuple(num_const(d) for d in shape(x))
        el = V((Num(max(lo, n.lo), min(hi, n.hi), n.kinds, n.dt, n.nan, n.sym if lo != hi else None),), a.elem.tags) if lo <= n.hi and hi >= n.lo else a.elem
        return V((Arr(sh, el, a.roots, a.ex or ((lo, lo), (hi, hi)), frozenset(y for y in a.aux if y[0] != "lit") | {("lit", x)}),), r.tags)
    if isinstance(a, Num) and not isinstance(x, tuple) and a.lo <= x <= a.hi and "complex" not in a.kinds:
        return V((Num(x, x, a.kinds, a.dt, a.nan),), r.tags)
    return r
