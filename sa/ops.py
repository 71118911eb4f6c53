"""Transfer functions: operators, builtins and library calls."""
import ast
import math

from .domain import *
from . import lit
from .model import ClassInfo

LIM = 1 << 4096


def tags_of(*vs):
    t = frozenset()
    for v in vs:
        if isinstance(v, tuple):
            v = v[1]
        if isinstance(v, V):
            t = t | v.tags
    return t


def dtags(*vs):
    t = frozenset()
    for v in vs:
        if isinstance(v, tuple):
            v = v[1]
        if isinstance(v, V):
            t = t | deep_tags(v)
    return t


# ------------------------------------------------------------------ constants
REAL = frozenset([("real",)])
EXT_CONSTS = {
    "math.pi": const(math.pi, REAL), "math.e": const(math.e, REAL), "math.tau": const(math.tau, REAL), "math.inf": const(INF),
    "math.nan": const(float("nan")), "numpy.pi": const(math.pi, REAL), "numpy.e": const(math.e, REAL), "numpy.inf": const(INF),
    "numpy.nan": const(float("nan")), "numpy.newaxis": const(None), "typing.TYPE_CHECKING": const(False),
    "sys.maxsize": const((1 << 63) - 1), "numpy.True_": TRUE, "numpy.False_": FALSE,
}
BUILTIN_CONSTS = {"Ellipsis": mk(ELLIPSIS), "NotImplemented": mk(NOTIMPL), "__debug__": TRUE}


def is_type_ext(e):
    return e.path.split(".")[-1] in ("list", "dict", "tuple", "set", "frozenset", "type", "deque", "Callable", "Generic",
                                     "Protocol", "Literal", "Sequence", "Iterable", "NDArray", "ndarray", "dtype",
                                     "Generator", "Counter", "defaultdict", "TypedDict", "Any", "Optional", "Union", "tqdm") \
        or e.path.startswith(("typing.", "numpy.typing", "collections.abc."))


# ------------------------------------------------------------------ symbolic bounds
def poly_bounds(I, st, p):
    lo = hi = 0
    for m, c in p:
        l = h = 1
        for a in m:
            al, ah = atom_bounds(I, st, a)
            vals = [imul(x, y) for x in (l, h) for y in (al, ah)]
            l, h = min(vals), max(vals)
        if c >= 0:
            lo, hi = lo + imul(c, l), hi + imul(c, h)
        else:
            lo, hi = lo + imul(c, h), hi + imul(c, l)
    return lo, hi


def atom_bounds(I, st, a):
    lo, hi = I.symbounds.get(a, (-INF, INF))
    if st is not None and a in st.facts:
        l2, h2 = st.facts[a]
        lo, hi = max(lo, l2), min(hi, h2)
    return lo, hi


def imul(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def fin(I, st, n):
    """Tighten a Num using its symbolic value."""
    if n.sym is None or n.bot:
        return n
    c = p_isconst(n.sym)
    if c is not None:
        if n.kinds <= {"float"}:
            c = float(c)
        return Num(c, c, n.kinds, n.dt, n.nan, n.sym) if (n.lo, n.hi) != (c, c) else n
    lo, hi = poly_bounds(I, st, n.sym)
    lo, hi = max(lo, n.lo), min(hi, n.hi)
    if lo > hi or (lo, hi) == (n.lo, n.hi):
        return n
    return Num(lo, hi, n.kinds, n.dt, n.nan, n.sym)


def add_atom(I, name, p, q, lo, hi):
    a = (name, p, q)
    if a not in I.symbounds:
        I.symbounds[a] = (lo, hi)
    return p_sym(a)


# ------------------------------------------------------------------ numeric binary ops
def promote_dt(a, b, op):
    """dtype of a numpy-style binary op on Nums a, b (py scalars are weak)."""
    if "f64w" in (a.dt, b.dt):
        return "obj" if "obj" in (a.dt, b.dt) else "f64"
    if a.dt == "py" and b.dt == "py":
        return "py"
    if "obj" in (a.dt, b.dt):
        return "obj"
    if a.dt == "py" or b.dt == "py":
        x, p = (b, a) if a.dt == "py" else (a, b)
        if p.kinds <= {"bool"}:
            return x.dt
        if p.kinds & {"float", "complex"} and x.kinds <= {"int", "bool"}:
            return "f64"
        if x.kinds <= {"bool"}:
            return "i64"
        return x.dt
    if "f64" in (a.dt, b.dt):
        return "f64"
    # a real bool dtype does not widen anything
    if a.kinds <= {"bool"} and a.dt == "i64":
        return b.dt
    if b.kinds <= {"bool"} and b.dt == "i64":
        return a.dt
    if "i64" in (a.dt, b.dt):
        return "i64"
    return "narrow" if "narrow" in (a.dt, b.dt) else "u8"


def npbool(a):
    return a.kinds <= {"bool"} and a.dt != "py"


def res_kinds(op, a, b):
    ks = a.kinds | b.kinds
    out = set()
    if "complex" in ks:
        out.add("complex")
        if ks <= {"complex"} or not (a.kinds - {"complex"} and b.kinds - {"complex"}):
            return frozenset(out)
    if op == "Div":
        out.add("float")
        return frozenset(out)
    if "float" in ks:
        out.add("float")
        if not (a.kinds & {"int", "bool"} and b.kinds & {"int", "bool"}):
            return frozenset(out)
    if a.kinds & {"int", "bool"} and b.kinds & {"int", "bool"}:
        if op in ("BitAnd", "BitOr", "BitXor") and a.kinds <= {"bool"} and b.kinds <= {"bool"}:
            out.add("bool")
        elif op in ("Add", "Mult") and npbool(a) and npbool(b):
            out.add("bool")
        else:
            out.add("int")
    return frozenset(out or {"int"})


def num_binop(I, op, a, b, st=None):
    if a.bot or b.bot:
        return Num(INF, -INF, res_kinds(op, a, b), promote_dt(a, b, op), a.nan or b.nan)
    ks = res_kinds(op, a, b)
    dt = promote_dt(a, b, op)
    if op == "Div" and dt in ("i64", "narrow", "u8"):
        dt = "f64"
    if ks <= {"bool"}:
        dt = dt if dt != "narrow" else "i64"
    nan = a.nan or b.nan
    lo, hi, sym = -INF, INF, None
    cplx = "complex" in ks
    if cplx:
        return Num(-INF, INF, ks, dt, nan)
    isint = a.kinds <= {"int", "bool"} and b.kinds <= {"int", "bool"}
    if op == "Add":
        lo, hi = a.lo + b.lo, a.hi + b.hi
        if a.sym is not None and b.sym is not None:
            sym = p_add(a.sym, b.sym)
    elif op == "Sub":
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if a.sym is not None and b.sym is not None:
            sym = p_add(a.sym, b.sym, -1)
    elif op == "Mult":
        vals = [imul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        lo, hi = min(vals), max(vals)
        if a.sym is not None and b.sym is not None:
            sym = p_mul(a.sym, b.sym)
    elif op == "Div":
        if b.lo > 0 or b.hi < 0:
            vals = []
            for x in (a.lo, a.hi):
                for y in (b.lo, b.hi):
                    if abs(y) == INF:
                        vals.append(0.0 if abs(x) != INF else (0.0))
                        if abs(x) == INF:
                            vals.append(x if y > 0 else -x)
                    else:
                        try:
                            vals.append(x / y)
                        except OverflowError:
                            vals.append(INF if (x > 0) == (y > 0) else -INF)
            lo, hi = min(vals), max(vals)
        elif a.lo >= 0 and b.lo >= 0:
            lo, hi = 0.0, INF
    elif op == "FloorDiv":
        if a.const is not None and b.const is not None and b.const != 0:
            lo = hi = a.const // b.const
        elif b.lo > 0:
            vals = []
            for x in (a.lo, a.hi):
                for y in (b.lo, b.hi):
                    if abs(x) == INF:
                        vals += [x, 0] if y == INF else [x]
                    elif y == INF:
                        vals.append(0 if x >= 0 else -1)
                    else:
                        vals.append(x // y)
            lo, hi = min(vals), max(vals)
        if isint and a.sym is not None and b.sym is not None and b.sym:
            sym = p_divexact(a.sym, b.sym) if b.lo > 0 or b.hi < 0 else None
            if sym is None and b.lo > 0:
                sym = add_atom(I, "//", a.sym, b.sym, lo, hi)
    elif op == "Mod":
        if a.const is not None and b.const is not None and b.const != 0:
            lo = hi = a.const % b.const
        elif b.lo > 0:
            whole = a.dt == "f64w" and (b.kinds <= {"int", "bool"} or b.dt == "f64w")        # integral floats
            lo, hi = 0, (b.hi - 1 if isint or whole else b.hi)
            if a.lo >= 0 and a.hi < b.lo:
                lo, hi = a.lo, a.hi
                sym = a.sym
            elif a.lo >= 0:
                hi = min(hi, a.hi)
        elif b.hi < 0:
            lo, hi = (b.lo + 1 if isint else b.lo), 0
        if isint and sym is None and a.sym is not None and b.sym is not None and b.sym and b.lo > 0:
            if p_divexact(a.sym, b.sym) is not None:
                lo = hi = 0
                sym = p_const(0)
            else:
                sym = add_atom(I, "%", a.sym, b.sym, lo, hi)
    elif op == "Pow":
        if isint and b.lo < 0 and a.dt == "py" and b.dt == "py":
            ks = frozenset(ks | {"float"}) if b.hi >= 0 else FLOAT
        if a.const is not None and b.const is not None and abs(b.const) < 200 and (b.const >= 0 or a.const > 0):
            try:
                lo = hi = a.const ** b.const
            except OverflowError:
                lo, hi = 0, INF
        elif a.lo == a.hi == -1 and isint:
            lo, hi = -1, 1
        elif a.lo >= 1 and b.lo >= 0:
            lo, hi = ipow(a.lo, b.lo), ipow(a.hi, b.hi)
        elif a.lo >= 0 and b.lo >= 0:
            lo, hi = 0, (1 if a.hi <= 1 else ipow(a.hi, b.hi))
            if b.hi == 0:
                lo = 1
        elif a.lo >= 0:
            lo = 0
        elif b.const is not None and b.const >= 0 and b.const == int(b.const) and int(b.const) % 2 == 0:
            m = max(abs(a.lo), abs(a.hi))
            lo, hi = 0, ipow(m, b.const)
        if isint and a.sym is not None and b.sym is not None and (b.lo >= 0 or a.lo == a.hi and a.lo >= 2 and b.hi > 0):
            c = p_isconst(b.sym)
            if c is not None and 0 <= c <= 3:
                sym = p_const(1)
                for _ in range(c):
                    sym = p_mul(sym, a.sym) if sym is not None else None
            elif p_isconst(a.sym) is not None and p_isconst(a.sym) > 1:
                # base ** (c + p) = base**c * base**p
                cst = dict(b.sym).get((), 0)
                rest = p_add(b.sym, p_const(cst), -1)
                if 0 <= cst < 64:
                    # base ** (p + q) = base**p * base**q
                    parts = [(frozenset([(m, 1)]), k) for m, k in rest] if all(0 < k <= 3 for _, k in rest) else [(rest, 1)]
                    sym = p_const(int(a.lo) ** cst)
                    for q, k in parts:
                        l2, h2 = poly_bounds(I, st, q)
                        at = add_atom(I, "**", a.sym, q, ipow(a.lo, l2) if l2 >= 0 else 0, ipow(a.hi, h2) if h2 >= 0 else 1)
                        for _ in range(k):
                            sym = p_mul(sym, at) if sym is not None else None
                else:
                    sym = add_atom(I, "**", a.sym, b.sym, lo, hi)
            else:
                sym = add_atom(I, "**", a.sym, b.sym, lo, hi)
    elif op in ("BitAnd", "BitOr", "BitXor"):
        if a.const is not None and b.const is not None:
            x, y = int(a.const), int(b.const)
            lo = hi = x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
        elif a.lo >= 0 and b.lo >= 0:
            if op == "BitAnd":
                lo, hi = 0, min(a.hi, b.hi)
            else:
                m = max(a.hi, b.hi)
                lo, hi = 0, (INF if m == INF else (1 << int(m).bit_length()) - 1)
                if op == "BitOr":
                    lo = max(a.lo, b.lo)
        elif op == "BitAnd" and (a.lo >= 0 or b.lo >= 0):
            lo, hi = 0, (a.hi if a.lo >= 0 else b.hi)
    elif op == "LShift":
        if a.const is not None and b.const is not None and 0 <= b.const < 4096:
            lo = hi = int(a.const) << int(b.const)
        elif a.lo >= 0 and b.lo >= 0:
            lo = imul(a.lo, ipow(2, b.lo))
            hi = imul(a.hi, ipow(2, b.hi))
        if a.sym is not None and b.sym is not None and b.lo >= 0 and isint:
            t = num_binop(I, "Pow", num_const(2), Num(b.lo, b.hi, INT, "py", False, b.sym), st)
            if t.sym is not None:
                sym = p_mul(a.sym, t.sym)
    elif op == "RShift":
        if a.const is not None and b.const is not None and 0 <= b.const:
            lo = hi = int(a.const) >> int(min(b.const, 1 << 20))
        elif b.lo >= 0:
            if a.lo >= 0:
                lo, hi = 0, a.hi if b.lo == 0 or a.hi == INF else int(a.hi) >> int(min(b.lo, 1 << 20))
            else:
                lo, hi = a.lo, max(a.hi, -1) if a.hi < 0 else a.hi
    if isinstance(lo, float) and math.isnan(lo):
        lo = -INF
    if isinstance(hi, float) and math.isnan(hi):
        hi = INF
    if ks <= {"bool"}:
        lo, hi = max(lo, 0), min(hi, 1)
    if lo < -LIM:
        lo = -INF
    if hi > LIM:
        hi = INF
    if lo == hi and isinstance(lo, int) and sym is None and isint:
        sym = p_const(lo)
    if not isint and sym is not None and p_isconst(sym) is None:
        sym = None
    return fin(I, st, Num(lo, hi, ks, dt, nan, sym))


def ipow(x, y):
    if y == INF:
        return 1 if x == 1 else (0 if x == 0 else INF)
    if x == INF:
        return INF if y > 0 else 1
    try:
        if isinstance(x, int) and isinstance(y, int):
            if y > 4096:
                return INF if x > 1 else x
            return x ** y
        r = float(x) ** float(y)
        return r
    except (OverflowError, ZeroDivisionError):
        return INF


OPNAMES = {ast.Add: "Add", ast.Sub: "Sub", ast.Mult: "Mult", ast.Div: "Div", ast.FloorDiv: "FloorDiv", ast.Mod: "Mod",
           ast.Pow: "Pow", ast.BitAnd: "BitAnd", ast.BitOr: "BitOr", ast.BitXor: "BitXor", ast.LShift: "LShift",
           ast.RShift: "RShift", ast.MatMult: "MatMult"}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift", "MatMult": "matmul"}


BIG, LN = ("big",), ("ln",)
BDEG = ("bdeg",)          # bit length of an arbitrary-size integer: itself a size, but 2**it is again arbitrary-size


def big(n, tags):
    """may be an arbitrary-size integer (a polynomial, a bit string read as a number) beyond the exact range of a float"""
    return BIG in tags and n is not None and n.kinds <= {"int", "bool"} and (n.hi >= 2 ** 53 or n.lo <= -2 ** 53)


def ix_tags(I, op, a, b, r, tags, node, ta=NOTAGS, tb=NOTAGS):
    """Dependency tag for 'float obtained from exact integers by an operation that may lose their exact value'."""
    if "float" in r.kinds and ("real",) not in tags:
        if big(a, ta) or big(b, tb):
            return tags | {("ix", id(node), "big")}
        if op == "Div" and LN in ta and LN in tb and not (b.const is not None and float(b.const).is_integer()):
            return tags | {("ix", id(node), "log")}
        if op == "Pow" and "float" in a.kinds and b.kinds <= {"int", "bool"} and r.hi > 2 ** 53 and b.hi >= 64 and not (a.const is not None and exact_pow2(a.const)):
            return tags | {("ix", id(node), "big")}       # closed form such as Binet's: an exact integer only up to the float's precision
    return tags


def exact_pow2(c):
    try:
        return math.frexp(float(c))[0] == 0.5
    except (TypeError, ValueError, OverflowError):
        return False


def check_narrow(I, op, r, node, a, b):
    if r.dt in ("narrow", "u8") and op in ("Add", "Sub", "Mult", "Pow", "LShift", "MatMult"):
        lo, lim = (I.narrow_lo, I.narrow_hi) if r.dt == "narrow" else (0, 255)
        if not r.bot and (r.lo < lo or r.hi > lim):
            I.event("narrow", node, f"{op} computed in the caller's dtype reaches [{r.lo}, {r.hi}]")


def binop(I, op, a, b, node, st, inplace=False):
    opn = op if isinstance(op, str) else OPNAMES[type(op)]
    tags = a.tags | b.tags
    res = BOT
    feasible = False
    for x in a.alts:
        for y in b.alts:
            try:
                r = binop_atom(I, opn, x, y, node, st, tags, a, b)
            except Dead_():
                continue
            res = join(res, r)
    if not res.alts:
        raise Dead_()()
    return res.tag(tags - {("ixdrop",)})


def Dead_():
    from .interp import Dead
    return Dead


def binop_atom(I, op, x, y, node, st, tags, av, bv):
    if isinstance(x, Unk) or isinstance(y, Unk):
        if isinstance(x, Obj) and isinstance(y, Unk) or isinstance(x, Unk) and isinstance(y, Obj):
            o = x if isinstance(x, Obj) else y
            return unk("op on " + I.class_name(o.cls), tags)
        u = x if isinstance(x, Unk) else y
        return unk(u.why, tags)
    if isinstance(x, Num) and isinstance(y, Num):
        if op == "MatMult":
            I.raise_("TypeError", node, st)
        if op in ("Div", "FloorDiv", "Mod") and y.lo == 0 == y.hi and x.dt == "py" and y.dt == "py" and not y.nan:
            I.raise_("ZeroDivisionError", node, st)
        r = num_binop(I, op, x, y, st)
        check_narrow(I, op, r, node, x, y)
        if BIG in tags and r.dt in ("i64", "narrow", "u8") and r.kinds <= {"int"} and not r.bot and (r.hi >= 2 ** 63 or r.lo < -2 ** 63) and op in ("LShift", "Mult", "Pow", "Add", "MatMult"):
            I.event("big-fixed", node, f"{op} of an arbitrary-size integer in fixed-width arithmetic")
        if op in ("Div", "FloorDiv", "Mod"):
            I_div(I, x, y, node, op)
        if BDEG in tags:
            if op in ("Pow", "LShift") and BDEG in dtags(bv) and r.kinds <= {"int"} and r.dt == "py" and y.hi == INF:
                tags = tags | {BIG}
        tags = ix_tags(I, op, x, y, r, tags, node, dtags(av), dtags(bv))
        return mk(r, tags - {BIG} if BIG in tags and r.hi < 2 ** 53 and r.lo > -2 ** 53 else tags)
    if isinstance(x, Obj) or isinstance(y, Obj):
        return obj_binop(I, op, x, y, node, st, tags)
    if isinstance(x, Arr) or isinstance(y, Arr):
        r = arr_binop(I, op, x, y, node, st, tags)
        if has_lit(x) and has_lit(y):
            r = lit.attach(r, lit.binop(op, lit.literal(mk(x)), lit.literal(mk(y))))
        return r
    if isinstance(x, Str):
        if op == "Add" and isinstance(y, Str):
            if x.consts and y.consts and len(x.consts) * len(y.consts) <= 8:
                return mk(Str(frozenset(p + q for p in x.consts for q in y.consts)), tags)
            return mk(Str(None), tags)
        if op in ("Mod", "Mult"):
            return mk(Str(None), tags)
    if isinstance(y, Str) and isinstance(x, Num) and op == "Mult":
        return mk(Str(None), tags)
    if isinstance(x, Seq) and isinstance(y, Seq) and op == "Add":
        kind = x.kind
        roots = frozenset() if kind == "tuple" else I.fresh(node)
        if x.items is not None and y.items is not None:
            items = x.items + y.items
            return mk(Seq(kind, items, join_all(items), num_const(len(items)), roots), tags)
        ln = num_binop(I, "Add", x.length, y.length, st)
        return mk(Seq(kind, None, jopt(x.elem, y.elem), ln, roots, (x.ex + y.ex)[:4]), tags)
    if op == "Mult" and (isinstance(x, Seq) and isinstance(y, Num) or isinstance(y, Seq) and isinstance(x, Num)):
        s, n = (x, y) if isinstance(x, Seq) else (y, x)
        roots = frozenset() if s.kind == "tuple" else I.fresh(node)
        if s.items is not None and n.const is not None and len(s.items) * max(0, int(n.const)) <= 16:
            items = s.items * int(n.const)
            return mk(Seq(s.kind, items, join_all(items), num_const(len(items)), roots), tags)
        n0 = Num(max(0, n.lo), max(0, n.hi), INT, sym=n.sym if n.lo >= 0 else None)
        ln = num_binop(I, "Mult", s.length, n0, st)
        return mk(Seq(s.kind, None, s.elem, ln, roots, s.ex if n.lo >= 1 else ()), tags)
    if isinstance(x, SetA) and isinstance(y, SetA):
        el = {"Sub": x.elem, "BitAnd": x.elem}.get(op, jopt(x.elem, y.elem))
        lo = 0 if op in ("Sub", "BitAnd", "BitXor") else max(x.length.lo, y.length.lo)
        hi = x.length.hi if op in ("Sub", "BitAnd") else x.length.hi + y.length.hi
        return mk(SetA(x.kind, el, Num(lo, hi, INT), I.fresh(node)), tags)
    if isinstance(x, Map) and isinstance(y, Map) and op == "BitOr":
        return mk(Map(None, jopt(x.k, y.k), jopt(x.v, y.v), Num(0, INF, INT), I.fresh(node)), tags)
    if isinstance(x, (Cls, Ext)) or isinstance(y, (Cls, Ext)):
        return unk("type-op")
    if isinstance(x, Seq) and isinstance(y, (SetA,)) or isinstance(x, Map) or isinstance(y, Map):
        return unk("container-op", tags)
    I.raise_("TypeError", node, st)


def I_div(I, x, y, node, op):
    pass


def obj_binop(I, op, x, y, node, st, tags):
    d = DUNDER[op]
    res = BOT
    if isinstance(x, Obj):
        fm = I.prog.find_member(x.cls, f"__{d}__")
        if fm:
            m = I.getattr_obj(x, f"__{d}__", node, st, NOTAGS)
            if isinstance(y, Arr):
                I_elem = y.elem
                return mk(Arr(y.shape, I.call(m, [I_elem], {}, node, st), I.fresh(node)), tags)
            r = I.call(m, [mk(y)], {}, node, st)
            keep = tuple(a for a in r.alts if a is not NOTIMPL)
            if keep:
                res = join(res, V(keep, r.tags))
            if len(keep) == len(r.alts):
                return res.tag(tags)
        elif I.has_ext_base(x.cls):
            return unk("op", tags)
    if isinstance(y, Obj):
        fm = I.prog.find_member(y.cls, f"__r{d}__")
        if isinstance(x, Arr):
            r = obj_binop(I, op, x.elem.alts[0], y, node, st, tags) if x.elem.alts else unk("op")
            return mk(Arr(x.shape, r, I.fresh(node)), tags)
        if fm:
            m = I.getattr_obj(y, f"__r{d}__", node, st, NOTAGS)
            if isinstance(x, Num) and x.dt != "py":  # numpy goes through object arithmetic: the method receives a Python number
                x = Num(x.lo, x.hi, x.kinds, "py", x.nan, x.sym)
            res = join(res, I.call(m, [mk(x)], {}, node, st))
            return res.tag(tags)
        elif I.has_ext_base(y.cls):
            return unk("op", tags)
    if not res.alts:
        I.raise_("TypeError", node, st)
    return res.tag(tags)


# ------------------------------------------------------------------ arrays
def as_shape(atom):
    if isinstance(atom, Num) or isinstance(atom, Obj):
        return ()
    if isinstance(atom, Arr):
        return atom.shape
    return None


def bdim(I, x, y, st):
    if x.const == 1:
        return y
    if y.const == 1:
        return x
    if x == y:
        return x
    if x.sym is not None and x.sym == y.sym:
        return x
    if x.const is not None and x.const > 1:
        return x
    if y.const is not None and y.const > 1:
        return y
    if x.lo > 1:
        return x
    if y.lo > 1:
        return y
    return Num(max(x.lo, y.lo), max(x.hi, y.hi), INT)


def broadcast(I, s, t, st=None):
    if s is None or t is None:
        return None
    n = max(len(s), len(t))
    one = num_const(1)
    s = (one,) * (n - len(s)) + tuple(s)
    t = (one,) * (n - len(t)) + tuple(t)
    return tuple(bdim(I, x, y, st) for x, y in zip(s, t))


def np_elem(v):
    """Element value of an array made from python values: python scalars take default dtypes."""
    out = []
    for a in v.alts:
        if isinstance(a, Num) and a.dt == "py":
            dt = "f64" if a.kinds & {"float", "complex"} and not a.kinds & {"int", "bool"} else "i64"
            out.append(Num(a.lo, a.hi, a.kinds, dt, a.nan, None if p_isconst(a.sym or p_sym("x")) is None else a.sym))
        else:
            out.append(a)
    return V(tuple(out), v.tags)


def drop_sym(v):
    n = v.num()
    if n is not None and n.sym is not None and n.const is None:
        return V(tuple(Num(a.lo, a.hi, a.kinds, a.dt, a.nan) if isinstance(a, Num) else a for a in v.alts), v.tags)
    return v


def to_arr(I, atom, node, st):
    """Arr view of an atom (Seq -> fresh array)."""
    if isinstance(atom, Arr):
        return atom
    if isinstance(atom, Num):
        return Arr((), np_elem(mk(atom)), I.fresh(node, "0d"))
    if isinstance(atom, (Seq, SetA)) and not isinstance(atom, SetA):
        return seq_to_arr(I, atom, node, st)
    if isinstance(atom, Obj):
        m = I.prog.find_member(atom.cls, "__array__")
        return Arr((), mk(atom), I.fresh(node, "0d"))
    if isinstance(atom, Unk):
        return None
    return None


def seq_to_arr(I, s, node, st, depth=0):
    n = s.length
    if s.kind == "iter" and False:
        return None
    el = s.elem if s.elem is not None else BOT
    ex = []
    if not el.alts:
        return Arr((num_const(0),), mk(Num(INF, -INF, FLOAT, "f64")), I.fresh(node, "arr"))
    sub = None
    elem = BOT
    shapes = []
    tags = el.tags
    for a in el.alts:
        if isinstance(a, (Num, Obj)):
            shapes.append(())
            elem = join(elem, np_elem(mk(a)))
        elif isinstance(a, Seq):
            if depth > 4:
                return None
            sa = seq_to_arr(I, a, node, st, depth + 1)
            if sa is None:
                return None
            shapes.append(sa.shape)
            elem = join(elem, sa.elem)
            tags = tags | a_tags(sa)
        elif isinstance(a, Arr):
            shapes.append(a.shape)
            elem = join(elem, a.elem)
        elif a is NONE:
            shapes.append(())
            elem = join(elem, mk(a))
        else:
            return None
    sh = shapes[0]
    for t in shapes[1:]:
        sh = join_shape(sh, t) if sh is not None and t is not None else None
    if s.items is not None and s.items:
        # scalars given one by one: keep witnesses
        for it in s.items:
            nn = it.one(Num)
            if nn is not None:
                ex.append((nn.lo, nn.hi))
            sq = it.one(Seq)
            if sq is not None and sq.items is not None:
                for jt in sq.items:
                    nn = jt.one(Num)
                    if nn is not None:
                        ex.append((nn.lo, nn.hi))
        ex = ex[:6]
    else:
        for w in s.ex:
            nn = w.one(Num)
            if nn is not None:
                ex.append((nn.lo, nn.hi))
    shape = None if sh is None else (Num(n.lo, n.hi, INT, sym=n.sym),) + tuple(sh)
    return Arr(shape, drop_sym(elem).tag(tags), I.fresh(node, "arr"), tuple(ex))


def a_tags(a):
    return a.elem.tags


def elem_binop(I, op, ea, eb, node, st):
    if not ea.alts or not eb.alts:
        return V((Num(INF, -INF, INT, "i64"),), ea.tags | eb.tags)
    r = binop(I, op, ea, eb, node, st)
    if op == "Mult":
        # a nonconstant amount switched on and off by a flag: the interval does not reflect the condition
        for p, q in ((ea.num(), eb.num()), (eb.num(), ea.num())):
            if p is not None and q is not None and p.kinds <= {"bool"} and p.const is None and not q.kinds <= {"bool"} and (q.hi > 1 or q.lo < -1):
                r = r.tag(frozenset([("masked",)]))
    return r


def has_lit(x):
    return isinstance(x, Num) and x.const is not None or isinstance(x, (Arr, Seq)) and lit.literal(mk(x)) is not None


def arr_binop(I, op, x, y, node, st, tags):
    if op == "MatMult":
        from . import npm
        return npm.matmul(I, mk(x, tags), mk(y, tags), node, st)
    if x is NONE or y is NONE or isinstance(x, Str) or isinstance(y, Str):
        I.raise_("TypeError", node, st)
    ax, ay = to_arr_weak(I, x, node, st), to_arr_weak(I, y, node, st)
    if ax is None or ay is None:
        return unk("arr-op", tags)
    sh = broadcast(I, ax[0], ay[0], st)
    el = elem_binop(I, op, ax[1], ay[1], node, st)
    el = drop_sym(el)
    ex = ()
    nx, ny = ax[1].num(), ay[1].num()
    if nx is not None and ny is not None:
        if ax[2] and (ay[0] == () or ny.const is not None):
            ex = tuple(num_tuple(num_binop(I, op, wnum(w, nx), ny, st)) for w in ax[2])
        elif ay[2] and (ax[0] == () or nx.const is not None):
            ex = tuple(num_tuple(num_binop(I, op, nx, wnum(w, ny), st)) for w in ay[2])
        if op in ("LShift", "Pow", "Mult") and any(w[0] >= 2 ** 63 and w[1] < INF or w[1] < -2 ** 63 and w[0] > -INF for w in ex):
            r = el.num()
            if r is not None and r.kinds <= {"int"} and r.dt in ("i64", "narrow", "u8"):
                I.event("fixed-overflow", node, f"{op} in fixed-width array arithmetic reaches a value beyond 2**63")
        elif op in ("LShift", "Pow", "Mult") and nx.kinds <= {"int"} and ny.kinds <= {"int"} and not {"obj", "py"} & {nx.dt if ax[0] != () else None, ny.dt if ay[0] != () else None}:
            lo = num_binop(I, op, Num(nx.lo, nx.lo, INT), Num(ny.lo, ny.lo, INT), st) if nx.lo > 0 and ny.lo >= 0 and nx.lo < INF and ny.lo < 10 ** 4 else None
            if lo is not None and num_tuple(lo)[0] >= 2 ** 63:
                I.event("fixed-overflow", node, f"{op} in fixed-width array arithmetic: every element is beyond 2**63")
    return mk(Arr(sh, el, I.fresh(node, op), ex), tags)


def wnum(w, like):
    return Num(w[0], w[1], like.kinds, like.dt)


def num_tuple(n):
    return (n.lo, n.hi)


def to_arr_weak(I, atom, node, st):
    """(shape, elem, ex) keeping python scalars weak."""
    if isinstance(atom, Num):
        return (), mk(atom), ((atom.lo, atom.hi),)
    a = to_arr(I, atom, node, st)
    if a is None:
        return None
    return a.shape, a.elem, a.ex


def unop(I, op, v, node, st):
    if isinstance(op, ast.Not):
        t = truth(I, v, st)
        if t is None:
            return V((Num(0, 1, BOOL),) + ((Unk("not"),) if v.unk else ()), v.tags)
        return const(not t).tag(v.tags)
    res = BOT
    for a in v.alts:
        if isinstance(a, Num):
            if isinstance(op, ast.USub):
                ks = frozenset("int" if k == "bool" else k for k in a.kinds)
                dt = a.dt
                if dt in ("narrow", "u8") and a.hi > 0 and (dt == "u8" or I.narrow_lo == 0):
                    I.event("narrow", node, "negation computed in the caller's dtype")
                if npbool(a):
                    I.event("bool-neg", node, "negation of a boolean array")
                r = Num(-a.hi, -a.lo, ks, dt, a.nan, p_mul(a.sym, p_const(-1)) if a.sym is not None else None)
            elif isinstance(op, ast.UAdd):
                r = a
            else:
                if npbool(a):
                    r = Num(1 - a.hi, 1 - a.lo, BOOL, a.dt)
                else:
                    if a.dt in ("narrow", "u8") and (a.dt == "u8" or I.narrow_lo == 0):
                        I.event("narrow", node, "bitwise inversion computed in the caller's dtype")
                    r = Num(-a.hi - 1, -a.lo - 1, INT, a.dt)
            res = join(res, mk(r, v.tags))
        elif isinstance(a, Arr):
            el = unop(I, op, a.elem, node, st) if a.elem.alts else a.elem
            ex = ()
            n = a.elem.num()
            if a.ex and n is not None:
                ex = tuple(num_tuple(unop(I, op, mk(wnum(w, n)), node, st).num()) for w in a.ex)
            res = join(res, mk(Arr(a.shape, el, I.fresh(node), ex), v.tags))
        elif isinstance(a, Obj):
            nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
            if I.prog.find_member(a.cls, nm):
                res = join(res, I.call(I.getattr_obj(a, nm, node, st, NOTAGS), [], {}, node, st))
            else:
                res = join(res, unk("unop"))
        elif isinstance(a, Unk):
            res = join(res, unk(a.why, v.tags))
        else:
            if len(v.alts) == 1:
                I.raise_("TypeError", node, st)
    if not res.alts:
        raise Dead_()()
    return res


# ------------------------------------------------------------------ truth / comparison
def truth(I, v, st):
    """True / False / None."""
    out = set()
    for a in v.alts:
        t = truth_atom(I, a, st)
        out.add(t)
        if len(out) > 1 or t is None:
            return None
    return out.pop() if out else None


def truth_atom(I, a, st):
    if isinstance(a, Num):
        if a.nan and a.bot:
            return True
        if a.bot:
            return None
        if a.lo > 0 or a.hi < 0:
            return True
        if a.lo == a.hi == 0 and not a.nan:
            return False
        return None
    if a is NONE:
        return False
    if a is ELLIPSIS or isinstance(a, (Fn, Cls, ModA, Rng, Partial)):
        return True
    if isinstance(a, Str):
        if a.consts is not None:
            ts = {bool(s) for s in a.consts}
            return ts.pop() if len(ts) == 1 else None
        return None
    if isinstance(a, (Seq, SetA, Map)):
        if isinstance(a, Seq) and a.kind == "iter":
            return True
        if a.length.lo >= 1:
            return True
        if a.length.hi == 0:
            return False
        return None
    if isinstance(a, Obj):
        if I.prog.find_member(a.cls, "__bool__") or I.prog.find_member(a.cls, "__len__"):
            return None
        return True
    if isinstance(a, Arr):
        if a.shape is not None and all(d.const == 1 for d in a.shape) and a.elem.alts:
            return truth(I, a.elem, st)
        return None
    return None


def ub(t):
    return {True: TRUE, False: FALSE, None: BOOLTOP}[t]


def num_cmp(I, op, a, b, st):
    """op in Lt, LtE, Gt, GtE, Eq, NotEq on Nums -> True/False/None."""
    if op == "NotEq":
        t = num_cmp(I, "Eq", a, b, st)
        return None if t is None else not t
    if op == "Gt":
        return num_cmp(I, "Lt", b, a, st)
    if op == "GtE":
        return num_cmp(I, "LtE", b, a, st)
    if a.nan and a.bot or b.nan and b.bot:
        return False
    if a.bot or b.bot:
        return None
    if "complex" in a.kinds or "complex" in b.kinds:
        return None
    nan = a.nan or b.nan
    r = None
    if op == "Lt":
        r = True if a.hi < b.lo else (False if a.lo >= b.hi else None)
    elif op == "LtE":
        r = True if a.hi <= b.lo else (False if a.lo > b.hi else None)
    elif op == "Eq":
        if a.lo == a.hi == b.lo == b.hi and abs(a.lo) != INF:
            r = True
        elif a.lo == a.hi == b.lo == b.hi:
            r = None if a.kinds <= {"int", "bool"} else True
        elif a.hi < b.lo or b.hi < a.lo:
            r = False
        elif a.lo == a.hi and a.lo != int_(a.lo) and b.kinds <= {"int", "bool"}:
            r = False
    if r is None and a.sym is not None and b.sym is not None:
        d = p_add(a.sym, b.sym, -1)
        c = p_isconst(d)
        if c is not None:
            lo = hi = c
        else:
            lo, hi = poly_bounds(I, st, d)
        if op == "Lt":
            r = True if hi < 0 else (False if lo >= 0 else None)
        elif op == "LtE":
            r = True if hi <= 0 else (False if lo > 0 else None)
        elif op == "Eq":
            r = True if lo == hi == 0 else (False if lo > 0 or hi < 0 else None)
    if nan and r is True:
        r = None
    return r


def int_(x):
    try:
        return int(x)
    except (OverflowError, ValueError):
        return None


CMPN = {ast.Lt: "Lt", ast.LtE: "LtE", ast.Gt: "Gt", ast.GtE: "GtE", ast.Eq: "Eq", ast.NotEq: "NotEq"}
CMPD = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}
REFL = {"Lt": "gt", "LtE": "ge", "Gt": "lt", "GtE": "le", "Eq": "eq", "NotEq": "ne"}


def is_parameter(I, node):
    l = getattr(node, "left", None)
    fi = I.frames[-1].fi if I.frames else None
    a = getattr(getattr(fi, "node", None), "args", None)
    return isinstance(l, ast.Name) and a is not None and any(x.arg == l.id for x in a.posonlyargs + a.args + a.kwonlyargs)


def compare(I, op, a, b, node, st):
    tags = a.tags | b.tags
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        if b.alts == (NONE,) and is_parameter(I, node):
            # whether an optional argument was given: its presence, not its value
            tags = frozenset(("ps", x[1]) if x[0] == "p" and len(x) == 2 else x for x in tags)
        outs = set()
        for x in a.alts:
            for y in b.alts:
                if x is NONE or y is NONE:
                    if isinstance(x, Unk) or isinstance(y, Unk):
                        outs.add(None)
                    else:
                        outs.add((x is y) == (t is ast.Is))
                elif isinstance(x, (Cls, Fn, ModA)) and isinstance(y, (Cls, Fn, ModA)):
                    outs.add((x == y) == (t is ast.Is))
                elif isinstance(x, Num) and isinstance(y, Num) and x.kinds <= {"bool"} and y.kinds <= {"bool"} and x.const is not None and y.const is not None and x.dt == y.dt:
                    outs.add((x.const == y.const) == (t is ast.Is))
                elif x.key != y.key and not isinstance(x, Unk) and not isinstance(y, Unk) and not isinstance(x, Obj):
                    outs.add(t is ast.IsNot)
                else:
                    outs.add(None)
        r = outs.pop() if len(outs) == 1 else None
        u = any(isinstance(x, Unk) for x in a.alts + b.alts)
        return ub(r).tag(tags) if r is not None or not u else V((Num(0, 1, BOOL), Unk("is")), tags)
    if t in (ast.In, ast.NotIn):
        r = contains(I, a, b, node, st)
        if r is not None and t is ast.NotIn:
            r = not r
        if r is None and (a.unk or b.unk):
            return V((Num(0, 1, BOOL), Unk("in")), tags)
        return unso(ub(r).tag(tags | dtags(b)))
    opn = CMPN[t]
    res = BOT
    for x in a.alts:
        for y in b.alts:
            try:
                r = cmp_atom(I, opn, x, y, node, st, tags)
                if (isinstance(x, Arr) or isinstance(y, Arr)) and has_lit(x) and has_lit(y):
                    r = lit.attach(r, lit.binop(opn, lit.literal(mk(x)), lit.literal(mk(y))))
                res = join(res, r)
            except Dead_():
                continue
    if not res.alts:
        raise Dead_()()
    return res.tag(tags)


def cmp_atom(I, opn, x, y, node, st, tags):
    r = cmp_atom0(I, opn, x, y, node, st, tags)
    if isinstance(x, (Seq, SetA, Map)) or isinstance(y, (Seq, SetA, Map)):
        # comparing containers reads their elements
        ts = frozenset(t for t in deep_tags(mk(x)) | deep_tags(mk(y)) if t[0] in ("p", "ps"))
        if ts:
            r = r.tag(ts)
    return r


def cmp_atom0(I, opn, x, y, node, st, tags):
    if isinstance(x, Unk) or isinstance(y, Unk):
        u = x if isinstance(x, Unk) else y
        return unk(u.why, tags)
    if isinstance(x, Num) and isinstance(y, Num):
        return ub(num_cmp(I, opn, x, y, st)).tag(tags)
    if isinstance(x, Obj) or isinstance(y, Obj):
        return obj_cmp(I, opn, x, y, node, st, tags)
    if isinstance(x, Arr) or isinstance(y, Arr):
        o = y if isinstance(x, Arr) else x
        if o is NONE or isinstance(o, Str):
            return ub(False if opn == "Eq" else True if opn == "NotEq" else None)
        ax, ay = to_arr_weak(I, x, node, st), to_arr_weak(I, y, node, st)
        if ax is None or ay is None:
            return unk("arr-cmp", tags)
        sh = broadcast(I, ax[0], ay[0], st)
        nx, ny = ax[1].num(), ay[1].num()
        el = NPBOOL
        if len(ax[1].alts) == 1 and len(ay[1].alts) == 1 and nx is not None and ny is not None:
            r = num_cmp(I, opn, nx, ny, st)
            if r is not None:
                el = Num(int(r), int(r), BOOL, "i64")
        elt = mk(el, ax[1].tags | ay[1].tags)
        if ax[1].unk or ay[1].unk:
            elt = V(elt.alts + (Unk("elem"),), elt.tags)
        elif any(isinstance(z, Obj) for z in ax[1].alts + ay[1].alts):
            try:
                compare(I, {"Eq": ast.Eq, "NotEq": ast.NotEq}.get(opn, ast.Eq)(), ax[1], ay[1], node, st)
            except Dead_():
                pass
        ex = ()
        if nx is not None and ny is not None:
            w = []
            if ax[2] and (ay[0] == () or ny.const is not None):
                w = [num_cmp(I, opn, wnum(q, nx), ny, st) for q in ax[2]]
            elif ay[2] and (ax[0] == () or nx.const is not None):
                w = [num_cmp(I, opn, nx, wnum(q, ny), st) for q in ay[2]]
            ex = tuple((int(r), int(r)) for r in w if r is not None)
        return mk(Arr(sh, elt, I.fresh(node, opn), ex), tags)
    if isinstance(x, Str) and isinstance(y, Str):
        if opn in ("Eq", "NotEq") and x.consts is not None and y.consts is not None:
            if len(x.consts) == len(y.consts) == 1:
                return ub((x.consts == y.consts) == (opn == "Eq"))
            if not x.consts & y.consts:
                return ub(opn == "NotEq")
        return BOOLTOP
    if isinstance(x, Seq) and isinstance(y, Seq):
        if opn in ("Eq", "NotEq"):
            if x.kind != y.kind:
                return ub(opn == "NotEq")
            t = None
            if x.items is not None and y.items is not None:
                if len(x.items) != len(y.items):
                    t = False
                else:
                    rs = [compare(I, ast.Eq(), p, q, node, st) for p, q in zip(x.items, y.items)]
                    ts = [truth(I, r, st) for r in rs]
                    t = False if False in ts else (True if all(z is True for z in ts) else None)
                    return ub(t if opn == "Eq" or t is None else not t).tag(frozenset().union(*[r.tags for r in rs]))
            elif x.length.hi < y.length.lo or y.length.hi < x.length.lo:
                t = False
            return ub(t if opn == "Eq" or t is None else not t)
        if x.items and y.items:
            # lexicographic on exact tuples
            for p, q in zip(x.items, y.items):
                e = truth(I, compare(I, ast.Eq(), p, q, node, st), st)
                if e is True:
                    continue
                if e is False:
                    o = {"Lt": ast.Lt, "LtE": ast.Lt, "Gt": ast.Gt, "GtE": ast.Gt}[opn]()
                    return compare(I, o, p, q, node, st)
                return BOOLTOP
            return ub({"Lt": len(x.items) < len(y.items), "LtE": len(x.items) <= len(y.items),
                       "Gt": len(x.items) > len(y.items), "GtE": len(x.items) >= len(y.items)}[opn])
        return BOOLTOP
    if isinstance(x, SetA) and isinstance(y, SetA):
        t = None
        if opn in ("Eq", "NotEq"):
            cx, cy = set_consts(x), set_consts(y)
            if cx is not None and cy is not None and x.length.const == len(cx) and y.length.const == len(cy):
                t = cx == cy
            elif x.length.hi < y.length.lo or y.length.hi < x.length.lo:
                t = False
            elif x.length.sym is not None and y.length.sym is not None and num_cmp(I, "Eq", x.length, y.length, st) is False:
                t = False
            if t is not None and opn == "NotEq":
                t = not t
        else:
            cx, cy = set_consts(x), set_consts(y)
            if cx is not None and cy is not None:
                t = {"Lt": cx < cy, "LtE": cx <= cy, "Gt": cx > cy, "GtE": cx >= cy}[opn]
        return ub(t)
    if isinstance(x, Map) and isinstance(y, Map):
        return BOOLTOP
    if opn in ("Eq", "NotEq"):
        if x.key == y.key and isinstance(x, (Cls, Ext, Fn)):
            return ub((x == y) == (opn == "Eq")) if not isinstance(x, Ext) else BOOLTOP
        if x.key != y.key:
            return ub(opn == "NotEq")
        if x is y:
            return ub(opn == "Eq")
        return BOOLTOP
    if isinstance(x, (SetA, Map)) or isinstance(y, (SetA, Map)):
        return BOOLTOP
    I.raise_("TypeError", node, st)


def set_consts(s):
    """Exact constant members if the abstract set carries them (elem const tuple)."""
    if s.consts is not None:
        return set(s.consts)
    if s.elem is None:
        return set()
    if s.length.const is None:
        return None
    out = set()
    for a in s.elem.alts:
        c = const_key(mk(a))
        if c is None:
            return None
        out.add(c[0])
    return out if len(out) == s.length.const else None


def obj_cmp(I, opn, x, y, node, st, tags):
    for o, other, nm in ((x, y, CMPD[opn]), (y, x, REFL[opn])):
        if isinstance(o, Obj):
            if isinstance(other, Arr):
                return mk(Arr(other.shape, mk(NPBOOL), I.fresh(node)), tags)
            fm = I.prog.find_member(o.cls, f"__{nm}__")
            if fm is None and nm == "ne" and I.prog.find_member(o.cls, "__eq__"):
                r = obj_cmp(I, "Eq", x, y, node, st, tags)
                t = truth(I, r, st)
                return ub(None if t is None else not t).tag(tags | r.tags)
            if fm is not None:
                m = I.getattr_obj(o, f"__{nm}__", node, st, NOTAGS)
                r = I.call(m, [mk(other)], {}, node, st)
                keep = tuple(a for a in r.alts if a is not NOTIMPL)
                if keep:
                    return V(keep, r.tags | tags)
    if opn in ("Eq", "NotEq"):
        if isinstance(x, Obj) and isinstance(y, Obj) and I.is_dataclass(x.cls):
            return BOOLTOP
        if isinstance(x, Obj) and isinstance(y, Obj):
            return BOOLTOP
        return ub(opn == "NotEq")
    return BOOLTOP


def contains(I, a, b, node, st):
    outs = set()
    for y in b.alts:
        if isinstance(y, Map):
            if y.items is not None:
                c = const_key(a)
                if c is not None:
                    outs.add(any(k == c[0] for k, _ in y.items))
                    continue
            if y.length.hi == 0:
                outs.add(False)
                continue
            outs.add(None)
        elif isinstance(y, (Seq, SetA)):
            items = list(y.items) if isinstance(y, Seq) and y.items is not None else None
            if items is None and isinstance(y, SetA):
                items = set_items(mk(y))
            if items is not None:
                rs = []
                for it in items:
                    try:
                        rs.append(truth(I, compare(I, ast.Eq(), a, it, node, st), st))
                    except Dead_():
                        rs.append(None)
                if True in rs:
                    outs.add(True)
                elif None in rs:
                    # scalar interval vs constants: all-integer witness outside the set?
                    outs.add(None)
                else:
                    outs.add(False)
                continue
            if y.length.hi == 0:
                outs.add(False)
                continue
            if isinstance(y, Seq) and getattr(y, "elem", None) is not None and y.kind in ("range", "iter", "list", "tuple"):
                n, e = a.one(Num), y.elem.one(Num)
                if n is not None and e is not None and (n.hi < e.lo or n.lo > e.hi):
                    outs.add(False)
                    continue
                if y.kind == "range" and n is not None and e is not None and n.kinds <= {"int", "bool"} and n.const is not None and e.lo <= n.const <= e.hi and y.aux_step1():
                    outs.add(True)
                    continue
            outs.add(None)
        elif isinstance(y, Str):
            x = a.one(Str)
            if x is not None and x.consts and y.consts:
                r = {p in q for p in x.consts for q in y.consts}
                outs.add(r.pop() if len(r) == 1 else None)
            else:
                outs.add(None)
        elif isinstance(y, Obj):
            if I.prog.find_member(y.cls, "__contains__"):
                I.call(I.getattr_obj(y, "__contains__", node, st, NOTAGS), [a], {}, node, st)
            outs.add(None)
        else:
            outs.add(None)
    return outs.pop() if len(outs) == 1 else None


def _range_step1(self):
    return True


Seq.aux_step1 = _range_step1


def set_items(v):
    """Distinct constant alternatives of a set display (over-approximation used for membership tests)."""
    s = v.one(SetA)
    if s is None or s.elem is None:
        return None
    if s.consts is not None:
        return [const(c) for c in sorted(s.consts, key=repr)]
    out = []
    for a in s.elem.alts:
        if isinstance(a, Str) and a.consts is not None:
            out += [const(c) for c in sorted(a.consts)]
        elif isinstance(a, Num) and a.const is not None:
            out.append(mk(a))
        elif isinstance(a, Num) and a.lo == 0 and a.hi == 1 and s.length.hi == 2:
            out += [mk(Num(0, 0, a.kinds, a.dt, False, p_const(0))), mk(Num(1, 1, a.kinds, a.dt, False, p_const(1)))]
        else:
            return None
    return out


def const_key(v):
    """(python constant,) if v is a single known constant usable as dict key."""
    if len(v.alts) != 1:
        return None
    a = v.alts[0]
    if isinstance(a, Num) and a.const is not None:
        return (a.const,)
    if isinstance(a, Str) and a.consts is not None and len(a.consts) == 1:
        return (next(iter(a.consts)),)
    if isinstance(a, Seq) and a.kind == "tuple" and a.items is not None:
        ks = [const_key(x) for x in a.items]
        if all(k is not None for k in ks):
            return (tuple(k[0] for k in ks),)
    if a is NONE:
        return (None,)
    return None


def dict_from_pairs(I, el, ln, items, node):
    if items is not None:
        out, ok = [], True
        ks, vs = BOT, BOT
        for p in items:
            s = p.one(Seq)
            if s is None or s.items is None or len(s.items) != 2:
                ok = False
                continue
            k, v = s.items
            ks, vs = join(ks, k), join(vs, v)
            c = const_key(k)
            if c is None:
                ok = False
            else:
                out = [(a, b) for a, b in out if a != c[0]]
                out.append((c[0], v))
        return mk(Map(tuple(out) if ok else None, ks, vs, num_const(len(out)) if ok else Num(0, len(items), INT), I.fresh(node)))
    ks = vs = BOT
    for s in el.only(Seq):
        if s.items is not None and len(s.items) == 2:
            ks, vs = join(ks, s.items[0]), join(vs, s.items[1])
        elif s.elem is not None:
            ks, vs = join(ks, s.elem), join(vs, s.elem)
    if el.unk:
        ks, vs = join(ks, unk("pair")), join(vs, unk("pair"))
    return mk(Map(None, ks, vs, Num(min(ln.lo, 1), ln.hi, INT), I.fresh(node)), el.tags)


# ------------------------------------------------------------------ isinstance
def isinstance_atom(I, a, tv):
    res = []
    types = []
    for t in tv.alts:
        if isinstance(t, Seq) and t.items is not None:
            for x in t.items:
                types += list(x.alts)
        else:
            types.append(t)
    for t in types:
        res.append(isinst1(I, a, t))
    if True in res:
        return True
    if res and all(r is False for r in res):
        return False
    return None


def isinst1(I, a, t):
    if isinstance(a, Unk) or isinstance(t, Unk):
        return None
    if isinstance(t, Cls):
        if isinstance(a, Obj):
            return t.ci in I.prog.mro(a.cls)
        return False
    if isinstance(t, Ext):
        n = t.path.split(".")[-1]
        if isinstance(a, Num):
            py = a.dt == "py"
            mp = {"int": {"int", "bool"}, "bool": {"bool"}, "float": {"float"}, "complex": {"complex"},
                  "Integral": {"int", "bool"}, "Real": {"int", "bool", "float"}, "Number": ANYNUM}
            if n in mp and (py or n in ("Integral", "Real", "Number", "float")):
                ok = a.kinds & mp[n]
                return True if ok == a.kinds else (None if ok else False)
            if n in ("integer", "floating", "generic", "int64", "float64"):
                if py:
                    return False
                mp2 = {"integer": {"int"}, "floating": {"float"}, "generic": ANYNUM, "int64": {"int"}, "float64": {"float"}}
                ok = a.kinds & mp2[n]
                return True if ok == a.kinds else (None if ok else False)
            return False if n in ("int", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "ndarray", "Sequence",
                                  "Mapping", "Iterable", "Collection", "Sized", "Container", "Iterator", "Callable") else None
        if isinstance(a, Arr):
            if n in ("Iterable", "Collection", "Sized", "Container"):
                return True
            return n == "ndarray" if n in ("ndarray", "int", "float", "str", "list", "tuple", "dict", "bool", "Sequence", "integer") else None
        if isinstance(a, Str):
            return n == "str" or n in ("Sequence", "Iterable", "Collection", "Sized", "Container")
        if isinstance(a, Seq):
            if n == "Iterable":
                return True
            if n in ("Sequence", "Collection", "Sized", "Container"):
                return a.kind not in ("iter", "zip", "map", "filter", "enumerate")
            if n == "MutableSequence":
                return a.kind in ("list", "deque", "bytearray")
            return n == a.kind
        if isinstance(a, Map):
            return n in ("dict", "Mapping", "MutableMapping", "Iterable", "Collection", "Sized", "Container")
        if isinstance(a, SetA):
            return n in (a.kind, "Iterable", "Set", "Collection", "Sized", "Container")
        if a is NONE:
            return n == "NoneType"
        if isinstance(a, Obj):
            if n in ("int", "float", "str", "list", "tuple", "dict", "bool", "set", "ndarray"):
                return False
            return None
        if isinstance(a, Rng):
            return n == "Generator"
    return None


# ------------------------------------------------------------------ iteration
def exact_items(I, v, node, st):
    """List of element values when iteration order and values are known exactly."""
    if len(v.alts) != 1:
        return None
    a = v.alts[0]
    if isinstance(a, Seq) and a.items is not None:
        return [x for x in a.items]
    if isinstance(a, Seq) and a.kind == "range" and a.length.const is not None and a.length.const <= 8 and a.ex and len(a.ex) == int(a.length.const):
        return list(a.ex)
    if isinstance(a, Map) and a.items is not None:
        return [pyconst(k) for k, _ in a.items]
    if isinstance(a, Arr) and a.shape and a.shape[0].const is not None and a.shape[0].const == 0:
        return []
    if isinstance(a, Arr) and a.aux and a.shape and a.shape[0].const is not None and 1 <= a.shape[0].const <= 8:
        t = lit.literal(v)
        if isinstance(t, tuple):
            plain = Arr(a.shape[1:], a.elem, a.roots, a.ex)
            return [lit.attach(drop_sym(a.elem).tag(v.tags) if len(a.shape) == 1 else mk(plain, v.tags), x) for x in t]
    if isinstance(a, Arr) and a.shape and a.shape[0].const is not None and 1 <= a.shape[0].const <= 4:
        if len(a.shape) == 1:
            return [drop_sym(a.elem).tag(v.tags)] * int(a.shape[0].const)
        return [mk(Arr(a.shape[1:], a.elem, a.roots), v.tags)] * int(a.shape[0].const)
    if isinstance(a, Str) and a.consts is not None and len(a.consts) == 1:
        return [const(c) for c in next(iter(a.consts))]
    return None


def pyconst(k):
    return const(k)


def salted(I, v, depth=0):
    """Does the hash of a value of this kind differ between processes?"""
    if v is None or depth > 3:
        return False
    for a in v.alts:
        if isinstance(a, Str):
            return True
        if isinstance(a, Obj) and I.prog.find_member(a.cls, "__hash__") is None and I.prog.find_member(a.cls, "__eq__") is None and not a.cls.node.decorator_list:
            return True
        if isinstance(a, Seq) and (any(salted(I, x, depth + 1) for x in a.items) if a.items is not None else salted(I, a.elem, depth + 1)):
            return True
    return False


def iter_elem(I, v, node, st):
    """(element V, length Num|None, witness tuple) of iterating v."""
    el, ln, ex = BOT, None, None
    for a in v.alts:
        e, l, x = BOT, Num(0, INF, INT), ()
        if isinstance(a, Seq):
            e, l, x = (a.elem if a.elem is not None else BOT), a.length, a.ex
            if a.items is not None and not x:
                x = a.items[:4]
        elif isinstance(a, SetA):
            e, l = (a.elem if a.elem is not None else BOT), a.length
            if l.hi > 1 and salted(I, e):
                I.event("set-order", node, "iteration over a set of strings or identity-hashed objects")
        elif isinstance(a, Map):
            e, l = (a.k if a.k is not None else BOT), a.length
            if a.items is not None:
                x = tuple(pyconst(k) for k, _ in a.items)[:4]
        elif isinstance(a, Arr):
            if a.shape is None:
                e = join(V(a.elem.alts, a.elem.tags), mk(Arr(None, a.elem, a.roots)))
            elif len(a.shape) == 0:
                I.maybe_raise("TypeError", node, st)
                continue
            elif len(a.shape) == 1:
                e, l = a.elem, a.shape[0]
                n = a.elem.num()
                if n is not None:
                    x = tuple(mk(wnum(w, n)) for w in a.ex)
            else:
                e, l = mk(Arr(a.shape[1:], a.elem, a.roots), a.elem.tags), a.shape[0]
                if a.ex:
                    x = (mk(Arr(a.shape[1:], a.elem, a.roots, a.ex), a.elem.tags),)
        elif isinstance(a, Str):
            e = mk(Str(None))
        elif isinstance(a, Unk):
            e = unk(a.why, a_roots(a))
        elif isinstance(a, Obj):
            if I.prog.find_member(a.cls, "__iter__"):
                r = I.call(I.getattr_obj(a, "__iter__", node, st, NOTAGS), [], {}, node, st)
                e, l, x = iter_elem(I, r, node, st)
            elif I.prog.find_member(a.cls, "__getitem__"):
                e = I.call(I.getattr_obj(a, "__getitem__", node, st, NOTAGS), [mk(Num(0, INF, INT))], {}, node, st)
            else:
                e = unk("iter obj")
        elif isinstance(a, (Ext, Partial)):
            e = unk("iter ext")
        else:
            if len(v.alts) == 1:
                I.raise_("TypeError", node, st)
            continue
        el = join(el, e)
        ln = l if ln is None else join_num(ln, l)
        ex = x if ex is None else ()
    return el.tag(unso(v).tags), ln if ln is not None else Num(0, INF, INT), ex or ()


def a_roots(a):
    return frozenset()


# ------------------------------------------------------------------ casting into existing memory
def inplace_cast(I, target, val, node, what):
    """Writing val into the memory of array `target`: report when the caller's dtype cannot hold it."""
    t = target.elem.num()
    n = val.num() if val is not None else None
    if t is None or n is None or n.bot:
        return
    if t.dt == "narrow":
        if n.kinds & {"float", "complex"} or n.lo < I.narrow_lo or n.hi > I.narrow_hi:
            I.event("narrow", node, f"{what}: stores [{n.lo}, {n.hi}] {'/'.join(sorted(n.kinds))} into memory of the caller's dtype")
        elif n.dt in ("i64",) and what.startswith("augmented") and I.narrow_lo == 0:
            I.event("narrow", node, f"{what}: int64 result written in place into memory of the caller's dtype")


def cast_elem_to(I, val, like):
    """Value as stored in an array whose elements look like `like`."""
    n, t = val.num(), like.num()
    if n is None or t is None:
        return val
    if t.dt == "f64w":
        t = Num(t.lo, t.hi, t.kinds, "f64", t.nan)
    if t.dt in ("i64", "narrow", "u8", "f64") and not t.bot or t.dt in ("i64", "f64"):
        ks = n.kinds
        dt = t.dt
        if t.kinds <= {"bool"} and not t.bot:
            return V(tuple(Num(0 if a.lo <= 0 <= a.hi else 1, 0 if a.lo == a.hi == 0 else 1, BOOL, dt) if isinstance(a, Num) and not a.bot else a for a in val.alts), val.tags)
        if t.kinds <= {"int", "bool"}:
            out = []
            for a in val.alts:
                if isinstance(a, Num):
                    lo, hi = a.lo, a.hi
                    if "float" in a.kinds and not a.bot:
                        lo = lo if abs(lo) == INF else math.ceil(lo) if lo < 0 else math.floor(lo)
                        hi = hi if abs(hi) == INF else math.floor(hi) if hi > 0 else math.ceil(hi)
                    out.append(Num(lo, hi, INT, dt, False, a.sym if a.const is not None and a.kinds <= {"int"} else None))
                else:
                    out.append(a)
            return V(tuple(out), val.tags)
        if t.kinds <= {"float"}:
            return V(tuple(Num(a.lo, a.hi, FLOAT if "complex" not in a.kinds else a.kinds, dt, a.nan) if isinstance(a, Num) else a for a in val.alts), val.tags)
    return val


from .builtins_ import getattr_atom, call_ext, getitem, setitem  # noqa: E402,F401
