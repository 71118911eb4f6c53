"""Abstract values: a product of intervals, kinds/dtypes, symbolic sizes, aliasing roots and dependency tags."""
import math

INF = math.inf

# ---------------------------------------------------------------- symbolic polynomials
# Poly: frozenset of (monomial, coeff); monomial: tuple of atoms sorted by repr; atoms: hashable


def p_const(c):
    return frozenset() if c == 0 else frozenset([((), c)])


def p_sym(a):
    return frozenset([((a,), 1)])


def _norm(d):
    return frozenset((m, c) for m, c in d.items() if c != 0)


def p_add(a, b, s=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + s * c
    return _norm(d)


def p_mul(a, b):
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            m = tuple(sorted(m1 + m2, key=repr))
            d[m] = d.get(m, 0) + c1 * c2
    if len(d) > 40:
        return None
    return _norm(d)


def p_isconst(p):
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p
        if m == ():
            return c
    return None


def p_divexact(p, q):
    """p / q when q is a single monomial dividing every term (or p == c*q); else None."""
    if not q:
        return None
    if p == q:
        return p_const(1)
    if not p:
        return p_const(0)
    if len(q) == 1:
        (qm, qc), = q
        out = {}
        for m, c in p:
            rest = list(m)
            for a in qm:
                if a in rest:
                    rest.remove(a)
                else:
                    return None
            if c % qc:
                return None
            out[tuple(rest)] = out.get(tuple(rest), 0) + c // qc
        return _norm(out)
    # q has several terms: try p = r*q for monomial r taken from the leading terms
    qd = sorted(q, key=lambda t: repr(t[0]))
    for m, c in p:
        for qm, qc in qd:
            rest = list(m)
            ok = True
            for a in qm:
                if a in rest:
                    rest.remove(a)
                else:
                    ok = False
                    break
            if not ok or c % qc:
                continue
            r = frozenset([(tuple(rest), c // qc)])
            if p_mul(r, q) == p:
                return r
    return None


def p_atoms(p):
    s = set()
    for m, _ in p:
        s.update(m)
    return s


def p_show(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p, key=lambda t: repr(t[0])):
        ms = "*".join(a_show(a) for a in m)
        out.append(str(c) if not ms else (ms if c == 1 else f"{c}*{ms}"))
    return " + ".join(out)


def a_show(a):
    if isinstance(a, tuple) and a and isinstance(a[0], str):
        return f"({a[0]} " + " ".join(p_show(x) if isinstance(x, frozenset) else str(x) for x in a[1:]) + ")"
    return str(a)


# ---------------------------------------------------------------- atoms
class Dead(Exception):
    """No normal continuation."""


class Budget(Exception):
    """Step budget of one abstract run exhausted."""


class Atom:
    __slots__ = ()


class Num(Atom):
    """Scalar number. kinds: subset of {'bool','int','float','complex'}; dt: 'py','i64','f64','narrow','u8','obj'."""
    __slots__ = ("lo", "hi", "kinds", "dt", "nan", "sym")
    key = "num"

    def __init__(self, lo, hi, kinds, dt="py", nan=False, sym=None):
        self.lo, self.hi, self.kinds, self.dt, self.nan, self.sym = lo, hi, kinds, dt, nan, sym

    @property
    def bot(self):
        return self.lo > self.hi

    @property
    def const(self):
        return self.lo if self.lo == self.hi and not self.nan and abs(self.lo) != INF else None

    def tup(self):
        return (self.lo, self.hi, self.kinds, self.dt, self.nan, self.sym)

    def __eq__(self, o):
        return isinstance(o, Num) and self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())

    def __repr__(self):
        k = "|".join(sorted(self.kinds))
        s = f"{k}[{self.lo},{self.hi}]"
        if self.dt != "py":
            s += ":" + self.dt
        if self.nan:
            s += "?nan"
        if self.sym is not None and self.const is None:
            s += "=" + p_show(self.sym)
        return s


INT = frozenset(["int"])
FLOAT = frozenset(["float"])
BOOL = frozenset(["bool"])
CPLX = frozenset(["complex"])
ANYNUM = frozenset(["bool", "int", "float", "complex"])
REALNUM = frozenset(["bool", "int", "float"])

DT_ORDER = ["u8", "narrow", "i64", "obj"]


class Arr(Atom):
    """ndarray. shape: tuple[Num]|None; elem: V; ex: tuple of (lo,hi) witnesses that some element lies in;
    aux: frozenset of (key, value) facts, e.g. ('sum', (lo,hi))."""
    __slots__ = ("shape", "elem", "roots", "ex", "aux")
    key = "arr"

    def __init__(self, shape, elem, roots, ex=(), aux=frozenset()):
        self.shape, self.elem, self.roots, self.ex, self.aux = shape, elem, roots, ex, aux

    def tup(self):
        return (self.shape, self.elem, self.roots, self.ex, self.aux)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.tup() == o.tup()

    def __hash__(self):
        return hash(("arr", self.shape, self.roots))

    def __repr__(self):
        sh = "?" if self.shape is None else "(" + ",".join(map(dim_show, self.shape)) + ")"
        return f"Arr{sh}<{self.elem!r}>"


def dim_show(n):
    if n.const is not None:
        return str(n.const)
    if n.sym is not None:
        return p_show(n.sym)
    return f"[{n.lo},{n.hi}]"


class Seq(Atom):
    """list / tuple / deque / lazy iterator ('iter'). items: exact tuple of V or None; elem: V or None (bottom);
    ex: values at least one element is known to be described by."""
    __slots__ = ("kind", "items", "elem", "length", "roots", "ex")

    def __init__(self, kind, items, elem, length, roots, ex=()):
        self.kind, self.items, self.elem, self.length, self.roots, self.ex = kind, items, elem, length, roots, ex

    @property
    def key(self):
        return self.kind

    def tup(self):
        return (self.kind, self.items, self.elem, self.length, self.roots, self.ex)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.tup() == o.tup()

    def __hash__(self):
        return hash((self.kind, self.length, self.roots))

    def __repr__(self):
        if self.items is not None:
            return f"{self.kind}{list(self.items)!r}"
        return f"{self.kind}<{self.elem!r} x {self.length!r}>"


class Map(Atom):
    """dict. items: tuple of (const key, V) when all keys are known constants, else None."""
    __slots__ = ("items", "k", "v", "length", "roots")
    key = "dict"

    def __init__(self, items, k, v, length, roots):
        self.items, self.k, self.v, self.length, self.roots = items, k, v, length, roots

    def tup(self):
        return (self.items, self.k, self.v, self.length, self.roots)

    def __eq__(self, o):
        return isinstance(o, Map) and self.tup() == o.tup()

    def __hash__(self):
        return hash(("dict", self.roots))

    def __repr__(self):
        if self.items is not None:
            return "dict{" + ", ".join(f"{k!r}:{v!r}" for k, v in self.items) + "}"
        return f"dict<{self.k!r}:{self.v!r}>"


class SetA(Atom):
    __slots__ = ("kind", "elem", "length", "roots", "consts")

    def __init__(self, kind, elem, length, roots, consts=None):
        self.kind, self.elem, self.length, self.roots = kind, elem, length, roots
        self.consts = consts        # the exact members, when all of them are known constants

    @property
    def key(self):
        return self.kind

    def tup(self):
        return (self.kind, self.elem, self.length, self.roots, self.consts)

    def __eq__(self, o):
        return isinstance(o, SetA) and self.tup() == o.tup()

    def __hash__(self):
        return hash((self.kind, self.length, self.roots))

    def __repr__(self):
        return f"{self.kind}<{self.elem!r}>"


class Str(Atom):
    __slots__ = ("consts",)
    key = "str"

    def __init__(self, consts=None):
        self.consts = consts

    def __eq__(self, o):
        return isinstance(o, Str) and self.consts == o.consts

    def __hash__(self):
        return hash(("str", self.consts))

    def __repr__(self):
        return "str" if self.consts is None else "str" + repr(sorted(self.consts))


class _Single(Atom):
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, _Single) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


NONE = _Single("None")
ELLIPSIS = _Single("Ellipsis")
NOTIMPL = _Single("NotImplemented")


class Unk(Atom):
    """Value the model knows nothing about."""
    __slots__ = ("why", "roots")
    key = "unk"

    def __init__(self, why, roots=frozenset()):
        self.why, self.roots = why, roots

    def __eq__(self, o):
        return isinstance(o, Unk) and self.why == o.why and self.roots == o.roots

    def __hash__(self):
        return hash(("unk", self.why))

    def __repr__(self):
        return f"?{self.why}"


class Obj(Atom):
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    @property
    def key(self):
        return ("obj", self.oid)

    def __eq__(self, o):
        return isinstance(o, Obj) and self.oid == o.oid

    def __hash__(self):
        return hash(("obj", self.oid))

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}>"


class Fn(Atom):
    """Callable defined in komm. wraps: outermost-first list of special markers."""
    __slots__ = ("fi", "fid", "self_v", "cached")

    def __init__(self, fi, fid=None, self_v=None, cached=False):
        self.fi, self.fid, self.self_v, self.cached = fi, fid, self_v, cached

    @property
    def key(self):
        return ("fn", id(self.fi.node), self.fid, self.self_v)

    def __eq__(self, o):
        return isinstance(o, Fn) and self.key == o.key and self.cached == o.cached

    def __hash__(self):
        return hash(("fn", id(self.fi.node), self.fid))

    def __repr__(self):
        return f"<fn {self.fi.qual}>"


class Cls(Atom):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    @property
    def key(self):
        return ("cls", self.ci.qual)

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(("cls", self.ci.qual))

    def __repr__(self):
        return f"<class {self.ci.name}>"


class Super(Atom):
    __slots__ = ("self_v", "after")

    def __init__(self, self_v, after):
        self.self_v, self.after = self_v, after

    @property
    def key(self):
        return ("super", self.after.qual)

    def __eq__(self, o):
        return isinstance(o, Super) and o.key == self.key and o.self_v == self.self_v

    def __hash__(self):
        return hash(self.key)


class Ext(Atom):
    """External (library) object by dotted path, optionally bound to a receiver."""
    __slots__ = ("path", "recv")

    def __init__(self, path, recv=None):
        self.path, self.recv = path, recv

    @property
    def key(self):
        return ("ext", self.path, self.recv)

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path and o.recv == self.recv

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return f"<ext {self.path}>"


class ModA(Atom):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    @property
    def key(self):
        return ("mod", self.m.name)

    def __eq__(self, o):
        return isinstance(o, ModA) and o.m is self.m

    def __hash__(self):
        return hash(("mod", self.m.name))


class Partial(Atom):
    __slots__ = ("func", "args", "kwargs", "site", "style")

    def __init__(self, func, args, kwargs, site, style="partial"):
        self.func, self.args, self.kwargs, self.site, self.style = func, args, kwargs, site, style

    @property
    def key(self):
        return ("partial", self.style, self.site, self.func)

    def __eq__(self, o):
        return isinstance(o, Partial) and o.key == self.key and o.args == self.args and o.kwargs == self.kwargs

    def __hash__(self):
        return hash(("partial", self.site))


class SliceA(Atom):
    __slots__ = ("lo", "hi", "step")
    key = "slice"

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceA) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash("slice")


class Rng(Atom):
    """numpy Generator; src names where it came from."""
    __slots__ = ("src",)

    def __init__(self, src):
        self.src = src

    @property
    def key(self):
        return ("rng", self.src)

    def __eq__(self, o):
        return isinstance(o, Rng) and o.src == self.src

    def __hash__(self):
        return hash(("rng", self.src))

    def __repr__(self):
        return f"<rng {self.src}>"


# ---------------------------------------------------------------- V
NOTAGS = frozenset()
SZ = frozenset([("sz",)])      # value computed from the size of an array


class V:
    __slots__ = ("alts", "tags")

    def __init__(self, alts, tags=NOTAGS):
        self.alts = alts    # tuple of Atoms with distinct keys
        self.tags = tags

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, V) or self.tags != o.tags or len(self.alts) != len(o.alts):
            return False
        if self.alts == o.alts:
            return True
        d = {a.key: a for a in o.alts}
        return all(d.get(a.key) == a for a in self.alts)

    def __hash__(self):
        return hash((len(self.alts), frozenset(a.key for a in self.alts)))

    def __repr__(self):
        s = " | ".join(map(repr, self.alts)) or "⊥"
        return s

    def only(self, cls):
        return [a for a in self.alts if isinstance(a, cls)]

    def one(self, cls):
        if len(self.alts) == 1 and isinstance(self.alts[0], cls):
            return self.alts[0]
        return None

    def num(self):
        for a in self.alts:
            if isinstance(a, Num):
                return a
        return None

    @property
    def unk(self):
        return any(isinstance(a, Unk) for a in self.alts)

    def tag(self, tags):
        if not tags or tags <= self.tags:
            return self
        return V(self.alts, self.tags | tags)


BOT = V(())


def mk(atom, tags=NOTAGS):
    return V((atom,), tags)


def const(c, tags=NOTAGS):
    if c is None:
        return V((NONE,), tags)
    if c is Ellipsis:
        return V((ELLIPSIS,), tags)
    if isinstance(c, bool):
        return V((Num(int(c), int(c), BOOL, sym=p_const(int(c))),), tags)
    if isinstance(c, int):
        return V((Num(c, c, INT, sym=p_const(c)),), tags)
    if isinstance(c, float):
        if math.isnan(c):
            return V((Num(INF, -INF, FLOAT, nan=True),), tags)
        return V((Num(c, c, FLOAT, sym=p_const(int(c)) if abs(c) < 2**53 and c == int(c) else None),), tags)
    if isinstance(c, complex):
        return V((Num(-INF, INF, CPLX),), tags)
    if isinstance(c, str):
        return V((Str(frozenset([c])),), tags)
    if isinstance(c, tuple):
        items = tuple(const(x) for x in c)
        return V((Seq("tuple", items, join_all(items), num_const(len(c)), frozenset()),), tags)
    return V((Unk("const"),), tags)


def num_const(c):
    return Num(c, c, INT, sym=p_const(c))


def num_sym(name, lo=0, hi=INF):
    return Num(lo, hi, INT, sym=p_sym(name))


def num_iv(lo, hi, kinds=INT, dt="py"):
    return Num(lo, hi, kinds, dt, sym=p_const(lo) if lo == hi and isinstance(lo, int) else None)


TRUE, FALSE = const(True), const(False)
BOOLTOP = mk(Num(0, 1, BOOL))
NPBOOL = Num(0, 1, BOOL, "i64")


def unk(why, tags=NOTAGS, roots=frozenset()):
    return V((Unk(why, roots),), tags)


def dt_join(a, b):
    if a == b:
        return a
    if "obj" in (a, b):
        return "obj"
    if a == "py":
        return b
    if b == "py":
        return a
    if "f64" in (a, b) or "f64w" in (a, b):
        return "f64"
    if "i64" in (a, b):
        return "i64"
    return "narrow"


def join_num(a, b):
    if a.bot and not a.nan:
        return Num(b.lo, b.hi, a.kinds | b.kinds, b.dt if a.dt == "py" else (a.dt if b.dt == "py" else dt_meet(a.dt, b.dt)), b.nan, b.sym) if a.kinds - b.kinds or a.dt != b.dt else b
    if b.bot and not b.nan:
        return join_num(b, a)
    # joins keep the *narrower* dtype: a may-narrow value is treated as narrow
    dt = a.dt if a.dt == b.dt else dt_meet(a.dt, b.dt)
    return Num(min(a.lo, b.lo), max(a.hi, b.hi), a.kinds | b.kinds, dt, a.nan or b.nan,
               a.sym if a.sym == b.sym else None)


def dt_meet(a, b):
    a, b = (a, b) if a == b else ("f64" if a == "f64w" else a, "f64" if b == "f64w" else b)
    for d in ("narrow", "u8", "obj", "i64", "f64", "py"):
        if d in (a, b):
            return d
    return a


def join_shape(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple(join_num(x, y) for x, y in zip(a, b))


def join_aux(a, b):
    """facts common to both arrays; 'shapes' collects the shapes of the joined paths: {(shape, size-dependent path?)}"""
    aux = a.aux & b.aux
    if a.shape != b.shape or any(k == "shapes" for k, _ in a.aux | b.aux):
        cand = set()
        for x in (a, b):
            cand |= dict(x.aux).get("shapes", frozenset([(x.shape, True)]))
        aux = frozenset(x for x in aux if x[0] != "shapes")
        if len(cand) <= 6:
            aux = aux | {("shapes", frozenset(cand))}
    return aux


def join_atom(a, b):
    if a == b:
        return a
    if isinstance(a, Num):
        return join_num(a, b)
    if isinstance(a, Arr):
        return Arr(join_shape(a.shape, b.shape), join(a.elem, b.elem), a.roots | b.roots,
                   a.ex if a.ex == b.ex else (), join_aux(a, b))
    if isinstance(a, Seq):
        items = None
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            items = tuple(join(x, y) for x, y in zip(a.items, b.items))
        return Seq(a.kind, items, jopt(a.elem, b.elem), join_num(a.length, b.length), a.roots | b.roots,
                   a.ex if a.ex == b.ex else ())
    if isinstance(a, Map):
        items = None
        if a.items is not None and b.items is not None:
            da, db = dict(a.items), dict(b.items)
            if set(da) == set(db):
                items = tuple((k, join(da[k], db[k])) for k in da)
        return Map(items, jopt(a.k, b.k), jopt(a.v, b.v), join_num(a.length, b.length), a.roots | b.roots)
    if isinstance(a, SetA):
        return SetA(a.kind, jopt(a.elem, b.elem), join_num(a.length, b.length), a.roots | b.roots, a.consts if a.consts == b.consts else None)
    if isinstance(a, Str):
        if a.consts is None or b.consts is None or len(a.consts | b.consts) > 12:
            return Str(None)
        return Str(a.consts | b.consts)
    if isinstance(a, Unk):
        return Unk(a.why, a.roots | b.roots)
    if isinstance(a, SliceA):
        return SliceA(jopt(a.lo, b.lo), jopt(a.hi, b.hi), jopt(a.step, b.step))
    if isinstance(a, Partial):
        if len(a.args) == len(b.args) and [k for k, _ in a.kwargs] == [k for k, _ in b.kwargs]:
            return Partial(a.func, tuple(join(x, y) for x, y in zip(a.args, b.args)),
                           tuple((k, join(x, y)) for (k, x), (_, y) in zip(a.kwargs, b.kwargs)), a.site, a.style)
        return a
    if isinstance(a, Super):
        return Super(join(a.self_v, b.self_v), a.after)
    if isinstance(a, Fn):
        return a
    return a


def jopt(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return join(a, b)


MAXALTS = 10


def join(a, b):
    if a is b or a == b:
        return a
    if not a.alts:
        return b.tag(a.tags)
    if not b.alts:
        return a.tag(b.tags)
    tags = a.tags | b.tags
    if a.alts == b.alts:
        return V(a.alts, tags)
    d = {x.key: x for x in a.alts}
    for y in b.alts:
        k = y.key
        d[k] = join_atom(d[k], y) if k in d else y
    if len(d) > MAXALTS + 6:
        return V((Unk("many-alternatives"),), tags)
    return V(tuple(d.values()), tags)


def join_all(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


THRESH_HI = (0, 1, 2)
THRESH_LO = (2, 1, 0, -1)


def widen_num(a, b):
    """a: previous, b: new (already a join superset)."""
    if a.bot:
        return b
    lo, hi = b.lo, b.hi
    if b.lo < a.lo:
        lo = next((t for t in THRESH_LO if t <= b.lo), -INF)
    if b.hi > a.hi:
        hi = next((t for t in THRESH_HI if t >= b.hi), INF)
    sym = b.sym if a.sym == b.sym else None
    return Num(lo, hi, b.kinds, b.dt, b.nan, sym)


def widen(a, b, depth=0):
    if a is b or a == b:
        return b
    if depth > 6:
        return unk("deep", b.tags)
    out = []
    d = {x.key: x for x in a.alts}
    for y in b.alts:
        x = d.get(y.key)
        if x is None or x == y:
            out.append(y)
        elif isinstance(y, Num):
            out.append(widen_num(x, y))
        elif isinstance(y, Arr):
            sh = None
            if x.shape is not None and y.shape is not None and len(x.shape) == len(y.shape):
                sh = tuple(widen_num(p, q) for p, q in zip(x.shape, y.shape))
            out.append(Arr(sh, widen(x.elem, y.elem, depth + 1), y.roots, y.ex if x.ex == y.ex else (), x.aux & y.aux))
        elif isinstance(y, Seq):
            items = None
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                items = tuple(widen(p, q, depth + 1) for p, q in zip(x.items, y.items))
            el = y.elem if x.elem is None or y.elem is None else widen(x.elem, y.elem, depth + 1)
            out.append(Seq(y.kind, items, el, widen_num(x.length, y.length), y.roots, y.ex if x.ex == y.ex else ()))
        elif isinstance(y, Map):
            items = y.items
            if x.items is not None and y.items is not None and set(dict(x.items)) == set(dict(y.items)):
                dx = dict(x.items)
                items = tuple((k, widen(dx[k], v, depth + 1)) for k, v in y.items)
            elif x.items != y.items:
                items = None
            kk = y.k if x.k is None or y.k is None else widen(x.k, y.k, depth + 1)
            vv = y.v if x.v is None or y.v is None else widen(x.v, y.v, depth + 1)
            out.append(Map(items, kk, vv, widen_num(x.length, y.length), y.roots))
        elif isinstance(y, SetA):
            el = y.elem if x.elem is None or y.elem is None else widen(x.elem, y.elem, depth + 1)
            out.append(SetA(y.kind, el, widen_num(x.length, y.length), y.roots, y.consts if x.consts == y.consts else None))
        else:
            out.append(y)
    return V(tuple(out), b.tags)


# ---------------------------------------------------------------- roots helpers
def roots_of(v, depth=0, deep=False):
    """Memory roots a value may alias (shallow), optionally those of contained values too."""
    out = set()
    for a in v.alts:
        r = getattr(a, "roots", None)
        if r:
            out |= r
        if deep and depth < 5:
            if isinstance(a, Seq):
                for x in (a.items or ()):
                    out |= roots_of(x, depth + 1, True)
                if a.elem is not None:
                    out |= roots_of(a.elem, depth + 1, True)
            elif isinstance(a, Map):
                for x in (a.k, a.v):
                    if x is not None:
                        out |= roots_of(x, depth + 1, True)
                for _, x in (a.items or ()):
                    out |= roots_of(x, depth + 1, True)
            elif isinstance(a, SetA) and a.elem is not None:
                out |= roots_of(a.elem, depth + 1, True)
            elif isinstance(a, Arr):
                out |= roots_of(a.elem, depth + 1, True)
    return frozenset(out)


def map_atoms(v, fn, depth=0):
    """Rebuild v applying fn to every (nested) atom bottom-up; fn(atom)->atom."""
    if depth > 6:
        return v
    out = []
    changed = False
    for a in v.alts:
        b = a
        if isinstance(a, Seq):
            items = a.items
            if items is not None:
                ni = tuple(map_atoms(x, fn, depth + 1) for x in items)
                if any(x is not y for x, y in zip(ni, items)):
                    items = ni
            el = a.elem if a.elem is None else map_atoms(a.elem, fn, depth + 1)
            if items is not a.items or el is not a.elem:
                b = Seq(a.kind, items, el, a.length, a.roots, a.ex)
        elif isinstance(a, Map):
            items = a.items
            if items is not None:
                ni = tuple((k, map_atoms(x, fn, depth + 1)) for k, x in items)
                if any(x[1] is not y[1] for x, y in zip(ni, items)):
                    items = ni
            k = a.k if a.k is None else map_atoms(a.k, fn, depth + 1)
            vv = a.v if a.v is None else map_atoms(a.v, fn, depth + 1)
            if items is not a.items or k is not a.k or vv is not a.v:
                b = Map(items, k, vv, a.length, a.roots)
        elif isinstance(a, SetA):
            el = a.elem if a.elem is None else map_atoms(a.elem, fn, depth + 1)
            if el is not a.elem:
                b = SetA(a.kind, el, a.length, a.roots, a.consts)
        elif isinstance(a, Arr):
            el = map_atoms(a.elem, fn, depth + 1)
            if el is not a.elem:
                b = Arr(a.shape, el, a.roots, a.ex, a.aux)
        elif isinstance(a, Partial):
            na = tuple(map_atoms(x, fn, depth + 1) for x in a.args)
            if any(x is not y for x, y in zip(na, a.args)):
                b = Partial(a.func, na, a.kwargs, a.site, a.style)
        c = fn(b)
        if c is not a:
            changed = True
        out.append(c)
    return V(tuple(out), v.tags) if changed else v


def with_roots(a, roots):
    if isinstance(a, Arr):
        return Arr(a.shape, a.elem, roots, a.ex, a.aux)
    if isinstance(a, Seq):
        return Seq(a.kind, a.items, a.elem, a.length, roots, a.ex)
    if isinstance(a, Map):
        return Map(a.items, a.k, a.v, a.length, roots)
    if isinstance(a, SetA):
        return SetA(a.kind, a.elem, a.length, roots, a.consts)
    if isinstance(a, Unk):
        return Unk(a.why, roots)
    return a


MUTABLE = ("arr", "list", "deque", "dict", "set", "unk", "iter", "bytearray")


def add_roots(v, roots):
    """Add roots to every mutable atom reachable inside v."""
    def f(a):
        if isinstance(a, (Arr, Seq, Map, SetA, Unk)) and a.key in MUTABLE:
            if roots <= a.roots:
                return a
            return with_roots(a, a.roots | roots)
        return a
    return map_atoms(v, f)


def unso(v, depth=0):
    """v without the marks that say its order is the iteration order of a set."""
    t = v.tags
    if any(x[0] == "so" for x in t):
        t = frozenset(x for x in t if x[0] != "so")
    alts = v.alts
    if depth < 3 and any(isinstance(a, (Arr, SetA)) and a.elem is not None and any(x[0] == "so" for x in deep_tags(a.elem)) for a in alts):
        alts = tuple(Arr(a.shape, unso(a.elem, depth + 1), a.roots, a.ex, a.aux) if isinstance(a, Arr) else SetA(a.kind, unso(a.elem, depth + 1), a.length, a.roots, a.consts) if isinstance(a, SetA) and a.elem is not None else a for a in alts)
    return v if t is v.tags and alts is v.alts else V(alts, t)


def set_order(v):
    """v iterates a set of two or more elements of which the order is not known."""
    return any(isinstance(a, SetA) and a.length.hi > 1 for a in v.alts) or any(x[0] == "so" for x in v.tags)


def deep_tags(v, depth=0):
    t = set(v.tags)
    if depth < 4:
        for a in v.alts:
            if isinstance(a, Seq):
                for x in (a.items or ()):
                    t |= deep_tags(x, depth + 1)
                if a.elem is not None:
                    t |= deep_tags(a.elem, depth + 1)
            elif isinstance(a, Map):
                for x in (a.k, a.v):
                    if x is not None:
                        t |= deep_tags(x, depth + 1)
                for _, x in (a.items or ()):
                    t |= deep_tags(x, depth + 1)
            elif isinstance(a, SetA) and a.elem is not None:
                t |= deep_tags(a.elem, depth + 1)
            elif isinstance(a, Arr):
                t |= deep_tags(a.elem, depth + 1)
            elif isinstance(a, SliceA):
                for x in (a.lo, a.hi, a.step):
                    if x is not None:
                        t |= deep_tags(x, depth + 1)
    return frozenset(t)
