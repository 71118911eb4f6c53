"""C15: equality, hashing and memoisation agree on what an object is."""
from .common import *
from .c20 import ctor_sig, dataclass_decorated, _last
from ..api import O, C as K, S, I as INT_
from ..model import ClassInfo, Program

TITLE = "Equality, hashing and memoisation agree on what an object is"
RULE = ("(a) Two objects of every class with its own equality are built in one abstract state from distinctly named arguments; the comparison's "
        "result must depend on the same constructor parameters of both operands and on all of them, and what hash() depends on must be part of what "
        "== depends on.  (b) At argument regions that decide the comparison (one parameter differs, none differs, an unrelated operand) the abstract "
        "result of == and != must not be the opposite of the documented one, and the comparison must not fail on every path; an object equal to an "
        "integer must hash as that integer.  (c) A class that is not hashable (equality without hash, dataclass with generated equality) must not have "
        "functools.cache members anywhere along its resolution order; a memoised function must not be handed an unhashable argument; a slotted class "
        "must not have cached properties; a dataclass must not exclude a constructor parameter from its generated equality.")
ASSUME = ENGINE_ASSUMPTIONS + ["a comparison the analysis cannot decide (True or False both possible) is recorded as undecided, never reported",
                               "random generators are not part of an object's value"]
MIN = {"classes": 30, "comparisons": 20, "memoised members": 20}

BP, FRAC, FIELD, INTG = "BinaryPolynomial", "BinaryPolynomialFraction", "FiniteBifield", "Integer"
P19, P25 = 0b10011, 0b11001


def poly(v):
    return O(BP, 0, value=K(v))


def frac(n, d):
    return O(FRAC, 1, numerator=K(n), denominator=K(d))


def fld(d, m=None):
    return O(FIELD, 0, degree=K(d)) if m is None else O(FIELD, 1, degree=K(d), modulus=K(m))


def elem(f, v):
    return lambda c, n: c.I.call(f(c, n + "f"), [K(v)(c, n)], {}, c.sess.node, c.st)


def meth(o, name, *args):
    return lambda c, n: c.I.call(c.I.getattr_v(o(c, n), name, c.sess.node, c.st), [a(c, n + str(i)) for i, a in enumerate(args)], {}, c.sess.node, c.st)


def prop(o, name):
    return lambda c, n: c.I.getattr_v(o(c, n), name, c.sess.node, c.st)


def integ(v):
    return O(INTG, 0, value=K(v))


# (anchor class, a, b, expected, what)
PAIRS = [
    (BP, poly(5), poly(5), True, "polynomials with the same coefficients are equal"),
    (BP, poly(0), poly(0), True, "the zero polynomial equals itself"),
    (BP, poly(5), poly(4), False, "polynomials that differ in one coefficient are different"),
    (BP, poly(5), poly(0b101101), False, "polynomials of different degree are different"),
    (BP, poly(5), K(5), True, "a polynomial equals the integer that encodes it"),
    (BP, K(5), poly(5), True, "an integer equals the polynomial it encodes"),
    (BP, poly(5), K(4), False, "a polynomial differs from an integer that encodes another polynomial"),
    (BP, K(7), poly(5), False, "an integer differs from a polynomial it does not encode"),
    (BP, poly(5), poly(5 + 2**70), False, "polynomials that differ in a coefficient beyond the machine word are different"),
    (BP, poly(5), K(5 + 2**70), False, "a polynomial differs from an integer with a further bit beyond the machine word"),
    (BP, poly(5), K(-5), False, "a polynomial differs from a negative integer"),
    (INTG, integ(5), integ(5), True, "integer elements with the same value are equal"),
    (INTG, integ(-5), integ(5), False, "integer elements of opposite sign are different"),
    (INTG, integ(5), integ(4), False, "integer elements with different values are different"),
    (FIELD, fld(3), fld(3), True, "fields of the same degree with the default modulus are equal"),
    (FIELD, fld(3), fld(4), False, "fields of different degrees are different"),
    (FIELD, fld(4, P19), fld(4, P25), False, "fields with different moduli are different"),
    (FIELD, fld(4, P19), fld(4, P19), True, "fields with the same degree and modulus are equal"),
    (FIELD, fld(4), fld(4, P19), True, "a field with the default modulus equals the field built with that modulus"),
    ("FiniteBifieldElement", elem(fld(3), 2), elem(fld(3), 2), True, "the same element of the same field is equal"),
    ("FiniteBifieldElement", elem(fld(3), 2), elem(fld(3), 3), False, "different elements of one field are different"),
    ("FiniteBifieldElement", elem(fld(3), 2), elem(fld(4), 2), False, "elements of different fields are different"),
    ("FiniteBifieldElement", elem(fld(4, P19), 3), elem(fld(4, P25), 3), False, "elements of fields with different moduli are different"),
    (FRAC, frac(3, 1), frac(3, 1), True, "fractions with the same terms are equal"),
    (FRAC, frac(3, 1), frac(2, 1), False, "fractions with different numerators are different"),
    (FRAC, frac(1, 3), frac(1, 2), False, "fractions with different denominators are different"),
]
FOREIGN = [("a string", S("5")), ("None", K(None)), ("a list of numbers", api.L(api.F(0, 1))),
           ("an integer element", integ(5)), ("a binary polynomial", poly(5)), ("a finite field", fld(3)), ("a fraction", frac(3, 1)),
           ("a finite-field element", elem(fld(3), 2))]
OWN = {BP: poly(5), INTG: integ(5), FIELD: fld(3), "FiniteBifieldElement": elem(fld(3), 2), FRAC: frac(3, 1)}
SELF = {BP: 4, INTG: 3, FIELD: 5, FRAC: 6, "FiniteBifieldElement": 7}      # index into FOREIGN of the class itself


class Pair:
    """two objects built in one abstract state, with distinct calling contexts for their constructions"""

    def __init__(self, prog, a, b, stubs=None):
        self.u = u = api.Session(prog, Interp(prog))
        self.I = I = u.I
        self.c = api.Ctx(u, u.state(), None)
        fr = I.frames[-1]
        base = fr.ctx
        self.A = self.B = None
        try:
            if stubs:
                I.stubs = {k: f(self.c, k) for k, f in stubs.items()}
            fr.ctx = I.intern(I.fids, ("operand", "a"))
            self.A = a(self.c, "a")
            fr.ctx = I.intern(I.fids, ("operand", "b"))
            self.B = b(self.c, "b") if b is not None else None
        except Dead:
            self.A = None
        finally:
            I.stubs = None
            fr.ctx = base
        I.raises = [[]]

    def cmp(self, op):
        """-> V or None when every path raises"""
        st = self.c.st.copy()
        try:
            return ops.compare(self.I, op, self.A, self.B, self.u.node, st)
        except Dead:
            return None

    def hash(self, which):
        st = self.c.st.copy()
        try:
            f = self.I.lookup_builtin("hash") if hasattr(self.I, "lookup_builtin") else mk(Ext("builtins.hash"))
            return self.I.call(f, [which], {}, self.u.node, st)
        except Dead:
            return None


def find_class(prog, name):
    pub = prog.public_classes()
    if name in pub:
        return pub[name]
    for ci in prog.all_classes():
        if ci.name == name:
            return ci
    return None


def site(prog, ci, *names):
    for n in names:
        f = prog.find_member(ci, n)
        if f is not None:
            path = f[0].module.path
            return f"{os.path.relpath(path, REPO) if os.path.isabs(path) else path}:{f[1].lineno}", shortfunc(f[0].qual) + "." + n
    path = ci.module.path
    return f"{os.path.relpath(path, REPO) if os.path.isabs(path) else path}:{ci.node.lineno}", shortfunc(ci.qual)


def jobs(prog, tier):
    js = [("pair", i) for i in range(len(PAIRS))] + [("foreign", k) for k in OWN] + [("flow", k) for k in FLOWS] + [("class", 0)]
    # any other public class that brings its own equality
    for name, ci in prog.public_classes().items():
        f = prog.find_member(ci, "__eq__")
        if name not in FLOWS and f is not None and name in api.CTORS:
            js.append(("flow", name))
    return js + [("unit",) + j for j in unit_jobs(prog)]


def _fail(res, p):
    last = p.I.raises[-1][-1] if p.I.raises and p.I.raises[-1] else None
    return f"{last.exc} at {shortfunc(last.where)}: {src(last.node)}" if last is not None else "no result"


def job(prog, j):
    out, counts, funcs, notes = [], {}, set(), []
    if j[0] == "pair":
        cls, a, b, exp, doc = PAIRS[j[1]]
        ci = find_class(prog, cls)
        if ci is None:
            return {"findings": [], "counts": {}, "funcs": [], "notes": [f"{cls}: not found"]}
        p = Pair(prog, a, b, STUBS.get(cls))
        funcs = {shortfunc(q) for q in p.I.analysed}
        counts["comparisons"] = 2
        if p.A is None or p.B is None:
            return {"findings": [], "counts": {"not built": 1}, "funcs": funcs, "notes": [f"{doc}: operands not built"]}
        for op, want in ((ast.Eq(), exp), (ast.NotEq(), not exp)):
            w, fn = site(prog, ci, "__ne__" if isinstance(op, ast.NotEq) and prog.find_member(ci, "__ne__") else "__eq__")
            r = p.cmp(op)
            sign = "==" if isinstance(op, ast.Eq) else "!="
            if r is None:
                out.append(Finding("comparison of two objects fails", fn, sign, w, f"{sign} raises on every path ({_fail(r, p)}): {doc}", entry=f"{cls}.{sign}"))
                continue
            t = ops.truth(p.I, r, p.c.st.copy())
            if t is None:
                counts["undecided comparisons"] = counts.get("undecided comparisons", 0) + 1
            elif t != want:
                out.append(Finding("comparison contradicts the value of the objects", fn, doc, w, f"{sign} is always {t}: {doc}", entry=f"{cls}.{sign}"))
            else:
                counts["comparisons proven"] = counts.get("comparisons proven", 0) + 1
        if exp:
            for x, y in ((p.A, p.B), (p.B, p.A)):
                if not x.only(Obj):
                    continue
                hx, hy = p.hash(x), p.hash(y)
                nx, ny = (h.num() if h is not None else None for h in (hx, hy))
                w, fn = site(prog, ci, "__hash__")
                kx, ky = ({t[1] for t in deep_tags(h) if t[0] == "hk"} if h is not None else set() for h in (hx, hy))
                if hx is not None and hy is not None and (kx and not ky and ny.const is not None or ky and not kx and nx.const is not None):
                    out.append(Finding("equal objects hash differently", fn, "hash", w, f"one operand hashes as a {'/'.join(sorted(kx | ky))}, the other as an integer: {doc}", entry=f"{cls}.__hash__"))
                if nx is not None and ny is not None and nx.const is not None and ny.const is not None:
                    counts["hash comparisons"] = counts.get("hash comparisons", 0) + 1
                    if nx.const != ny.const:
                        out.append(Finding("equal objects hash differently", fn, "hash", w, f"equal operands have hashes {nx.const} and {ny.const}: {doc}", entry=f"{cls}.__hash__"))
                break
    elif j[0] == "foreign":
        cls = j[1]
        ci = find_class(prog, cls)
        if ci is None:
            return {"findings": [], "counts": {}, "funcs": [], "notes": [f"{cls}: not found"]}
        w, fn = site(prog, ci, "__eq__")
        for i, (what, spec) in enumerate(FOREIGN):
            if i == SELF[cls]:
                continue
            for flip in (False, True):
                p = Pair(prog, spec if flip else OWN[cls], OWN[cls] if flip else spec)
                funcs |= {shortfunc(q) for q in p.I.analysed}
                if p.A is None or p.B is None:
                    continue
                counts["comparisons"] = counts.get("comparisons", 0) + 1
                r = p.cmp(ast.Eq())
                if r is None:
                    out.append(Finding("comparison with an unrelated object fails", fn, what, w, f"comparing with {what} raises on every path ({_fail(r, p)})", entry=f"{cls}.=="))
                elif ops.truth(p.I, r, p.c.st.copy()) is True:
                    out.append(Finding("comparison contradicts the value of the objects", fn, what, w, f"always equal to {what}", entry=f"{cls}.=="))
    elif j[0] == "flow":
        flow(prog, j[1], out, counts, funcs)
    elif j[0] == "class":
        classes(prog, out, counts)
    else:
        r = sweep_job(prog, j[1:], lambda e, n: memo_args(e.events, e.name, n))
        r["counts"] = {k: v for k, v in r["counts"].items() if k in ("entry points", "memoised calls")}
        return r
    return {"findings": out, "counts": counts, "funcs": funcs, "notes": notes}


def memo_args(events, entry, counts):
    out = []
    for ev in events:
        if ev.kind == "memo-call":
            counts["memoised calls"] = counts.get("memoised calls", 0) + 1
        if ev.kind == "memo-unhashable":
            out.append(from_event(ev, "memoised function called with an unhashable argument", ev.detail, entry))
    return out


# ------------------------------------------------------------------ (a) what the comparison depends on
def named(cls, variant, **params):
    """an object whose constructor arguments carry the operand's name"""
    def f(c, n):
        over = {k: (lambda cc, kk, s=s: s(cc, f"{n}.{kk}")) for k, s in params.items()}
        return c.sess.make(cls, variant, c.st, prefix=n + ".", over=over)
    return f


def nelem(variant, **params):
    def f(c, n):
        fo = named(FIELD, variant, **params)(c, n)
        return c.I.call(fo, [INT_(0, 7)(c, f"{n}.value")], {}, c.sess.node, c.st)
    return f


FLOWS = {
    BP: (named(BP, 0, value=INT_(0)), ("value",)),
    INTG: (named(INTG, 0, value=INT_(-9, 9)), ("value",)),
    FIELD: (named(FIELD, 1, degree=INT_(3, 5), modulus=K(P19)), ("modulus",)),                      # the modulus determines the degree
    "FiniteBifieldElement": (nelem(1, degree=INT_(3, 5), modulus=K(P19)), ("value", "modulus")),
    FRAC: (named(FRAC, 1, numerator=INT_(1), denominator=INT_(1)), ("numerator", "denominator")),
}
STUBS = {FRAC: {"__post_init__": K(None)}}


def flow(prog, cls, out, counts, funcs):
    ci = find_class(prog, cls)
    if ci is None:
        return
    if cls in FLOWS:
        spec, params = FLOWS[cls]
    else:
        params = tuple(k.lstrip("*") for k, v in api.CTORS[cls][0].items() if v is not None and k.lstrip("*") != "rng")
        spec = named(cls, 0, **{k: v for k, v in api.CTORS[cls][0].items() if v is not None})
    p = Pair(prog, spec, spec)
    funcs |= {shortfunc(q) for q in p.I.analysed}
    if p.A is None or p.B is None:
        counts["not built"] = 1
        return
    w, fn = site(prog, ci, "__eq__")
    got = None
    for op in (ast.Eq(), ast.NotEq()):
        r = p.cmp(op)
        if r is None:
            continue
        got = names(r)
        for k in params:
            counts["parameters traced"] = counts.get("parameters traced", 0) + 1
            sides = [s for s in ("a", "b") if any(x == f"{s}.{k}" or x.startswith((f"{s}.{k}.", f"{s}.{k}[")) for x in got)]
            if len(sides) < 2:
                msg = f"'{k}' of {'neither operand' if not sides else 'only one operand'} can affect the comparison"
                out.append(Finding("comparison ignores a defining parameter", fn, k, w, msg, entry=f"{cls}.=="))
    if got is not None and prog.find_member(ci, "__hash__") is not None:
        h = p.hash(p.A)
        if h is not None:
            hn = {x for x in names(h) if x.startswith("a.")}
            counts["hashes traced"] = 1
            w, fn = site(prog, ci, "__hash__")
            for k in sorted(hn - got):
                out.append(Finding("hash depends on what equality ignores", fn, k, w, f"the hash depends on '{k[2:]}', which == does not compare", entry=f"{cls}.__hash__"))
            ident = [ev for ev in p.I.events if ev.kind == "ambient" and ev.detail.startswith("id")]
            if ident:
                out.append(Finding("hash depends on what equality ignores", fn, "id()", w, "the hash depends on the identity of an object, which == does not compare", entry=f"{cls}.__hash__"))
        elif p.A.only(Obj):
            w, fn = site(prog, ci, "__hash__")
            out.append(Finding("hashing fails", fn, "hash", w, f"hash() raises on every path ({_fail(None, p)})", entry=f"{cls}.__hash__"))


def names(v):
    return {t[1] for t in deep_tags(v) if t[0] in ("p", "ps")}


# ------------------------------------------------------------------ (c) hashability of classes with memoised members
def hashable(prog, I, ci):
    """False when instances are definitely not hashable; None if undecided"""
    for c in prog.mro(ci):
        if not isinstance(c, ClassInfo):
            return True if c is None or str(c).endswith("object") else None
        d = dataclass_decorated(c)
        has_hash = "__hash__" in c.members
        if has_hash:
            n = c.members["__hash__"]
            return not (isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and n.value.value is None)
        if "__eq__" in c.members and d is None:
            return False
        if d is not None:
            kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)} if isinstance(d, ast.Call) else {}
            if kw.get("unsafe_hash"):
                return True
            if kw.get("eq", True):
                return True if kw.get("frozen") else False
            if "__eq__" in c.members:
                return False
    return True


def memo_kind(prog, I, owner, node):
    """'cache' / 'cached_property' / None for a member"""
    if not isinstance(node, ast.FunctionDef):
        return None
    for d in node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        try:
            e = I.eval_in_module(f, owner.module).one(Ext)
        except Dead:
            e = None
        if e is not None and e.path in ("functools.cache", "functools.lru_cache"):
            return "cache"
        if e is not None and e.path == "functools.cached_property":
            return "cached_property"
    return None


def classes(prog, out, counts):
    I = Interp(prog)
    s = api.Session(prog, I)
    counts.update({"classes": 0, "memoised members": 0, "dataclass fields": 0})
    for ci in prog.all_classes():
        counts["classes"] += 1
        seen = {}
        for c in prog.mro(ci):
            if isinstance(c, ClassInfo):
                for n, node in c.members.items():
                    seen.setdefault(n, (c, node))
        h = hashable(prog, I, ci)
        d = dataclass_decorated(ci)
        slots = isinstance(d, ast.Call) and any(k.arg == "slots" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords)
        for n, (owner, node) in seen.items():
            k = memo_kind(prog, I, owner, node)
            if k is None:
                continue
            counts["memoised members"] += 1
            w, fn = site(prog, ci, n)
            static = any(_last(x) in ("staticmethod", "classmethod") for x in node.decorator_list)
            if k == "cache" and h is False and not static:
                out.append(Finding("memoised method on an unhashable class", shortfunc(ci.qual), n, w,
                                   f"{ci.name} defines equality but no hash, so calling the memoised '{n}' raises TypeError", entry=f"{ci.name}.{n}"))
            if k == "cached_property" and slots and all("__dict__" not in ast.unparse(x) for x in ci.node.body) and not bases(prog, ci):
                out.append(Finding("cached property on a slotted class", shortfunc(ci.qual), n, w, f"{ci.name} has no instance dictionary, so '{n}' raises TypeError", entry=f"{ci.name}.{n}"))
        if d is not None:
            fields(prog, ci, d, out, counts)


def bases(prog, ci):
    return [c for c in prog.mro(ci)[1:] if isinstance(c, ClassInfo)]


def fields(prog, ci, d, out, counts):
    kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)} if isinstance(d, ast.Call) else {}
    if kw.get("eq", True) is False or "__eq__" in ci.members:
        return
    for n in ci.node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            counts["dataclass fields"] += 1
            v = n.value
            if isinstance(v, ast.Call) and _last(v) == "field":
                f = {k.arg: k.value.value for k in v.keywords if isinstance(k.value, ast.Constant)}
                if f.get("compare", True) is False and f.get("init", True) is not False and n.target.id != "rng" and not n.target.id.startswith("_"):
                    path = ci.module.path
                    path = os.path.relpath(path, REPO) if os.path.isabs(path) else path
                    out.append(Finding("comparison ignores a defining parameter", shortfunc(ci.qual), n.target.id, f"{path}:{n.lineno}",
                                       f"'{n.target.id}' is excluded from the generated equality", entry=f"{ci.name}.=="))
