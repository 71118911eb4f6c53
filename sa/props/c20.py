"""C20: the public interface agrees with itself and with its documentation."""
import math
import re
from .common import *
from ..model import ClassInfo, Program

TITLE = "The public interface agrees with itself and with its documentation"
RULE = ("Signature analysis of the resolved program: every abstract operation is implemented by every exported concrete class; every override accepts "
        "every call its base operation accepts (same parameter names, order and kinds, optional stays optional with the same default, extra "
        "parameters optional, property stays property); every documented parameter exists in the signature, in documented order; every documented "
        "default equals the declared default; the names shown by repr() are constructor parameters of the class that shows them, and a generated "
        "repr leaves none of them out.")
ASSUME = ["docstrings in the repository's 'Parameters:' / 'Attributes:' layout are the documentation",
          "a default of None resolved inside the body and a documented default that is not a plain constant are undecided (listed)"]
MIN = {"overrides compared": 40, "documented parameters": 120, "documented defaults": 30}

_UNK = object()


# ---------------------------------------------------------------- signatures
class Sig:
    """Call interface of a function: [(name, kind, default-expr|None, module)], kind in pos / kw / var / varkw."""

    def __init__(self, kind, params, where):
        self.kind, self.params, self.where = kind, params, where


def _last(d):
    while isinstance(d, ast.Call):
        d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""


PROPS = {"property", "cached_property"}


def kind_of(node):
    ks = [_last(d) for d in node.decorator_list]
    if any(k in PROPS or k in ("setter", "getter", "deleter") for k in ks):
        return "property"
    if "classmethod" in ks:
        return "classmethod"
    if "staticmethod" in ks:
        return "staticmethod"
    return "method"


def is_abstract(node):
    return isinstance(node, ast.FunctionDef) and any(_last(d) in ("abstractmethod", "abstractproperty") for d in node.decorator_list)


def sig_of(module, node, bound=True):
    a = node.args
    kind = kind_of(node) if bound else "function"
    pos = [("pos", x) for x in a.posonlyargs + a.args]
    defs = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    ps = [(x.arg, k if x not in a.posonlyargs else "posonly", d, module) for (k, x), d in zip(pos, defs)]
    if kind in ("method", "classmethod", "property") and ps:
        ps = ps[1:]
    if a.vararg:
        ps.append((a.vararg.arg, "var", None, module))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append((x.arg, "kw", d, module))
    if a.kwarg:
        ps.append((a.kwarg.arg, "varkw", None, module))
    return Sig(kind, ps, f"{module.path}:{node.lineno}")


def dataclass_decorated(ci):
    for d in ci.node.decorator_list:
        if _last(d) == "dataclass":
            return d
    return None


def ctor_sig(prog, ci):
    """Signature of the constructor: explicit __init__ or dataclass fields, whichever comes first along the MRO."""
    mro = [c for c in prog.mro(ci) if isinstance(c, ClassInfo)]
    for c in mro:
        n = c.members.get("__init__")
        if isinstance(n, ast.FunctionDef):
            return sig_of(c.module, n)
        d = dataclass_decorated(c)
        if d is not None:
            kws = {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) else {}
            if "init" in kws and isinstance(kws["init"], ast.Constant) and kws["init"].value is False:
                continue
            fields = {}
            sub = [x for x in prog.mro(c) if isinstance(x, ClassInfo)]
            for x in reversed(sub):
                if dataclass_decorated(x) is None:
                    continue
                for name, ann, val in x.fields:
                    default, skip, kwonly = val, False, False
                    if isinstance(val, ast.Call) and _last(val) == "field":
                        kk = {k.arg: k.value for k in val.keywords}
                        if "init" in kk and isinstance(kk["init"], ast.Constant) and kk["init"].value is False:
                            skip = True
                        default = kk.get("default", kk.get("default_factory"))
                        kwonly = "kw_only" in kk and isinstance(kk["kw_only"], ast.Constant) and bool(kk["kw_only"].value)
                    if skip:
                        continue
                    fields[name] = (name, "kw" if kwonly else "pos", default, x.module)
            return Sig("method", list(fields.values()), f"{c.module.path}:{c.node.lineno}")
    return None


# ---------------------------------------------------------------- constants
def const(prog, m, e, depth=0):
    """Constant value of an expression, folding arithmetic and module-level names; _UNK when it is not a constant."""
    if depth > 6 or e is None:
        return _UNK
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd, ast.Not)):
        v = const(prog, m, e.operand, depth + 1)
        if v is _UNK or isinstance(v, str) or v is None:
            return _UNK
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else (not v)
    if isinstance(e, ast.BinOp):
        l, r = const(prog, m, e.left, depth + 1), const(prog, m, e.right, depth + 1)
        if not all(isinstance(x, (int, float)) for x in (l, r)):
            return _UNK
        try:
            return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r, ast.Div: lambda: l / r,
                    ast.FloorDiv: lambda: l // r, ast.LShift: lambda: l << r,
                    ast.Pow: lambda: l ** r if abs(r) < 64 else _UNK}[type(e.op)]()
        except Exception:
            return _UNK
    if isinstance(e, (ast.Tuple, ast.List)):
        vs = [const(prog, m, x, depth + 1) for x in e.elts]
        return _UNK if any(v is _UNK for v in vs) else tuple(vs)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "float", "bool") and len(e.args) == 1 and not e.keywords:
        v = const(prog, m, e.args[0], depth + 1)
        try:
            return _UNK if v is _UNK else {"int": int, "float": float, "bool": bool}[e.func.id](v)
        except Exception:
            return _UNK
    if isinstance(e, ast.Name):
        r = prog.lookup(m, e.id)
        if r and r[0] == "var":
            bs = r[1].bindings.get(r[2], [])
            if len(bs) == 1 and isinstance(bs[0], (ast.Assign, ast.AnnAssign)) and bs[0].value is not None:
                return const(prog, r[1], bs[0].value, depth + 1)
    return _UNK


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) == isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) == type(b) and a == b


# ---------------------------------------------------------------- documentation
def doc_params(doc):
    """[(section, name, text)] of the Parameters / Attributes sections of a docstring."""
    out = []
    if not doc:
        return out
    lines = doc.expandtabs().splitlines()
    i = 0
    while i < len(lines):
        s = lines[i].strip()
        if s in ("Parameters:", "Attributes:", "Args:"):
            base = len(lines[i]) - len(lines[i].lstrip())
            i += 1
            cur = None
            ind = None
            while i < len(lines):
                ln = lines[i]
                if not ln.strip():
                    i += 1
                    continue
                d = len(ln) - len(ln.lstrip())
                if d <= base:
                    break
                ind = d if ind is None else ind
                mt = re.match(r"\s*\**(\w+)\s*(?:\([^)]*\))?:(?:\s|$)", ln)
                if d == ind and mt:
                    cur = [s[:-1], mt.group(1), ln.strip()]
                    out.append(cur)
                elif cur is not None:
                    cur[2] += " " + ln.strip()
                i += 1
            continue
        i += 1
    return [tuple(x) for x in out]


_DEF = [r"[Tt]he default value is\s*", r"Default(?: value)? is\s*", r"\(default:\s*", r"[Dd]efaults to\s*"]


def doc_default(text):
    """Documented default as a constant; None = none documented; _UNK = documented but not a plain constant."""
    for rx in _DEF:
        m = re.search(rx + r"(`[^`]*`|\$[^$]*\$|\S+)(.{0,40})", text)
        if not m:
            continue
        t = m.group(1)
        if re.match(r"\s*for all\b", m.group(2)):
            return _UNK
        if t[0] == "`":
            t = t.strip("`")
        elif t[0] == "$":
            t = t.strip("$")
            if "=" in t:
                t = t.split("=", 1)[1]
            t = t.strip()
        else:
            t = t.rstrip(".,;)")
        t = t.strip()
        try:
            v = ast.literal_eval(t)
            if isinstance(v, (int, float, str, bool)) or v is None:
                return v if v is not None else _UNK
            return _UNK
        except Exception:
            if re.fullmatch(r"[a-z][a-z-]*", t) and m.group(1)[0] == "`" and "(" not in t:
                return t
            return _UNK
    return None


# ---------------------------------------------------------------- the rules
def jobs(prog, tier):
    return ["all"]


def V(out, rule, func, construct, where, msg, sev="violation", entry=""):
    out.append(Finding(rule, func, construct, where, msg, severity=sev, entry=entry or func))


def compare_override(prog, out, counts, sub, a, base, b, name):
    """Every call accepted by `b` (base) must be accepted, with the same meaning, by `a`."""
    sa, sb = sig_of(sub.module, a), sig_of(base.module, b)
    counts["overrides compared"] += 1
    fn, where = f"{sub.name}.{name}", sa.where
    if sa.kind != sb.kind:
        if {sa.kind, sb.kind} <= {"classmethod", "staticmethod"}:
            return
        V(out, "override-kind", fn, f"{sb.kind} -> {sa.kind}", where, f"{sb.kind} of {base.name} is overridden by a {sa.kind}")
        return
    va = any(k == "var" for _, k, _, _ in sa.params)
    vk = any(k == "varkw" for _, k, _, _ in sa.params)
    pa = [p for p in sa.params if p[1] in ("pos", "posonly")]
    pb = [p for p in sb.params if p[1] in ("pos", "posonly")]
    ka = {p[0]: p for p in sa.params if p[1] in ("pos", "kw")}
    for i, (n, k, d, m) in enumerate(pb):
        if i < len(pa):
            if pa[i][0] != n and k == "pos" and not vk:
                V(out, "override-parameter", fn, f"{n} at position {i}", where,
                  f"parameter {i} is called {pa[i][0]!r} here and {n!r} in {base.name}.{name}")
            q = pa[i]
        elif va and vk:
            continue
        elif n in ka and not va:
            V(out, "override-parameter", fn, f"{n} keyword-only", where, f"{n!r} is positional in {base.name}.{name} and keyword-only here")
            q = ka[n]
        elif va:
            continue
        else:
            V(out, "override-parameter", fn, f"{n} missing", where, f"parameter {n!r} of {base.name}.{name} is not accepted here")
            continue
        default(prog, out, counts, fn, where, q, (n, k, d, m), base, name)
    for n, k, d, m in sb.params:
        if k == "kw":
            if n in ka:
                default(prog, out, counts, fn, where, ka[n], (n, k, d, m), base, name)
            elif not vk:
                V(out, "override-parameter", fn, f"{n} missing", where, f"keyword parameter {n!r} of {base.name}.{name} is not accepted here")
    names_b = {p[0] for p in sb.params}
    for j, (n, k, d, m) in enumerate(sa.params):
        if k in ("pos", "posonly", "kw") and d is None and n not in names_b and (k == "kw" or j >= len(pb)):
            V(out, "override-parameter", fn, f"{n} required", where, f"required parameter {n!r} does not exist in {base.name}.{name}")


def default(prog, out, counts, fn, where, q, p, base, name):
    (n1, _, d1, m1), (n2, _, d2, m2) = q, p
    if d2 is None:
        return
    if d1 is None:
        V(out, "override-default", fn, f"{n2} required", where, f"parameter {n2!r} is optional in {base.name}.{name} and required here")
        return
    counts["defaults compared"] += 1
    a, b = const(prog, m1, d1), const(prog, m2, d2)
    if a is _UNK or b is _UNK:
        if ast.dump(d1) != ast.dump(d2):
            V(out, "override-default", fn, n2, where, f"defaults of {n2!r} could not be compared: {ast.unparse(d1)} / {ast.unparse(d2)}", "undecided")
    elif not same(a, b):
        sev = "undecided" if a is None or b is None else "violation"
        V(out, "override-default", fn, f"{n2}={a!r}", where, f"the default of {n2!r} is {a!r} here and {b!r} in {base.name}.{name}", sev)


def check_doc(prog, out, counts, fn, sig, doc, own):
    ps = doc_params(doc)
    if not ps or sig is None:
        return
    names = {p[0]: p for p in sig.params}
    open_kw = any(p[1] == "varkw" for p in sig.params)
    order = [p[0] for p in sig.params]
    idx = -1
    for sec, n, text in ps:
        counts["documented parameters"] += 1
        if n not in names:
            if not open_kw:
                V(out, "documented-parameter", fn, n, sig.where, f"documented parameter {n!r} is not a parameter of {fn}")
            continue
        p = names[n]
        if p[1] in ("pos", "posonly"):
            i = order.index(n)
            if i < idx:
                V(out, "documented-order", fn, n, sig.where, f"parameter {n!r} is documented after a parameter that follows it in the signature")
            idx = max(idx, i)
        want = doc_default(text)
        if want is None:
            continue
        counts["documented defaults"] += 1
        if p[2] is None:
            V(out, "documented-default", fn, f"{n} required", sig.where, f"parameter {n!r} has the documented default {want!r} but is required"
              if want is not _UNK else f"parameter {n!r} has a documented default but is required")
            continue
        if want is _UNK:
            continue
        got = const(prog, p[3], p[2])
        if isinstance(want, str) and isinstance(got, str) or got is not _UNK and got is not None:
            if not same(got, want) and not (isinstance(got, (int, float)) and not isinstance(got, bool) and isinstance(want, (int, float))
                                            and not isinstance(want, bool) and got == want):
                V(out, "documented-default", fn, f"{n}={got!r}", sig.where, f"the default of {n!r} is {got!r}, documented as {want!r}")
        else:
            V(out, "documented-default", fn, n, sig.where, f"the declared default of {n!r} ({ast.unparse(p[2])}) is not a constant; documented {want!r}",
              "undecided")


def field_calls(ci):
    """(name, call) of the annotated class-body assignments whose value is a call of dataclasses.field."""
    for x in ci.node.body:
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and isinstance(x.value, ast.Call):
            f = x.value.func
            if (f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")) == "field":
                yield x.target.id, x.value


def repr_names(node):
    """Names shown as name=<value> by the f-strings of a __repr__."""
    out = []
    for s in ast.walk(node):
        if isinstance(s, ast.JoinedStr):
            vs = s.values
            for a, b in zip(vs, vs[1:]):
                if isinstance(a, ast.Constant) and isinstance(a.value, str) and isinstance(b, ast.FormattedValue):
                    m = re.search(r"(?:^|[(,\s])([A-Za-z_]\w*)=$", a.value)
                    if m:
                        out.append((m.group(1), s.lineno))
    return out


def positional(node):
    """Does the repr show anything other than name=<value> pieces and the class name?"""
    for s in ast.walk(node):
        if isinstance(s, ast.JoinedStr):
            prev = None
            for v in s.values:
                if isinstance(v, ast.FormattedValue):
                    named = isinstance(prev, ast.Constant) and re.search(r"(?:^|[(,\s])[A-Za-z_]\w*=$", str(prev.value))
                    x = v.value
                    if not named and not isinstance(x, ast.Name) and "__name__" not in ast.unparse(x):
                        return True
                    if not named and isinstance(x, ast.Name) and positional_name(node, x.id):
                        return True
                prev = v
    return False


def positional_name(fn, name):
    """A local that is not assembled from name=<value> pieces (an f-string or join starting with a name)."""
    for st in ast.walk(fn):
        if isinstance(st, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in
                                                               (st.targets if isinstance(st, ast.Assign) else [st.target])):
            js = [x for x in ast.walk(st.value) if isinstance(x, ast.JoinedStr)]
            if not js or any(isinstance(x.values[0], ast.FormattedValue) for x in js if x.values):
                return True
    return False


def job(prog, j):
    import collections
    out, counts, funcs = [], collections.Counter(), set()
    pub = prog.public_classes()
    abc_names = set()
    am = prog.modules.get("komm.abc")
    if am is not None:
        for st in am.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets) and isinstance(st.value, (ast.List, ast.Tuple)):
                for e in st.value.elts:
                    if isinstance(e, ast.Constant):
                        abc_names.add(e.value)
                        counts["exported names"] += 1
                        if prog.lookup(am, e.value) is None:
                            V(out, "export", "komm.abc", e.value, f"{am.path}:{e.lineno}", f"exported name {e.value!r} is not defined")
    # --- overrides and abstract operations
    seen = set()
    classes = dict(pub)
    for nm in sorted(abc_names):
        r = prog.lookup(am, nm)
        if r and r[0] == "class":
            classes.setdefault("abc." + nm, r[1])
    for cname, ci in classes.items():
        mro = [c for c in prog.mro(ci) if isinstance(c, ClassInfo)]
        names = sorted({k for c in mro for k, v in c.members.items() if isinstance(v, ast.FunctionDef)})
        for k in names:
            defs = [(c, c.members[k]) for c in mro if k in c.members]
            if not cname.startswith("abc.") and is_abstract(defs[0][1]):
                V(out, "abstract-operation", f"{cname}.{k}", k, f"{defs[0][0].module.path}:{defs[0][1].lineno}",
                  f"{cname} does not implement the abstract operation {k!r} and cannot be instantiated")
            counts["operations"] += 1
            if k.startswith("__") and k.endswith("__") and k != "__call__":
                continue
            fs = [(c, n) for c, n in defs if isinstance(n, ast.FunctionDef)]
            if len(fs) > 1 and kind_of(fs[0][1]) == "classmethod" and k.startswith("from_"):
                continue
            for (c1, a), (c2, b) in zip(fs, fs[1:]):
                if (c1.qual, c2.qual, k) in seen or _last(a.decorator_list[0] if a.decorator_list else ast.Name(id="")) == "overload":
                    continue
                seen.add((c1.qual, c2.qual, k))
                funcs.add(f"{c1.name}.{k}")
                compare_override(prog, out, counts, c1, a, c2, b, k)
            # a base-class attribute annotation overridden by a method (or the reverse) changes how it is read
    # --- documentation
    dseen = set()
    for cname, ci in classes.items():
        mro = [c for c in prog.mro(ci) if isinstance(c, ClassInfo)]
        doc = ast.get_docstring(ci.node)
        n = ci.members.get("__init__")
        idoc = ast.get_docstring(n) if isinstance(n, ast.FunctionDef) else None
        sig = ctor_sig(prog, ci)
        if not cname.startswith("abc."):
            dp = [x for d in (doc, idoc) for x in doc_params(d)]
            if dp and sig is not None:
                funcs.add(f"{cname}.__init__")
                check_doc(prog, out, counts, f"{cname}", sig, doc, ci)
                check_doc(prog, out, counts, f"{cname}", sig, idoc, ci)
        for c in mro:
            for k, node in c.members.items():
                if not isinstance(node, ast.FunctionDef) or k == "__init__" or (c.qual, k) in dseen:
                    continue
                dseen.add((c.qual, k))
                d = ast.get_docstring(node)
                if d and doc_params(d):
                    funcs.add(f"{c.name}.{k}")
                    check_doc(prog, out, counts, f"{c.name}.{k}", sig_of(c.module, node), d, c)
        # --- repr
        rn = prog.find_member(ci, "__repr__")
        if rn and isinstance(rn[1], ast.FunctionDef) and not cname.startswith("abc.") and sig is not None:
            ps = {p[0] for p in sig.params}
            for nm, ln in repr_names(rn[1]):
                counts["repr names"] += 1
                if nm not in ps:
                    V(out, "repr-parameter", f"{cname}.__repr__", nm, f"{rn[0].module.path}:{ln}",
                      f"repr() of {cname} shows {nm!r}, which is not a parameter of its constructor")
            shown = {nm for nm, _ in repr_names(rn[1])}
            plain = not positional(rn[1]) and not any(isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))
                                                      for x in ast.walk(rn[1]))
            for p in sig.params:
                if shown and plain and p[1] in ("pos", "kw") and p[2] is None and p[0] not in shown:
                    V(out, "repr-parameter", f"{cname}.__repr__", p[0] + " missing", f"{rn[0].module.path}:{rn[1].lineno}",
                      f"repr() of {cname} does not show its required parameter {p[0]!r}")
        elif rn is None and not cname.startswith("abc."):
            # a dataclass writes its own repr: every field the constructor takes must be in it (the random source is exempt)
            for c in mro:
                for k, val in field_calls(c):
                    counts["repr names"] += 1
                    kws = {x.arg: x.value.value for x in val.keywords if x.arg and isinstance(x.value, ast.Constant)}
                    if kws.get("repr") is False and kws.get("init") is not False and k != "rng" and not k.startswith("_"):
                        V(out, "repr-parameter", f"{cname}.__repr__", k + " hidden", f"{c.module.path}:{val.lineno}",
                          f"repr() of {cname} leaves out its constructor parameter {k!r}")
    for name, (_, m, node) in sorted(prog.public_functions().items()):
        d = ast.get_docstring(node)
        counts["functions"] += 1
        if d:
            funcs.add(name)
            check_doc(prog, out, counts, name, sig_of(m, node, bound=False), d, None)
    return {"findings": out, "counts": dict(counts), "funcs": funcs, "notes": []}
