"""C09: every result has the type its interface declares."""
from .common import *

TITLE = "Every result has the type its interface declares"
RULE = ("Type inference by abstract interpretation of every entry point: each alternative of the inferred result must conform to the return annotation of the "
        "implementing function and of every base operation it overrides (Python int / bool / str where declared, never a NumPy scalar, float or array instead; "
        "an array of the declared element kind and number of dimensions where an array is declared; containers elementwise).")
ASSUME = ENGINE_ASSUMPTIONS + ["np.float64 counts as float (it is a subclass); an array of integers is accepted where an array of reals is declared; zero-dimensional "
                               "results may be NumPy scalars where an array is declared"]
MIN = {"results checked": 700}
jobs = sweep_jobs

# concrete parameters where a relation between parameters decides the type (an exponent's sign)
OVER = {"ReedMullerCode": dict(rho=api.C(1), mu=api.C(3))}

GENERIC = {"int", "float", "bool", "str", "complex", "bytes", "None"}


def resolve(prog, mod, name, depth=0):
    """the annotation expression a type alias stands for, or None"""
    if mod is None or depth > 4:
        return None, None
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
            return s.value, mod
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
            return s.value, mod
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                if (a.asname or a.name) == name:
                    base = mod.name.split(".")
                    pkg = base if mod.path.endswith("__init__.py") else base[:-1]
                    target = ".".join(pkg[:len(pkg) - (s.level - 1)] + ([s.module] if s.module else [])) if s.level else (s.module or "")
                    m = prog.modules.get(target)
                    if m is not None:
                        return resolve(prog, m, a.name, depth + 1)
    return None, None


KINDS = {"integer": {"int"}, "floating": {"int", "float"}, "complexfloating": {"int", "float", "complex"}, "bool_": {"bool"}, "number": {"int", "float", "complex"},
         "int_": {"int"}, "float64": {"int", "float"}, "complex128": {"int", "float", "complex"}, "int64": {"int"}}


class Conf:
    """conformance of an abstract value to an annotation: list of reasons (violations); .unk when something could not be decided"""

    def __init__(self, prog, mod, cls):
        self.prog, self.mod, self.cls, self.unk = prog, mod, cls, False

    def parse(self, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                return ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        return ann

    def members(self, ann):
        """the union members of an annotation"""
        ann = self.parse(ann)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.members(ann.left) + self.members(ann.right)
        if isinstance(ann, ast.Subscript) and self.name(ann.value) in ("Union", "Optional"):
            sl = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            out = [m for s in sl for m in self.members(s)]
            return out + ([ast.Constant(None)] if self.name(ann.value) == "Optional" else [])
        if isinstance(ann, ast.Name) and ann.id not in GENERIC:
            v, m = resolve(self.prog, self.mod, ann.id)
            if v is not None and ann.id not in ("Array1D", "Array2D") and not (isinstance(v, ast.Call)):
                sub = Conf(self.prog, m, self.cls)
                return sub.members(v)
        return [ann]

    @staticmethod
    def name(n):
        return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None

    def value(self, v, ann, st, path="result"):
        """reasons why some alternative of v does not conform"""
        ms = self.members(ann)
        out = []
        for a in v.alts:
            if isinstance(a, Unk):
                self.unk = True
                continue
            if isinstance(a, Num) and a.bot:
                continue
            rs = []
            for m in ms:
                r = self.atom(a, m, st, path)
                if r is None:
                    rs = None
                    self.unk = True
                    break
                if not r:
                    rs = []
                    break
                rs.append(r)
            if rs:
                out.append(max(rs, key=len)[0] if len(ms) == 1 else rs[0][0])
        return out

    def atom(self, a, m, st, path):
        """[] conforms, [reason] does not, None unknown"""
        n = self.name(m)
        if isinstance(m, ast.Constant) and m.value is None or n == "None":
            return [] if a is NONE else [f"{path} is {show(a)}, not None"]
        if n in ("Any", "object", "Hashable"):
            return []
        if n == "int":
            if isinstance(a, Num):
                if a.kinds & {"float", "complex"}:
                    return [f"{path} may be a {'/'.join(sorted(a.kinds & {'float', 'complex'}))}, not an int"]
                return [] if a.dt == "py" and a.kinds <= {"int"} else [f"{path} is {show(a)}, not a Python int"]
            return [f"{path} is {show(a)}, not an int"]
        if n == "bool":
            if a is NOTIMPL_:
                return []
            return [] if isinstance(a, Num) and a.dt == "py" and a.kinds <= {"bool"} else [f"{path} is {show(a)}, not a Python bool"]
        if n == "float":
            if isinstance(a, Num):
                if "complex" in a.kinds:
                    return [f"{path} is {show(a)}, not a float"]
                return [] if "float" in a.kinds or a.dt == "py" else [f"{path} is {show(a)}, not a float"]
            return [f"{path} is {show(a)}, not a float"]
        if n == "complex":
            return [] if isinstance(a, Num) else [f"{path} is {show(a)}, not a complex number"]
        if n == "str":
            return [] if isinstance(a, Str) else [f"{path} is {show(a)}, not a string"]
        if isinstance(m, ast.Subscript):
            b = self.name(m.value)
            args = m.slice.elts if isinstance(m.slice, ast.Tuple) else [m.slice]
            if b == "Literal":
                vals = [x.value for x in args if isinstance(x, ast.Constant)]
                if isinstance(a, Num) and a.const is not None:
                    return [] if a.const in vals else [f"{path} is {show(a)}, not one of {vals}"]
                if isinstance(a, Str):
                    if a.consts is not None and any(isinstance(x, str) for x in vals):
                        bad = [s for s in a.consts if s not in vals]
                        return [f"{path} may be {bad[0]!r}, not one of {vals}"] if bad else []
                    return None
                return None
            if b in ("NDArray", "Array1D", "Array2D"):
                nd = {"Array1D": 1, "Array2D": 2}.get(b)
                if isinstance(a, Num) and a.dt != "py":
                    if nd:
                        return [f"{path} is {show(a)}, not a {nd}-dimensional array"]
                    return self.elems(mk(a), args[0], path)
                if not isinstance(a, Arr):
                    return [f"{path} is {show(a)}, not an array"]
                if nd and a.shape is not None and len(a.shape) != nd:
                    return [f"{path} has {len(a.shape)} dimensions, not {nd}"]
                return self.elems(a.elem, args[0], path)
            if b in ("list", "tuple", "set", "frozenset", "Sequence", "Iterable"):
                if isinstance(a, SetA):
                    if b not in ("set", "frozenset", "Iterable") or b in ("set", "frozenset") and a.kind != b and a.kind in ("list", "tuple"):
                        return [f"{path} is {show(a)}, not a {b}"]
                    return self.value(a.elem, args[0], st, path + " element") if a.elem is not None else []
                if not isinstance(a, Seq) or b in ("list", "tuple") and a.kind != b:
                    if isinstance(a, Seq) and a.kind not in ("list", "tuple"):
                        return None
                    return [f"{path} is {show(a)}, not a {b}"]
                if b == "tuple" and not (len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis):
                    if a.items is not None:
                        if len(a.items) != len(args):
                            return [f"{path} has {len(a.items)} items, not {len(args)}"]
                        out = []
                        for i, (x, y) in enumerate(zip(a.items, args)):
                            out += self.value(x, y, st, f"{path}[{i}]")
                        return out[:1]
                    if a.length.lo > len(args) or a.length.hi < len(args):
                        return [f"{path} does not have {len(args)} items"]
                    return None
                if a.items is not None:
                    out = []
                    for x in a.items:
                        out += self.value(x, args[0], st, path + " element")
                    return out[:1]
                return self.value(a.elem, args[0], st, path + " element") if a.elem is not None else []
            if b in ("dict", "Mapping"):
                if not isinstance(a, Map):
                    return [f"{path} is {show(a)}, not a dict"]
                out = []
                if a.k is not None:
                    out += self.value(a.k, args[0], st, path + " key")
                if a.v is not None:
                    out += self.value(a.v, args[1], st, path + " value")
                return out[:1]
            m = m.value
            n = self.name(m)
        if n in ("list", "tuple", "set", "dict"):
            return None
        if n == "Self":
            if isinstance(a, Obj) and self.cls is not None:
                return [] if self.sub(a.cls, self.cls) or self.sub(self.cls, a.cls) else [f"{path} is {show(a)}, not a {self.cls.name}"]
            return [f"{path} is {show(a)}, not an object of its class"] if isinstance(a, (Num, Arr, Seq, Str, Map, SetA)) or a is NONE else None
        if n is not None:
            cis = [c for c in self.prog.classes.values() if c.name == n] if hasattr(self.prog, "classes") else []
            if cis:
                if isinstance(a, Obj):
                    return [] if any(self.sub(a.cls, c) for c in cis) else [f"{path} is {show(a)}, not a {n}"]
                return [f"{path} is {show(a)}, not a {n}"] if isinstance(a, (Num, Arr, Seq, Str, Map, SetA)) or a is NONE else None
        return None

    def sub(self, c, d):
        return any(x is d or getattr(x, "qual", None) == getattr(d, "qual", 0) for x in self.prog.mro(c))

    def elems(self, el, spec, path):
        ks = set()
        names = [self.name(x) for x in self.members(spec)]
        if "object_" in names or "Any" in names:
            return []
        for n in names:
            if n not in KINDS:
                return None
            ks |= KINDS[n]
        for x in el.alts:
            if isinstance(x, Num):
                if x.bot:
                    if x.kinds and not x.kinds <= ks and not x.kinds <= {"bool"}:
                        return [f"{path} may be an array of {'/'.join(sorted(x.kinds))} (empty), not of {'/'.join(sorted(ks))}"]
                    continue
                if not x.kinds <= ks:
                    return [f"{path} may hold {'/'.join(sorted(x.kinds - ks))} elements, not {'/'.join(sorted(ks))}"]
            elif isinstance(x, Unk):
                self.unk = True
            elif isinstance(x, (Str,)) or x is NONE:
                return [f"{path} holds {show(x)}"]
            else:
                self.unk = True
        return []


def show(a):
    if a is NONE:
        return "None"
    if isinstance(a, Num):
        k = "/".join(sorted(a.kinds))
        return ("Python " if a.dt == "py" else "NumPy ") + k
    if isinstance(a, Arr):
        return "an array"
    if isinstance(a, Seq):
        return f"a {a.kind}"
    if isinstance(a, SetA):
        return f"a {a.kind}"
    if isinstance(a, Map):
        return "a dict"
    if isinstance(a, Str):
        return "a string"
    if isinstance(a, Obj):
        return f"a {getattr(a.cls, 'name', a.cls)}"
    return type(a).__name__


from ..ops import NOTIMPL as NOTIMPL_


def declared(prog, u, e):
    """(annotation, module, class, where) of the implementing function and of every base operation with the same name"""
    out = []
    ci = getattr(u, "ci", None)
    if ci is None or e.kind == "function":
        node = e.node
        if node is not None and getattr(node, "returns", None) is not None:
            f = prog.public_functions().get(e.member)
            mod = f[0].module if f and hasattr(f[0], "module") else f[1] if f and hasattr(f[1], "tree") else None
            out.append((node.returns, mod, None, e.name))
        return out
    for c in prog.mro(ci):
        if isinstance(c, ClassInfo) and e.member in c.members:
            node = c.members[e.member]
            if isinstance(node, ast.FunctionDef) and node.returns is not None:
                out.append((node.returns, c.module, ci, c.name))
    return out


def check(u, e, counts, notes):
    if e.outcome != "ok" or e.result is None or e.member in ("__eq__", "__init__", "__post_init__"):
        return []
    decs = declared(u.prog, u, e)
    if not decs:
        return []
    counts["results checked"] += 1
    out, unk = [], False
    for ann, mod, cls, where in decs:
        c = Conf(u.prog, mod, cls)
        rs = c.value(e.result, ann, e.st)
        unk |= c.unk
        for r in rs[:1]:
            owner = e.owner or e.name
            node = e.node
            path = "src/komm"
            if cls is not None:
                for k in u.prog.mro(cls):
                    if isinstance(k, ClassInfo) and e.member in k.members:
                        path = k.module.path
                        break
            elif mod is not None:
                path = mod.path
            if os.path.isabs(path):
                path = os.path.relpath(path, REPO)
            out.append(Finding("result-type", shortfunc(str(owner)), f"{e.member}: {ast.unparse(ann)}", f"{path}:{getattr(node, 'lineno', 0)}",
                               f"{e.name} is declared '{ast.unparse(ann)}' in {where}: {r}", entry=e.name))
    if unk:
        counts["undecided in part"] += 1
    elif not out:
        counts["conforming"] += 1
    return out


def job(prog, j):
    kind, a, b = j
    counts = {"entry points": 0, "results checked": 0, "conforming": 0, "undecided in part": 0}
    out, notes = [], []
    if kind == "class" and a in OVER:
        u = build(prog, a, b, OVER[a])
        ents = []
        if u.obj is not None:
            for n, (owner, node) in members_of(prog, u.ci).items():
                specs = spec_for(prog, u.ci, n, node, a) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else None
                for k, d in enumerate(specs if specs is not None else [None]):
                    ents.append(run_member(u, n, owner, node, d, k))
    else:
        u = run_job(prog, j)
        ents = u.entries
    for e in ents:
        counts["entry points"] += 1
        out += check(u, e, counts, notes)
    return {"findings": out, "counts": counts, "funcs": {shortfunc(q) for q in u.I.analysed}, "notes": notes}
