"""Program model: modules, classes (with C3 MRO), functions of /repo/src/komm, from the AST only."""
import ast
import os


class AnalysisBroken(Exception):
    """The analysis lost an anchor or hit an internal inconsistency: no answer."""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.bindings = {}      # name -> list of binder nodes (top level, in order)

    def __repr__(self):
        return f"<mod {self.name}>"


class ClassInfo:
    def __init__(self, name, module, node, outer=None):
        self.name, self.module, self.node, self.outer = name, module, node, outer
        self.members = {}       # name -> ast node (FunctionDef or Assign/AnnAssign value holder)
        self.fields = []        # dataclass-style annotated fields: (name, ann, default-expr|None)
        self.bases = []         # ClassInfo or str (external dotted)
        self._mro = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.members[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.members[t.id] = st
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.members[e.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann = ast.unparse(st.annotation)
                if not ann.startswith(("ClassVar", "typing.ClassVar")):
                    self.fields.append((st.target.id, st.annotation, st.value))
                if st.value is not None:
                    self.members[st.target.id] = st

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def __repr__(self):
        return f"<class {self.qual}>"


class Program:
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        self.modules = {}
        pkg = os.path.join(self.src, "komm")
        if not os.path.isdir(pkg):
            raise AnalysisBroken("src/komm not found")
        for d, dirs, files in sorted(os.walk(pkg)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[:-9] if is_pkg else rel
                with open(p, encoding="utf-8") as fh:
                    text = fh.read()
                try:
                    tree = ast.parse(text, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {p}: {e}")
                self.modules[name] = Module(name, os.path.relpath(p, root), tree, is_pkg)
        self.classes = {}
        for m in self.modules.values():
            self._index(m)
        self._func_owner = {}
        self._cls_cache = {}

    # --- indexing
    def _index(self, m):
        def walk(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    m.bindings.setdefault(st.name, []).append(st)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        m.bindings.setdefault(a.asname or a.name.split(".")[0], []).append((st, a))
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        m.bindings.setdefault(a.asname or a.name, []).append((st, a))
                elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.bindings.setdefault(n.id, []).append(st)
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for field in ("body", "orelse", "finalbody"):
                        walk(getattr(st, field, []) or [])
                    for h in getattr(st, "handlers", []) or []:
                        walk(h.body)
                    if isinstance(st, ast.For):
                        for n in ast.walk(st.target):
                            if isinstance(n, ast.Name):
                                m.bindings.setdefault(n.id, []).append(st)
                elif isinstance(st, ast.TypeAlias if hasattr(ast, "TypeAlias") else ()):
                    m.bindings.setdefault(st.name.id, []).append(st)
        walk(m.tree.body)

    def abs_import(self, m, level, modname):
        if level == 0:
            return modname or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        if modname:
            parts += modname.split(".")
        return ".".join(parts)

    def resolve_import(self, m, st, alias):
        """-> ('module', Module) | ('name', Module, name) | ('ext', dotted)"""
        if isinstance(st, ast.Import):
            full = alias.name
            if alias.asname is None:
                full = alias.name.split(".")[0]
            if full in self.modules:
                return ("module", self.modules[full])
            return ("ext", full)
        base = self.abs_import(m, st.level, st.module)
        sub = f"{base}.{alias.name}"
        if base in self.modules:
            bm = self.modules[base]
            if alias.name in bm.bindings and bm is not m:
                return ("name", bm, alias.name)
            if sub in self.modules:
                return ("module", self.modules[sub])
            if alias.name in bm.bindings:
                return ("name", bm, alias.name)
            return ("ext", sub)
        if sub in self.modules:
            return ("module", self.modules[sub])
        return ("ext", sub)

    def lookup(self, m, name, seen=None):
        """Static resolution of a module-level name to its last binder.
        -> ('class', ClassInfo)|('func', Module, node)|('module', Module)|('ext', dotted)|('var', Module, name)|None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        bs = m.bindings.get(name)
        if not bs:
            # star imports
            for st in m.tree.body:
                if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                    base = self.abs_import(m, st.level, st.module)
                    if base in self.modules:
                        r = self.lookup(self.modules[base], name, seen)
                        if r:
                            return r
            return None
        b = bs[-1]
        if isinstance(b, ast.ClassDef):
            return ("class", self.class_of(m, b))
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ("func", m, b)
        if isinstance(b, tuple):
            r = self.resolve_import(m, *b)
            if r[0] == "name":
                return self.lookup(r[1], r[2], seen)
            return r
        return ("var", m, name)

    def class_of(self, m, node):
        key = id(node)
        if key not in self._cls_cache:
            ci = ClassInfo(node.name, m, node)
            self._cls_cache[key] = ci
            self.classes[ci.qual] = ci
            for b in node.bases:
                ci.bases.append(self._resolve_base(m, b))
        return self._cls_cache[key]

    def _resolve_base(self, m, b):
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            r = self.lookup(m, b.id)
            if r and r[0] == "class":
                return r[1]
            if r and r[0] == "ext":
                return r[1]
            return b.id
        if isinstance(b, ast.Attribute):
            parts = []
            x = b
            while isinstance(x, ast.Attribute):
                parts.insert(0, x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                r = self.lookup(m, x.id)
                while r and r[0] == "module" and parts:
                    nm = parts.pop(0)
                    r2 = self.lookup(r[1], nm)
                    if r2 is None and f"{r[1].name}.{nm}" in self.modules:
                        r2 = ("module", self.modules[f"{r[1].name}.{nm}"])
                    r = r2
                if r and r[0] == "class" and not parts:
                    return r[1]
                if r and r[0] == "ext":
                    return ".".join([r[1]] + parts)
        return ast.unparse(b)

    def mro(self, ci):
        if ci._mro is None:
            seqs = [list(self.mro(b)) if isinstance(b, ClassInfo) else [b] for b in ci.bases]
            seqs.append(list(ci.bases))
            out = [ci]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and s[0] == c:
                        s.pop(0)
                    elif c in s:
                        s.remove(c)
            ci._mro = out
        return ci._mro

    def find_member(self, ci, name, after=None):
        """(owner ClassInfo, node) following the MRO; `after` starts behind that class (super())."""
        mro = self.mro(ci)
        start = 0
        if after is not None:
            start = mro.index(after) + 1 if after in mro else len(mro)
        for c in mro[start:]:
            if isinstance(c, ClassInfo) and name in c.members:
                return c, c.members[name]
        return None

    def all_classes(self):
        for m in self.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.ClassDef):
                    yield self.class_of(m, st)

    def public_classes(self):
        """Name -> ClassInfo exported by the package root."""
        root = self.modules.get("komm")
        out = {}
        if root is None:
            raise AnalysisBroken("komm/__init__.py not found")
        for name in sorted(root.bindings):
            if name.startswith("_"):
                continue
            r = self.lookup(root, name)
            if r and r[0] == "class":
                out[name] = r[1]
        return out

    def public_functions(self):
        root = self.modules["komm"]
        out = {}
        for name in sorted(root.bindings):
            if name.startswith("_"):
                continue
            r = self.lookup(root, name)
            if r and r[0] == "func":
                out[name] = r
        return out
