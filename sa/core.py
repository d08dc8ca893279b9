"""Program model of the analysed repository: modules, imports, classes, functions.

Nothing in here imports or executes the analysed code; everything is derived
from the source text of the working tree by parsing it.
"""

from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "caput"


class AnalysisError(Exception):
    """An anchor the analysis needs has disappeared, or a file cannot be parsed."""


@dataclass(eq=False)
class FuncInfo:
    name: str
    qualname: str  # dotted, module included
    node: ast.AST
    module: "Module"
    cls: "ClassInfo | None" = None
    parent: "FuncInfo | None" = None
    decorators: list[str] = field(default_factory=list)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(
            d in ("property", "cached_property", "functools.cached_property")
            for d in self.decorators
        )

    @property
    def is_overload(self):
        return any(d.split(".")[-1] == "overload" for d in self.decorators)

    @property
    def is_method(self):
        return self.cls is not None and self.parent is None

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def all_params(self):
        a = self.node.args
        out = self.params()
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def bound_params(self):
        """Parameters as seen by a caller through an instance / class."""
        p = self.params()
        if self.is_method and not self.is_static and p:
            return p[1:]
        return p

    def short(self):
        return self.qualname[len(PKG) + 1 :] if self.qualname.startswith(PKG + ".") else self.qualname

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.rel}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qualname}>"


@dataclass(eq=False)
class ClassInfo:
    name: str
    qualname: str
    node: ast.ClassDef
    module: "Module"
    bases: list = field(default_factory=list)  # ClassInfo or str (external)
    methods: dict = field(default_factory=dict)  # name -> FuncInfo (last def)
    setters: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)  # class level assignments name -> value node
    subclasses: list = field(default_factory=list)
    parent_func: "FuncInfo | None" = None

    def mro(self):
        try:
            return _c3(self)
        except RecursionError:  # pragma: no cover
            return [self]

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def lookup_after(self, cls, name):
        """Method resolution for super() called inside `cls`, for instances of self."""
        m = self.mro()
        if cls in m:
            m = m[m.index(cls) + 1 :]
        for c in m:
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def all_subclasses(self):
        out, stack = [], list(self.subclasses)
        while stack:
            c = stack.pop()
            if c not in out:
                out.append(c)
                stack += c.subclasses
        return out

    def is_subclass_of(self, other_qual):
        return any(
            (c.qualname if isinstance(c, ClassInfo) else c) == other_qual
            for c in self.mro()
        )

    def __repr__(self):
        return f"<Class {self.qualname}>"


def _c3(cls):
    def merge(seqs):
        out = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
                elif h in s:
                    s.remove(h)

    parents = []
    for b in cls.bases:
        parents.append(_c3(b) if isinstance(b, ClassInfo) else [b])
    return [cls] + merge([list(p) for p in parents] + [list(cls.bases)])


@dataclass(eq=False)
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    source: str
    is_pkg: bool = False
    imports: dict = field(default_factory=dict)  # local -> ('mod', dotted) | ('obj', dotted, name)
    type_only: set = field(default_factory=set)  # names only bound under TYPE_CHECKING
    funcs: dict = field(default_factory=dict)  # top level name -> FuncInfo
    classes: dict = field(default_factory=dict)  # top level name -> ClassInfo
    globals: dict = field(default_factory=dict)  # top level assigned name -> value node
    all_funcs: list = field(default_factory=list)
    all_classes: list = field(default_factory=list)

    def __repr__(self):
        return f"<Module {self.name}>"


def dotted(node):
    """Dotted name of a Name/Attribute chain or None."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


def is_type_checking(test):
    d = dotted(test)
    return d in ("TYPE_CHECKING", "typing.TYPE_CHECKING")


class Repo:
    def __init__(self, root=None, pkg=PKG, sources=None):
        self.sources = sources  # {relative path: text}: an in-memory tree (positive examples)
        self.root = root or REPO
        self.pkg = pkg
        self.modules: dict[str, Module] = {}
        self.functions: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.methods_by_name: dict[str, list[FuncInfo]] = {}
        self.func_of_node: dict[ast.AST, FuncInfo] = {}
        self.parents: dict[ast.AST, ast.AST] = {}
        self._load()

    # -- loading -----------------------------------------------------------
    def _files(self):
        if self.sources is not None:
            yield from self.sources.items()
            return
        base = os.path.join(self.root, self.pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("__pycache__", "tests"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                with open(path, encoding="utf8") as fh:
                    yield os.path.relpath(path, self.root), fh.read()

    def _load(self):
        for rel, src in self._files():
            modname = os.path.splitext(rel)[0].replace(os.sep, ".")
            is_pkg = False
            if modname.endswith(".__init__"):
                modname = modname[: -len(".__init__")]
                is_pkg = True
            try:
                tree, src = (src, "") if isinstance(src, ast.Module) else (ast.parse(src, filename=rel), src)
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {rel}: {e}") from e
            self.modules[modname] = Module(modname, os.path.join(self.root, rel), rel, tree, src, is_pkg)
        for m in self.modules.values():
            self._index(m)
        for c in list(self.classes.values()):
            self._link_bases(c)

    def _index(self, m: Module):
        for p in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(p):
                self.parents[ch] = p
        self._index_block(m, m.tree.body, None, None, m.name, top=True)

    def _import(self, m, node, table):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    table[a.asname] = ("mod", a.name)
                else:
                    table[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            base = node.module or ""
            if node.level:
                parts = m.name.split(".")
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (node.level - 1)]
                base = ".".join(parts + ([node.module] if node.module else []))
            for a in node.names:
                if a.name == "*":
                    table.setdefault("*", [])
                    table["*"].append(base)
                else:
                    table[a.asname or a.name] = ("obj", base, a.name)

    def _index_block(self, m, body, cls, func, prefix, top=False, type_only=False):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                if top and cls is None:
                    before = set(m.imports)
                    self._import(m, st, m.imports)
                    if type_only:
                        m.type_only |= set(m.imports) - before
                    else:
                        for a in st.names:
                            m.type_only.discard(a.asname or a.name.split(".")[0])
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, st, cls, func, prefix, top)
            elif isinstance(st, ast.ClassDef):
                self._add_class(m, st, func, prefix, top)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)) :
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            if cls is not None:
                                cls.attrs[n.id] = st.value
                            elif top:
                                m.globals[n.id] = st.value
            else:
                to = type_only or (isinstance(st, ast.If) and is_type_checking(st.test))
                for f in ("body", "orelse", "finalbody"):
                    sub = getattr(st, f, None)
                    if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                        self._index_block(
                            m, sub, cls, func, prefix, top, to and f == "body"
                        )
                for h in getattr(st, "handlers", []):
                    self._index_block(m, h.body, cls, func, prefix, top, type_only)

    def _add_func(self, m, st, cls, func, prefix, top):
        decs = []
        for d in st.decorator_list:
            dd = dotted(d.func if isinstance(d, ast.Call) else d)
            decs.append(dd or "?")
        q = f"{prefix}.{st.name}"
        fi = FuncInfo(st.name, q, st, m, cls, func, decs)
        if any(d.split(".")[-1] in ("setter", "deleter") for d in decs):
            if cls is not None:
                cls.setters[st.name] = fi
            q = q + "@" + decs[-1].split(".")[-1]
            fi.qualname = q
        elif fi.is_overload:
            fi.qualname = q + "@overload"
        else:
            if cls is not None and func is None or (cls is not None and top is False and func is not None):
                pass
            if cls is not None:
                cls.methods[st.name] = fi
            elif top:
                m.funcs[st.name] = fi
            self.functions[q] = fi
            if cls is not None:
                self.methods_by_name.setdefault(st.name, []).append(fi)
        m.all_funcs.append(fi)
        self.func_of_node[st] = fi
        # nested definitions
        self._index_block(m, st.body, None, fi, fi.qualname + ".<locals>")

    def _add_class(self, m, st, func, prefix, top):
        q = f"{prefix}.{st.name}"
        ci = ClassInfo(st.name, q, st, m, parent_func=func)
        if top and func is None:
            m.classes[st.name] = ci
        self.classes[q] = ci
        m.all_classes.append(ci)
        self._index_block(m, st.body, ci, None, q)

    def _link_bases(self, c: ClassInfo):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.resolve_expr(b, c.module)
            if isinstance(r, ClassInfo):
                c.bases.append(r)
                r.subclasses.append(c)
            else:
                c.bases.append(r if isinstance(r, str) else (dotted(b) or "?"))

    # -- resolution --------------------------------------------------------
    def resolve_dotted(self, dotted_name, _seen=None):
        """Resolve an absolute dotted name to Module/FuncInfo/ClassInfo/('global',..)/str."""
        _seen = _seen or set()
        if dotted_name in _seen:
            return dotted_name
        _seen.add(dotted_name)
        if dotted_name in self.modules:
            return self.modules[dotted_name]
        if "." not in dotted_name:
            return dotted_name
        base, name = dotted_name.rsplit(".", 1)
        b = self.resolve_dotted(base, _seen)
        if isinstance(b, Module):
            return self.resolve_in_module(b, name, _seen)
        if isinstance(b, ClassInfo):
            f = b.lookup(name)
            return f if f is not None else dotted_name
        if isinstance(b, str):
            return b + "." + name
        return dotted_name

    def resolve_in_module(self, m: Module, name, _seen=None):
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports and name != "*":
            imp = m.imports[name]
            if imp[0] == "mod":
                return self.resolve_dotted(imp[1], _seen)
            return self.resolve_dotted(f"{imp[1]}.{imp[2]}", _seen)
        if name in m.globals:
            v = m.globals[name]
            # simple aliases of functions / classes
            d = dotted(v) if v is not None else None
            if d:
                r = self.resolve_expr(v, m, _seen=_seen)
                if isinstance(r, (FuncInfo, ClassInfo, Module)):
                    return r
            return f"{m.name}.{name}"
        sub = f"{m.name}.{name}"
        if sub in self.modules:
            return self.modules[sub]
        for star in m.imports.get("*", []) or []:
            sm = self.modules.get(star)
            if sm is not None:
                r = self.resolve_in_module(sm, name, _seen)
                if not isinstance(r, str):
                    return r
        return f"{m.name}.{name}"

    def local_imports(self, func: FuncInfo):
        """Import bindings made inside a function (and its enclosing functions)."""
        key = "_limp"
        if hasattr(func, key):
            return getattr(func, key)
        table = {}
        if func.parent is not None:
            table.update(self.local_imports(func.parent))
        for n in walk_scope(func.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._import(func.module, n, table)
        setattr(func, key, table)
        return table

    def _nested_defs(self, f):
        t = getattr(f, "_ndefs", None)
        if t is None:
            t = {
                n.name: self.func_of_node[n]
                for n in walk_scope(f.node)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n in self.func_of_node
            }
            f._ndefs = t
        return t

    def resolve_expr(self, node, module: Module, func: FuncInfo | None = None, _seen=None):
        """Resolve a Name/Attribute chain (no local variables) statically."""
        d = dotted(node)
        if d is None:
            return None
        head, *rest = d.split(".")
        r = None
        f = func
        while f is not None and r is None:
            r = self._nested_defs(f).get(head)
            f = f.parent
        if r is None and func is not None:
            li = self.local_imports(func)
            if head in li:
                imp = li[head]
                r = self.resolve_dotted(
                    imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}", _seen
                )
        if r is None:
            if (
                head in module.funcs
                or head in module.classes
                or head in module.imports
                or head in module.globals
                or module.imports.get("*")
            ):
                r = self.resolve_in_module(module, head, _seen)
                if r == f"{module.name}.{head}" and not (
                    head in module.globals or head in module.imports
                ):
                    r = head
            else:
                r = head
        for part in rest:
            if isinstance(r, Module):
                r = self.resolve_in_module(r, part, _seen)
            elif isinstance(r, ClassInfo):
                nxt = r.lookup(part)
                r = nxt if nxt is not None else f"{r.qualname}.{part}"
            elif isinstance(r, str):
                r = f"{r}.{part}"
            elif isinstance(r, FuncInfo):
                r = f"{r.qualname}.{part}"
            else:
                return None
        return r

    # -- convenience -------------------------------------------------------
    def cls(self, dotted_name) -> ClassInfo:
        r = self.resolve_dotted(dotted_name)
        if not isinstance(r, ClassInfo):
            raise AnalysisError(f"anchor class {dotted_name} not found")
        return r

    def try_cls(self, dotted_name):
        try:
            return self.cls(dotted_name)
        except AnalysisError:
            return None

    def func(self, dotted_name) -> FuncInfo:
        r = self.resolve_dotted(dotted_name)
        if not isinstance(r, FuncInfo):
            raise AnalysisError(f"anchor function {dotted_name} not found")
        return r

    def all_functions(self):
        for m in self.modules.values():
            for f in m.all_funcs:
                if not f.is_overload:
                    yield f


def walk_scope(node):
    """Walk a function (or module/lambda) without entering nested functions/classes.

    Nested function and class definition nodes themselves are yielded.
    """
    stack = list(ast.iter_child_nodes(node))
    # do not include decorators / defaults of the function itself? they are evaluated outside,
    # but harmless for the uses made here.
    while stack:
        n = stack.pop()
        yield n
        if isinstance(
            n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
        ):
            continue
        stack.extend(ast.iter_child_nodes(n))


def enclosing_class(func: FuncInfo):
    f = func
    while f is not None:
        if f.cls is not None:
            return f.cls
        f = f.parent
    return None


def outer_method(func: FuncInfo):
    f = func
    while f.parent is not None:
        f = f.parent
    return f
