"""Front end for the compiled (Cython) parts: .pyx source -> Python syntax trees.

The file is parsed with Cython's own parser (never compiled or run) and every function is rebuilt as
an `ast.FunctionDef`, with the C declarations kept beside it (`Fn.types`). Address-of becomes a call
of `__addr__`, casts vanish, `with nogil` / `with gil` become `with __nogil__` / `with __gil__`.
"""

import ast
import os
from dataclasses import dataclass, field

from .core import AnalysisError


@dataclass
class CType:
    kind: str  # "view" | "buffer" | "scalar" | "array" | "object" | "cpp"
    name: str = ""
    ndim: int = 0
    length: int | None = None


@dataclass
class Fn:
    name: str
    file: str
    node: ast.FunctionDef
    args: list
    types: dict
    kind: str  # def | cdef | cpdef
    directives: dict = field(default_factory=dict)


class Pyx:
    def __init__(self, file, fns, module, fused, externs):
        self.file, self.fns, self.module, self.fused, self.externs = file, fns, module, fused, externs


def pyx_files(root):
    out = []
    for d, _, fs in os.walk(os.path.join(root, "caput")):
        out += [os.path.relpath(os.path.join(d, f), root) for f in sorted(fs) if f.endswith(".pyx")]
    return sorted(out)


def texts(repo, suffix=".pyx"):
    """{relative path: text} of the files with that suffix."""
    if repo.sources is not None:
        return {k: v for k, v in repo.sources.items() if k.endswith(suffix)}
    out = {}
    for d, dn, fs in os.walk(os.path.join(repo.root, "caput")):
        dn[:] = sorted(x for x in dn if x not in ("__pycache__", "tests"))
        for f in sorted(fs):
            if f.endswith(suffix):
                p = os.path.join(d, f)
                with open(p, encoding="utf8") as fh:
                    out[os.path.relpath(p, repo.root)] = fh.read()
    return out


def load_all(repo):
    return {rel: load_text(rel, t) for rel, t in texts(repo).items()}


def load(root, rel):
    with open(os.path.join(root, rel), encoding="utf-8") as f:
        return load_text(rel, f.read())


def load_text(rel, text):
    try:
        from Cython.Compiler import Errors
        from Cython.Compiler.TreeFragment import StringParseContext, parse_from_strings
    except ImportError as e:  # pragma: no cover
        raise AnalysisError(f"Cython's parser is not available: {e}") from e
    Errors.init_thread()
    import contextlib
    import io

    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            tree = parse_from_strings("m", text, context=StringParseContext("m", cpp=True))
    except Exception as e:
        raise AnalysisError(f"{rel}: cannot be parsed: {e}") from e
    return _Conv(rel).module(tree)


_BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "**": ast.Pow, "<<": ast.LShift,
        ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor, "@": ast.MatMult}
_CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot,
        "in": ast.In, "not_in": ast.NotIn}


class _Conv:
    def __init__(self, rel):
        self.rel = rel
        self.fns = {}
        self.fused = set()
        self.externs = set()
        self.body = []

    # -- helpers ---------------------------------------------------------------
    def at(self, new, node):
        pos = getattr(node, "pos", None)
        new.lineno = pos[1] if pos else 1
        new.col_offset = 0
        new.end_lineno, new.end_col_offset = new.lineno, 0
        return new

    def bad(self, node):
        pos = getattr(node, "pos", None)
        raise AnalysisError(f"{self.rel}:{pos[1] if pos else '?'}: unsupported construct {type(node).__name__}")

    def k(self, node):
        return type(node).__name__

    # -- types -------------------------------------------------------------------
    def ctype(self, base, decl=None):
        t = self._base(base)
        while decl is not None and self.k(decl) != "CNameDeclaratorNode":
            if self.k(decl) == "CArrayDeclaratorNode":
                d = decl.dimension
                n = int(d.value) if d is not None and self.k(d) == "IntNode" else None
                t = CType("array", t.name, 1, n)
            elif self.k(decl) in ("CPtrDeclaratorNode", "CReferenceDeclaratorNode", "CppRvalueReferenceDeclaratorNode"):
                t = CType("array" if self.k(decl) == "CPtrDeclaratorNode" else t.kind, t.name, 1)
            decl = getattr(decl, "base", None)
        return t

    def _base(self, b):
        k = self.k(b)
        if k == "CSimpleBaseTypeNode":
            n = b.name or "object"
            if n in ("object", "ndarray", "tuple", "list", "dict", "str") or (b.module_path and n == "ndarray"):
                return CType("object", n)
            return CType("scalar", n)
        if k == "CComplexBaseTypeNode":
            return self.ctype(b.base_type, b.declarator)
        if k == "MemoryViewSliceTypeNode":
            return CType("view", self._base(b.base_type_node).name, len(b.axes))
        if k == "TemplatedTypeNode":
            n = getattr(b.base_type_node, "name", "")
            if n == "ndarray":
                nd = 1
                for it in (b.keyword_args.key_value_pairs if b.keyword_args is not None else []):
                    if it.key.value == "ndim":
                        nd = int(it.value.value)
                if len(b.positional_args) > 1 and self.k(b.positional_args[1]) == "IntNode":
                    nd = int(b.positional_args[1].value)
                return CType("buffer", n, nd)
            if n == "tuple":
                return CType("object", "tuple")
            return CType("cpp", n)
        if k in ("CTupleBaseTypeNode",):
            return CType("object", "tuple")
        if k in ("CConstTypeNode", "CConstOrVolatileTypeNode", "CQualifiedTypeNode"):
            return self._base(b.base_type)
        return CType("object", k)

    def dname(self, decl):
        while getattr(decl, "name", None) is None and getattr(decl, "base", None) is not None:
            decl = decl.base
        return decl.name

    # -- module ------------------------------------------------------------------
    def module(self, tree):
        self.file_directives = dict(getattr(tree, "directive_comments", None) or {})
        body = self.stats(tree.body, {}, top=True)
        mod = ast.Module(body=body, type_ignores=[])
        return Pyx(self.rel, self.fns, mod, self.fused, self.externs)

    def stats(self, node, types, top=False):
        out = []
        for s in (node.stats if self.k(node) == "StatListNode" else [node]):
            r = self.stat(s, types, top)
            out += r if isinstance(r, list) else [r]
        return out

    def block(self, node, types):
        return self.stats(node, types) or [self.at(ast.Pass(), node)]

    def extern(self, node):
        for d in getattr(node, "declarators", ()):
            self.externs.add(self.dname(d))
        for s in getattr(node, "stats", ()):
            self.extern(s)
        if getattr(node, "body", None) is not None:
            self.extern(node.body)

    def directives(self, decorators):
        out = {}
        for d in decorators or ():
            e = d.decorator
            if self.k(e) in ("SimpleCallNode",) and self.k(e.function) == "AttributeNode" and len(e.args) == 1:
                out[e.function.attribute] = getattr(e.args[0], "value", None)
        return out

    def func(self, node, top_types):
        k = self.k(node)
        types = {}
        if k == "DefNode":
            name, decls, kind = node.name, node.args, "def"
        else:
            d = node.declarator
            while self.k(d) != "CFuncDeclaratorNode":
                d = d.base
            name, decls = self.dname(d), d.args
            kind = "cpdef" if node.overridable else "cdef"
        args, aargs, defaults = [], [], []
        for a in decls:
            n = self.dname(a.declarator)
            ct = self.ctype(a.base_type, a.declarator)
            if not n:  # untyped: the "type" is the name
                n = getattr(a.base_type, "name", None)
                ct = CType("object", "object")
            if k == "DefNode" and self.k(a.base_type) == "CSimpleBaseTypeNode" and a.base_type.name is None:
                ct = CType("object", "object")
            types[n] = ct
            args.append(n)
            aargs.append(self.at(ast.arg(arg=n), a))
            if a.default is not None:
                defaults.append(self.ex(a.default))
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=aargs, kwonlyargs=[], kw_defaults=[], defaults=defaults),
            body=[], decorator_list=[], type_params=[],
        )
        self.at(fn, node)
        f = Fn(name, self.rel, fn, args, types, kind, {**self.file_directives, **self.directives(node.decorators)})
        fn.body = self.block(node.body, types)
        self.fns[name] = f
        return fn

    def stat(self, s, types, top=False):
        k = self.k(s)
        if k == "StatListNode":
            return self.stats(s, types, top)
        if k in ("CImportStatNode", "FromCImportStatNode", "FromImportStatNode", "CStructOrUnionDefNode", "CEnumDefNode", "GlobalNode",
                 "NonlocalNode", "CTypeDefNode", "PassStatNode", "CppClassNode"):
            return [self.at(ast.Pass(), s)] if not top and k == "PassStatNode" else []
        if k == "FusedTypeNode":
            self.fused.add(s.name)
            return []
        if k == "CDefExternNode":
            self.extern(s.body)
            return []
        if k in ("DefNode", "CFuncDefNode"):
            return [self.func(s, types)]
        if k == "CVarDefNode":
            out = []
            for d in s.declarators:
                n = self.dname(d)
                types[n] = self.ctype(s.base_type, d)
                dd = d
                while getattr(dd, "default", None) is None and getattr(dd, "base", None) is not None:
                    dd = dd.base
                if getattr(dd, "default", None) is not None:
                    out.append(self.at(ast.Assign(targets=[self.name(n, s, ast.Store())], value=self.ex(dd.default)), s))
                else:
                    out.append(self.at(ast.Expr(value=self.at(ast.Call(func=self.name("__cdef__", s), args=[self.at(ast.Constant(n), s)], keywords=[]), s)), s))
            return out
        if k == "SingleAssignmentNode":
            return self.at(ast.Assign(targets=[self.ex(s.lhs, ast.Store())], value=self.ex(s.rhs)), s)
        if k == "CascadedAssignmentNode":
            return self.at(ast.Assign(targets=[self.ex(t, ast.Store()) for t in s.lhs_list], value=self.ex(s.rhs)), s)
        if k == "ParallelAssignmentNode":
            lhs = self.at(ast.Tuple(elts=[self.ex(x.lhs, ast.Store()) for x in s.stats], ctx=ast.Store()), s)
            return self.at(ast.Assign(targets=[lhs], value=self.at(ast.Tuple(elts=[self.ex(x.rhs) for x in s.stats], ctx=ast.Load()), s)), s)
        if k == "InPlaceAssignmentNode":
            return self.at(ast.AugAssign(target=self.ex(s.lhs, ast.Store()), op=_BIN[s.operator](), value=self.ex(s.rhs)), s)
        if k == "ExprStatNode":
            return self.at(ast.Expr(value=self.ex(s.expr)), s)
        if k == "IfStatNode":
            orelse = self.block(s.else_clause, types) if s.else_clause is not None else []
            for c in reversed(s.if_clauses):
                n = self.at(ast.If(test=self.ex(c.condition), body=self.block(c.body, types), orelse=orelse), c)
                orelse = [n]
            return orelse[0]
        if k == "WhileStatNode":
            test = self.ex(s.condition) if s.condition is not None else self.at(ast.Constant(True), s)
            return self.at(ast.While(test=test, body=self.block(s.body, types), orelse=self.stats(s.else_clause, types) if s.else_clause else []), s)
        if k == "ForInStatNode":
            return self.at(ast.For(target=self.ex(s.target, ast.Store()), iter=self.ex(s.iterator.sequence), body=self.block(s.body, types),
                                   orelse=self.stats(s.else_clause, types) if s.else_clause else []), s)
        if k == "ForFromStatNode":
            self.bad(s)
        if k in ("GILStatNode",):
            return self.at(ast.With(items=[ast.withitem(context_expr=self.name(f"__{s.state}__", s))], body=self.block(s.body, types)), s)
        if k == "WithStatNode":
            ce = self.ex(s.manager)
            tgt = self.ex(s.target, ast.Store()) if getattr(s, "target", None) is not None else None
            return self.at(ast.With(items=[ast.withitem(context_expr=ce, optional_vars=tgt)], body=self.block(s.body, types)), s)
        if k == "ReturnStatNode":
            return self.at(ast.Return(value=self.ex(s.value) if s.value is not None else None), s)
        if k == "RaiseStatNode":
            return self.at(ast.Raise(exc=self.ex(s.exc_type) if s.exc_type is not None else None, cause=None), s)
        if k == "AssertStatNode":
            c = getattr(s, "condition", None) or getattr(s, "cond", None)
            return self.at(ast.Assert(test=self.ex(c), msg=None), s)
        if k == "BreakStatNode":
            return self.at(ast.Break(), s)
        if k == "ContinueStatNode":
            return self.at(ast.Continue(), s)
        if k == "TryExceptStatNode":
            hs = [self.at(ast.ExceptHandler(type=None, name=None, body=self.block(c.body, types)), c) for c in s.except_clauses]
            return self.at(ast.Try(body=self.block(s.body, types), handlers=hs, orelse=self.stats(s.else_clause, types) if s.else_clause else [], finalbody=[]), s)
        if k == "TryFinallyStatNode":
            return self.at(ast.Try(body=self.block(s.body, types), handlers=[], orelse=[], finalbody=self.block(s.finally_clause, types)), s)
        if k == "DelStatNode":
            return self.at(ast.Pass(), s)
        self.bad(s)

    # -- expressions ---------------------------------------------------------------
    def name(self, n, node, ctx=None):
        return self.at(ast.Name(id=n, ctx=ctx or ast.Load()), node)

    def ex(self, e, ctx=None):
        r = self._ex(e, ctx or ast.Load())
        return self.at(r, e)

    def _ex(self, e, ctx):
        k = self.k(e)
        if k == "NameNode":
            return ast.Name(id=e.name, ctx=ctx)
        if k == "AttributeNode":
            return ast.Attribute(value=self.ex(e.obj), attr=e.attribute, ctx=ctx)
        if k == "IndexNode":
            return ast.Subscript(value=self.ex(e.base), slice=self.ex(e.index), ctx=ctx)
        if k == "SliceIndexNode":
            sl = self.at(ast.Slice(lower=self.opt(e.start), upper=self.opt(e.stop)), e)
            return ast.Subscript(value=self.ex(e.base), slice=sl, ctx=ctx)
        if k == "SliceNode":
            return ast.Slice(lower=self.opt(e.start), upper=self.opt(e.stop), step=self.opt(e.step))
        if k == "EllipsisNode":
            return ast.Constant(Ellipsis)
        if k == "IntNode":
            try:
                v = int(str(e.value), 0)
            except ValueError:
                v = int(str(e.value).rstrip("uUlL"), 0)
            return ast.Constant(v)
        if k == "FloatNode":
            return ast.Constant(float(e.value))
        if k == "BoolNode":
            return ast.Constant(bool(e.value))
        if k == "NoneNode":
            return ast.Constant(None)
        if k in ("UnicodeNode", "StringNode", "IdentifierStringNode", "BytesNode", "CharNode"):
            return ast.Constant(str(e.value))
        if k in ("JoinedStrNode", "FormattedValueNode"):
            return ast.Constant("<fstring>")
        if k in ("TupleNode", "ListNode", "SetNode"):
            els = [self.ex(a, ctx) for a in e.args]
            return ast.Set(elts=els) if k == "SetNode" else (ast.Tuple if k == "TupleNode" else ast.List)(elts=els, ctx=ctx)
        if k == "StarredUnpackingNode":
            return ast.Starred(value=self.ex(e.target), ctx=ctx)
        if k == "DictNode":
            return ast.Dict(keys=[self.ex(i.key) for i in e.key_value_pairs], values=[self.ex(i.value) for i in e.key_value_pairs])
        if k == "SimpleCallNode":
            return ast.Call(func=self.ex(e.function), args=[self.ex(a) for a in e.args], keywords=[])
        if k == "GeneralCallNode":
            pos = e.positional_args
            args = [self.ex(a) for a in pos.args] if self.k(pos) == "TupleNode" else [self.at(ast.Starred(value=self.ex(pos), ctx=ast.Load()), e)]
            kws = []
            if e.keyword_args is not None:
                if self.k(e.keyword_args) == "DictNode":
                    kws = [self.at(ast.keyword(arg=i.key.value, value=self.ex(i.value)), e) for i in e.keyword_args.key_value_pairs]
                else:
                    kws = [self.at(ast.keyword(arg=None, value=self.ex(e.keyword_args)), e)]
            return ast.Call(func=self.ex(e.function), args=args, keywords=kws)
        if k == "PrimaryCmpNode":
            ops, cs = [_CMP[e.operator]()], [self.ex(e.operand2)]
            c = e.cascade
            while c is not None:
                ops.append(_CMP[c.operator]())
                cs.append(self.ex(c.operand2))
                c = c.cascade
            return ast.Compare(left=self.ex(e.operand1), ops=ops, comparators=cs)
        if k == "BoolBinopNode":
            return ast.BoolOp(op=(ast.And if e.operator == "and" else ast.Or)(), values=[self.ex(e.operand1), self.ex(e.operand2)])
        if k == "NotNode":
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(e.operand))
        if k == "UnaryMinusNode":
            return ast.UnaryOp(op=ast.USub(), operand=self.ex(e.operand))
        if k == "UnaryPlusNode":
            return ast.UnaryOp(op=ast.UAdd(), operand=self.ex(e.operand))
        if k == "TildeNode":
            return ast.UnaryOp(op=ast.Invert(), operand=self.ex(e.operand))
        if k == "CondExprNode":
            return ast.IfExp(test=self.ex(getattr(e, "condition", None) or e.test), body=self.ex(e.true_val), orelse=self.ex(e.false_val))
        if k == "TypecastNode":
            return self._ex(e.operand, ctx)
        if k == "AmpersandNode":
            return ast.Call(func=self.name("__addr__", e), args=[self.ex(e.operand)], keywords=[])
        if k == "NewExprNode":
            return ast.Name(id="__new__", ctx=ctx)
        if k == "AssignmentExpressionNode":
            return ast.NamedExpr(target=self.ex(e.lhs, ast.Store()), value=self.ex(e.rhs))
        if k in ("SizeofTypeNode", "SizeofVarNode"):
            return ast.Name(id="__sizeof__", ctx=ctx)
        if k in ("ComprehensionNode", "GeneratorExpressionNode", "InlinedGeneratorExpressionNode", "LambdaNode"):
            return ast.Name(id="__opaque__", ctx=ctx)
        if hasattr(e, "operand1") and hasattr(e, "operand2") and getattr(e, "operator", None) in _BIN:
            return ast.BinOp(left=self.ex(e.operand1), op=_BIN[e.operator](), right=self.ex(e.operand2))
        if k == "ImportNode":
            return ast.Name(id="__import__", ctx=ctx)
        self.bad(e)

    def opt(self, e):
        return None if e is None or self.k(e) == "NoneNode" else self.ex(e)


def with_compiled(repo):
    """A program model that also holds the compiled modules (as converted syntax trees, C types turned into annotations)."""
    import copy

    from .core import Repo

    src = {}
    for m in repo.modules.values():
        src[m.rel] = m.src if getattr(m, "src", "") else m.tree
    for rel, p in load_all(repo).items():
        mod = copy.deepcopy(p.module)
        for st in mod.body:
            if isinstance(st, ast.FunctionDef) and st.name in p.fns:
                for a in st.args.args:
                    t = p.fns[st.name].types.get(a.arg)
                    if t is not None and t.kind in ("scalar", "view", "buffer", "array"):
                        a.annotation = ast.Name(id="float" if t.kind == "scalar" else "ndarray", ctx=ast.Load())
        ast.fix_missing_locations(mod)
        src[rel] = mod
    r = Repo(root=repo.root, pkg=repo.pkg, sources=src)
    return r
