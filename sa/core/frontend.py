"""Source front end: the repository's modules as Python syntax trees.

`.py` files go through `ast`; `.pyx` files go through Cython's own parser and
are translated to the same tree shape (static types kept as annotations), so
that one engine reads both.  Nothing is imported or executed.
"""
import ast
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnchorMissing(Exception):
    """A public name the property is stated about is not in the source."""


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------
# Cython -> ast


def _cy():
    try:
        import Cython  # noqa
    except ImportError:
        for p in ('/opt/venv/lib/python3.12/site-packages',):
            if os.path.isdir(p) and p not in sys.path:
                sys.path.append(p)
    from Cython.Compiler.TreeFragment import parse_from_strings
    return parse_from_strings


class CyConv:
    BIN = {'AddNode': ast.Add, 'SubNode': ast.Sub, 'MulNode': ast.Mult, 'DivNode': ast.Div,
           'ModNode': ast.Mod, 'PowNode': ast.Pow}
    IBIN = {'|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift,
            '+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv,
            '%': ast.Mod, '**': ast.Pow, '@': ast.MatMult}
    CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq,
           'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}

    def __init__(self, fname):
        self.fname = fname

    def loc(self, n, cy):
        p = getattr(cy, 'pos', None)
        n.lineno = p[1] if p else 0
        n.col_offset = p[2] if p else 0
        n.end_lineno = n.lineno
        n.end_col_offset = n.col_offset
        return n

    def tname(self, t):
        if t is None:
            return ''
        k = type(t).__name__
        if k == 'MemoryViewSliceTypeNode':
            return 'memview:' + self.tname(t.base_type_node) + '[' + ','.join(
                ':' if type(a.step).__name__ == 'NoneNode' else '::1' for a in t.axes) + ']'
        if k == 'CSimpleBaseTypeNode':
            mp = '.'.join(list(getattr(t, 'module_path', []) or []) + [t.name or ''])
            return mp
        return getattr(t, 'name', k) or k

    def stmts(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k == 'StatListNode':
            out = []
            for s in n.stats:
                out += self.stmts(s)
            return out
        r = self.stmt(n)
        return r if isinstance(r, list) else [r]

    def body(self, n):
        return self.stmts(n) or [ast.Pass(lineno=0, col_offset=0)]

    def args(self, args, star=None, starstar=None):
        pos, defaults = [], []
        for a in args:
            nm = a.declarator
            while not hasattr(nm, 'name'):
                nm = nm.base
            name = nm.name
            bt = a.base_type
            tn = self.tname(bt)
            if not name:
                # `self` or an untyped argument
                if getattr(bt, 'is_self_arg', False):
                    name = bt.name or 'self'
                else:
                    name = bt.name
                tn = ''
            pos.append(ast.arg(arg=name, annotation=ast.Constant(tn) if tn else None,
                               lineno=a.pos[1], col_offset=0))
            if a.default is not None:
                defaults.append(self.expr(a.default))
        return ast.arguments(posonlyargs=[], args=pos, vararg=None, kwonlyargs=[], kw_defaults=[],
                             kwarg=None, defaults=defaults)

    def stmt(self, n):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('%s:%s: cython statement %s' % (self.fname, n.pos[1], k))
        r = m(n)
        for x in (r if isinstance(r, list) else [r]):
            if not hasattr(x, 'lineno') or k:
                self.loc(x, n) if not getattr(x, 'lineno', 0) else None
        return r

    def s_ModuleNode(self, n):
        return self.stmts(n.body)

    def s_CImportStatNode(self, n):
        return []

    s_FromCImportStatNode = s_CImportStatNode

    def s_CompilerDirectivesNode(self, n):
        return self.stmts(n.body)

    def s_CClassDefNode(self, n):
        c = ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=self.body(n.body),
                         decorator_list=[])
        return self.loc(c, n)

    def s_PyClassDefNode(self, n):
        c = ast.ClassDef(name=n.name, bases=[], keywords=[], body=self.body(n.body), decorator_list=[])
        return self.loc(c, n)

    def s_CVarDefNode(self, n):
        out = []
        tn = self.tname(n.base_type)
        for d in n.declarators:
            nm = d
            while not hasattr(nm, 'name'):
                nm = nm.base
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            default = getattr(d, 'default', None)
            out.append(self.loc(ast.AnnAssign(
                target=ast.Name(id=nm.name, ctx=ast.Store(), lineno=n.pos[1], col_offset=0),
                annotation=ast.Constant('cdef ' + tn + (' public' if n.visibility == 'public' else '')),
                value=self.expr(default) if default is not None else None, simple=1), n))
        return out

    def _fn(self, n, name, args, body, decos):
        f = ast.FunctionDef(name=name, args=args, body=self.body(body), decorator_list=decos,
                            returns=None)
        return self.loc(f, n)

    def s_DefNode(self, n):
        decos = [self.expr(d.decorator) for d in (n.decorators or [])]
        a = self.args(n.args)
        if n.star_arg is not None:
            a.vararg = ast.arg(arg=n.star_arg.name, lineno=n.pos[1], col_offset=0)
        if n.starstar_arg is not None:
            a.kwarg = ast.arg(arg=n.starstar_arg.name, lineno=n.pos[1], col_offset=0)
        return self._fn(n, n.name, a, n.body, decos)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        decos = [self.expr(x.decorator) for x in (n.decorators or [])]
        f = self._fn(n, d.base.name, self.args(d.args), n.body, decos)
        f.cdef = True
        return f

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            nm = n.rhs.module_name.value
            return self.loc(ast.Import(names=[ast.alias(name=nm, asname=n.lhs.name)]), n)
        return self.loc(ast.Assign(targets=[self.target(n.lhs)], value=self.expr(n.rhs)), n)

    def s_FromImportStatNode(self, n):
        return self.loc(ast.ImportFrom(
            module=n.module.module_name.value, level=max(0, n.module.level or 0),
            names=[ast.alias(name=a, asname=t.name) for a, t in n.items]), n)

    def s_CascadedAssignmentNode(self, n):
        return self.loc(ast.Assign(targets=[self.target(x) for x in n.lhs_list],
                                   value=self.expr(n.rhs)), n)

    def s_ParallelAssignmentNode(self, n):
        return self.loc(ast.Assign(
            targets=[ast.Tuple(elts=[self.target(s.lhs) for s in n.stats], ctx=ast.Store())],
            value=ast.Tuple(elts=[self.expr(s.rhs) for s in n.stats], ctx=ast.Load())), n)

    def s_InPlaceAssignmentNode(self, n):
        return self.loc(ast.AugAssign(target=self.target(n.lhs), op=self.IBIN[n.operator](),
                                      value=self.expr(n.rhs)), n)

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause)
        for c in reversed(n.if_clauses):
            i = self.loc(ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=orelse), c)
            orelse = [i]
        return i

    def s_WhileStatNode(self, n):
        return self.loc(ast.While(test=self.expr(n.condition), body=self.body(n.body),
                                  orelse=self.stmts(n.else_clause)), n)

    def s_ForInStatNode(self, n):
        return self.loc(ast.For(target=self.target(n.target), iter=self.expr(n.iterator.sequence),
                                body=self.body(n.body), orelse=self.stmts(n.else_clause)), n)

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_WithStatNode(self, n):
        return self.stmts(n.body)

    def s_TryFinallyStatNode(self, n):
        return self.loc(ast.Try(body=self.body(n.body), handlers=[], orelse=[],
                                finalbody=self.stmts(n.finally_clause)), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            typ = None
            if c.pattern:
                ps = [self.expr(p) for p in c.pattern]
                typ = ps[0] if len(ps) == 1 else ast.Tuple(elts=ps, ctx=ast.Load())
            hs.append(self.loc(ast.ExceptHandler(type=typ, name=c.target.name if c.target else None,
                                                 body=self.body(c.body)), c))
        return self.loc(ast.Try(body=self.body(n.body), handlers=hs,
                                orelse=self.stmts(n.else_clause), finalbody=[]), n)

    def s_RaiseStatNode(self, n):
        return self.loc(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type else None, cause=None), n)

    def s_ReturnStatNode(self, n):
        return self.loc(ast.Return(value=self.expr(n.value) if n.value is not None else None), n)

    def s_ExprStatNode(self, n):
        return self.loc(ast.Expr(value=self.expr(n.expr)), n)

    def s_AssertStatNode(self, n):
        c = getattr(n, 'condition', None) or getattr(n, 'cond', None)
        return self.loc(ast.Assert(test=self.expr(c), msg=None), n)

    def s_DelStatNode(self, n):
        return self.loc(ast.Delete(targets=[self.target(a) for a in n.args]), n)

    def s_BreakStatNode(self, n):
        return self.loc(ast.Break(), n)

    def s_ContinueStatNode(self, n):
        return self.loc(ast.Continue(), n)

    def s_PassStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_PropertyNode(self, n):
        raise Unsupported('property block')

    def target(self, n):
        e = self.expr(n)
        for x in ast.walk(e):
            pass
        e.ctx = ast.Store()
        if isinstance(e, (ast.Tuple, ast.List)):
            for y in e.elts:
                y.ctx = ast.Store()
        return e

    def expr(self, n):
        k = type(n).__name__
        return self.loc(self._expr(n, k), n)

    def _expr(self, n, k):
        L = ast.Load()
        if k in ('NameNode', 'IteratorNode'):
            return ast.Name(id=n.name, ctx=L)
        if k == 'IntNode':
            return ast.Constant(int(str(n.value).rstrip('uUlL'), 0))
        if k == 'FloatNode':
            return ast.Constant(float(n.value))
        if k in ('StringNode', 'UnicodeNode', 'BytesNode', 'IdentifierStringNode'):
            v = getattr(n, 'unicode_value', None)
            return ast.Constant(str(v if v is not None else n.value))
        if k == 'NoneNode':
            return ast.Constant(None)
        if k == 'BoolNode':
            return ast.Constant(bool(n.value))
        if k == 'AttributeNode':
            return ast.Attribute(value=self.expr(n.obj), attr=n.attribute, ctx=L)
        if k == 'IndexNode':
            return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=L)
        if k == 'SliceIndexNode':
            return ast.Subscript(value=self.expr(n.base), slice=ast.Slice(
                lower=self.expr(n.start) if n.start is not None else None,
                upper=self.expr(n.stop) if n.stop is not None else None, step=None), ctx=L)
        if k == 'SliceNode':
            f = lambda x: None if type(x).__name__ == 'NoneNode' else self.expr(x)
            return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))
        if k == 'SimpleCallNode':
            return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args],
                            keywords=[])
        if k == 'GeneralCallNode':
            p = n.positional_args
            args = []
            while type(p).__name__ == 'AddNode':
                raise Unsupported('star-args concat')
            if type(p).__name__ == 'AsTupleNode':
                args = [ast.Starred(value=self.expr(p.arg), ctx=L)]
            else:
                args = [self.expr(a) for a in p.args]
            kws = []
            kw = n.keyword_args
            parts = [] if kw is None else (kw.keyword_args if type(kw).__name__ == 'MergedDictNode' else [kw])
            for d in parts:
                if type(d).__name__ == 'DictNode':
                    for it in d.key_value_pairs:
                        kws.append(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)))
                else:
                    kws.append(ast.keyword(arg=None, value=self.expr(d)))
            return ast.Call(func=self.expr(n.function), args=args, keywords=kws)
        if hasattr(n, 'operand1') and hasattr(n, 'operand2') and k != 'PrimaryCmpNode':
            a, b = self.expr(n.operand1), self.expr(n.operand2)
            if k == 'BoolBinopNode':
                op = ast.And() if n.operator == 'and' else ast.Or()
                return ast.BoolOp(op=op, values=[a, b])
            return ast.BinOp(left=a, op=self.IBIN[n.operator](), right=b)
        if k == 'PrimaryCmpNode':
            ops, comps = [self.CMP[n.operator]()], [self.expr(n.operand2)]
            c = n.cascade
            while c is not None:
                ops.append(self.CMP[c.operator]())
                comps.append(self.expr(c.operand2))
                c = c.cascade
            return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)
        if k == 'NotNode':
            return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))
        if k == 'UnaryMinusNode':
            return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))
        if k == 'UnaryPlusNode':
            return self.expr(n.operand)
        if k == 'TildeNode':
            return ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand))
        if k == 'CondExprNode':
            return ast.IfExp(test=self.expr(n.test if hasattr(n, 'test') else n.condition),
                             body=self.expr(n.true_val), orelse=self.expr(n.false_val))
        if k == 'TupleNode':
            return ast.Tuple(elts=[self.expr(a) for a in n.args], ctx=L)
        if k == 'ListNode':
            return ast.List(elts=[self.expr(a) for a in n.args], ctx=L)
        if k == 'SetNode':
            return ast.Set(elts=[self.expr(a) for a in n.args])
        if k == 'DictNode':
            return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                            values=[self.expr(i.value) for i in n.key_value_pairs])
        if k == 'ComprehensionNode':
            gens = []
            node = n.loop
            while True:
                t = type(node).__name__
                if t == 'ForInStatNode':
                    gens.append(ast.comprehension(target=self.target(node.target),
                                                  iter=self.expr(node.iterator.sequence), ifs=[],
                                                  is_async=0))
                    node = node.body
                elif t == 'IfStatNode':
                    gens[-1].ifs.append(self.expr(node.if_clauses[0].condition))
                    node = node.if_clauses[0].body
                elif t == 'StatListNode' and len(node.stats) == 1:
                    node = node.stats[0]
                elif t == 'ComprehensionAppendNode':
                    return ast.ListComp(elt=self.expr(node.expr), generators=gens)
                else:
                    raise Unsupported('comprehension part ' + t)
        if k == 'TypecastNode':
            return self.expr(n.operand)
        if k == 'LambdaNode':
            return ast.Lambda(args=self.args(n.args), body=self.expr(n.result_expr))
        raise Unsupported('%s:%s: cython expression %s' % (self.fname, n.pos[1], k))


def parse_pyx(path, src):
    tree = _cy()(os.path.basename(path)[:-4], src)
    conv = CyConv(path)
    m = ast.Module(body=conv.stmts(tree), type_ignores=[])
    ast.fix_missing_locations(m)
    return m


# --------------------------------------------------------------------------
# modules


class Module:
    def __init__(self, name, path, tree, is_cy, is_pkg):
        self.name, self.path, self.tree = name, path, tree
        self.is_cy, self.is_pkg = is_cy, is_pkg
        self.rel = os.path.relpath(path, REPO)
        self.names = {}       # top-level bindings: name -> list of nodes in order
        self.stars = []
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.names[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.names[n.id] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    self.names[s.target.id] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                mod = self._abs(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(s, ast.Try):
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.body)
                self._scan(s.orelse)
                self._scan(s.finalbody)
            elif isinstance(s, (ast.If, ast.With)):
                self._scan(getattr(s, 'orelse', []))
                self._scan(s.body)

    def _abs(self, s):
        if not s.level:
            return s.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))


class Program:
    """All modules of the package, loaded on demand from the working tree."""

    def __init__(self, repo=REPO, rename=True):
        self.repo = repo
        self.mods = {}
        self.parsed = {}
        self.renamed = {}
        if rename:
            from .renames import renames, Rename
            self.renamed = renames(self.trees())
            if self.renamed:
                for t in self.parsed.values():
                    Rename(self.renamed).visit(t)

    def parse(self, path):
        if path not in self.parsed:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.parsed[path] = parse_pyx(path, src) if path.endswith('.pyx') else ast.parse(src, path)
        return self.parsed[path]

    def trees(self):
        out = {}
        for p in self.files():
            try:
                out[os.path.relpath(p, self.repo)] = self.parse(p)
            except (Unsupported, SyntaxError):
                pass                # reported where it is analysed
        return out

    def files(self):
        for d, _, fs in sorted(os.walk(os.path.join(self.repo, 'queueing_tool'))):
            for f in sorted(fs):
                if f.endswith(('.py', '.pyx')) and f != '_pairwise.pyx':
                    yield os.path.join(d, f)

    def find(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for cand, cy, pkg in ((os.path.join(base, '__init__.py'), False, True),
                              (base + '.py', False, False), (base + '.pyx', True, False)):
            if os.path.isfile(cand):
                return cand, cy, pkg
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name) if name and name.split('.')[0] == 'queueing_tool' else None
        m = None
        if f:
            path, cy, pkg = f
            m = Module(name, path, self.parse(path), cy, pkg)
        self.mods[name] = m
        return m

    def all_modules(self):
        out = []
        for p in self.files():
            name = os.path.relpath(p, self.repo).rsplit('.', 1)[0].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            m = self.module(name)
            if m:
                out.append(m)
        return out
