"""Nothing that outlives an object is changed in place (C25).

An alias analysis over the syntax trees of the whole package.  Roots are the mutable objects that exist once: values of
class bodies and module bodies, default values of parameters, results of caching decorators, and elements that one
expression repeats (``[[]] * n``).  A value is a set of (root, level, depth): the object at nesting ``depth`` of the root,
inside ``level`` containers made since.  Names are tracked flow-sensitively with joins, attributes by name, parameters
and results over all resolved calls, to a fixpoint.  Every construct that changes an object in place is an obligation.
"""
from .common import *  # noqa
from ..core.frontend import AnchorMissing

P = 'C25'
RULE = 'no object that outlives an instance is changed in place'
STATIC = 'no class or module attribute is rebound at run time'
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard',
            'popitem', 'setdefault', 'appendleft', 'popleft', 'extendleft', 'rotate', 'fill', 'put', 'resize', 'itemset',
            'partition', 'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__',
            '__delitem__', 'setflags', 'subtract', 'move_to_end'}
FIRST = {'heappush', 'heappop', 'heapify', 'heappushpop', 'heapreplace', 'insort', 'insort_left', 'insort_right',
         'shuffle', 'copyto', 'put', 'fill_diagonal', 'setattr', 'delattr', 'place', 'putmask'}
COPIES = {'dict', 'list', 'set', 'sorted', 'tuple', 'frozenset', 'deque', 'OrderedDict', 'defaultdict', 'Counter', 'iter',
          'reversed', 'filter', 'array', 'asarray'}
NEW = {'dict', 'list', 'set', 'deque', 'OrderedDict', 'Counter', 'bytearray', 'array', 'zeros', 'ones', 'empty', 'full',
       'arange', 'eye', 'identity', 'zeros_like', 'ones_like', 'WeakKeyDictionary', 'WeakValueDictionary', 'local',
       'SimpleNamespace', 'count', 'cycle'}
CACHED = {'lru_cache', 'cache', 'cached_property'}
NONE = frozenset()
CAP = 4


class Root(object):
    def __init__(self, kind, name, where, struct):
        self.kind, self.name, self.where, self.struct = kind, name, where, tuple(struct)

    def __repr__(self):
        return '%s %s' % (self.kind, self.name)


def last(node):
    if isinstance(node, ast.Attribute):
        return node.attr
    return node.id if isinstance(node, ast.Name) else None


def struct(e, classes):
    """Which nesting levels of the object an expression makes are mutable; () for immutable ones."""
    def merge(items):
        out = []
        for s in items:
            for i, m in enumerate(s):
                if i < len(out):
                    out[i] = out[i] or m
                else:
                    out.append(m)
        return out

    def trim(s):
        while s and not s[-1]:
            s = s[:-1]
        return list(s)
    if isinstance(e, (ast.List, ast.Set)):
        return trim([True] + merge([struct(x, classes) for x in e.elts]))
    if isinstance(e, ast.Tuple):
        return trim([False] + merge([struct(x, classes) for x in e.elts]))
    if isinstance(e, ast.Dict):
        return trim([True] + merge([struct(x, classes) for x in e.values]))
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return [True] + struct(e.elt, classes)
    if isinstance(e, ast.DictComp):
        return [True] + struct(e.value, classes)
    if isinstance(e, ast.IfExp):
        return trim(merge([struct(e.body, classes), struct(e.orelse, classes)]))
    if isinstance(e, ast.BoolOp):
        return trim(merge([struct(x, classes) for x in e.values]))
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add)):
        return trim(merge([struct(e.left, classes), struct(e.right, classes)]))
    if isinstance(e, ast.Starred):
        return struct(e.value, classes)[1:]
    if isinstance(e, ast.Call):
        n = last(e.func)
        if n == 'defaultdict':
            f = last(e.args[0]) if e.args else None
            return [True, True] if f in NEW or f in classes or f == 'defaultdict' else [True]
        if n in NEW:
            if n == 'fromkeys':
                return [True]
            return [True] + (struct(e.args[0], classes)[1:] if e.args else merge(
                [struct(k.value, classes) for k in e.keywords]) if n == 'dict' else [])
        if n == 'fromkeys' and isinstance(e.func, ast.Attribute):
            return [True] + (struct(e.args[1], classes) if len(e.args) > 1 else [])
        if n in classes:
            return ['object']
    return []


class Shared(object):
    def __init__(self, prog):
        self.prog = prog
        self.mods = prog.all_modules()
        self.ob = Obligations()
        self.classes, self.fns, self.methods = {}, [], {}
        self.static = {}        # class attribute -> roots
        self.glob = {}          # (module, name) -> roots
        self.attrs, self.params, self.rets = {}, {}, {}
        self.shadow = {}
        self.keys = {}
        self.report = False
        self.changed = False
        self.sites = 0
        self.collect()

    # -- what there is
    def collect(self):
        for m in self.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes.setdefault(n.name, []).append((m, n))
        for m in self.mods:
            self.scan(m, m.tree.body, None, False)
        for name, defs in self.classes.items():
            for m, c in defs:
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name == '__init__':
                        for s in f.body:
                            for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                                    if isinstance(x, ast.Attribute) and last(x.value) == 'self':
                                        self.shadow.setdefault(x.attr, set()).add(name)

    def scan(self, m, body, cls, cond):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.function(m, s, cls)
            elif isinstance(s, ast.ClassDef):
                self.scan(m, s.body, s, False)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is None:
                    continue
                st = struct(s.value, self.classes)
                if not st:
                    continue
                for t in ts:
                    if isinstance(t, ast.Name) and t.id not in ('__all__', '__slots__'):
                        nm = '%s.%s' % (cls.name if cls else m.name, t.id)
                        r = Root('class attribute' if cls else 'module variable', nm, '%s:%s' % (m.rel, s.lineno), st)
                        if cls:
                            self.static.setdefault(t.id, []).append((cls.name, r))
                        else:
                            self.glob[(m.name, t.id)] = r
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ('body', 'orelse', 'finalbody'):
                    self.scan(m, getattr(s, part, []), cls, True)
                for h in getattr(s, 'handlers', []):
                    self.scan(m, h.body, cls, True)

    def function(self, m, f, cls, outer=None):
        self.fns.append((m, f, cls, outer))
        a = f.args
        pos = a.posonlyargs + a.args
        both = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in both:
            st = struct(d, self.classes)
            if st:
                r = Root('default value', '%s(%s=...)' % (f.name, x.arg), '%s:%s' % (m.rel, d.lineno), st)
                self.params[(id(f), x.arg)] = frozenset([(r, 0, 0)])
        if cls:
            self.methods.setdefault(f.name, []).append((m, f, cls))
        for d in f.decorator_list:
            if last(d.func if isinstance(d, ast.Call) else d) in CACHED:
                self.rets[id(f)] = frozenset([(Root('cached result', f.name, '%s:%s' % (m.rel, f.lineno), [True, True]), 0, 0)])
        for n in self.inner(f):
            self.function(m, n, None, f)

    def inner(self, f):
        out, stack = [], list(f.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.FunctionDef):
                out.append(n)
            elif not isinstance(n, (ast.ClassDef, ast.Lambda)):
                stack += list(ast.iter_child_nodes(n))
        return out

    # -- values
    def elem(self, v):
        out = set()
        for r, l, d in v:
            if l:
                out.add((r, l - 1, d))
            elif any(r.struct[d + 1:]):
                out.add((r, 0, d + 1))
        return frozenset(out)

    def wrap(self, v):
        return frozenset((r, min(l + 1, CAP), d) for r, l, d in v)

    def copy(self, v):
        return self.wrap(self.elem(v))

    def put(self, table, k, v):
        if v - table.get(k, NONE):
            table[k] = table.get(k, NONE) | v
            self.changed = True

    # -- running
    def run(self):
        for _ in range(30):
            self.changed = False
            for f in self.fns:
                self.walk(*f)
            if not self.changed:
                break
        self.report = True
        for f in self.fns:
            self.walk(*f)
        return self.ob

    def walk(self, m, f, cls, outer):
        self.m, self.f, self.cls, self.outer = m, f, cls, outer
        self.globals = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
        self.locals = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - self.globals
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        env = {n: self.params.get((id(f), n), NONE) for n in names}
        self.locals |= set(names)
        self.me = names[0] if cls and names and not any(last(d) == 'staticmethod' for d in f.decorator_list) else None
        self.classm = any(last(d) == 'classmethod' for d in f.decorator_list)
        self.parent = {}
        if self.report:
            self.ob.functions.add((m.rel, f.name))
        self.block(f.body, env)

    def join(self, *envs):
        out = {}
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        for k in set().union(*envs):
            if all(k in e for e in envs) or not k.startswith('.'):
                out[k] = frozenset().union(*[e.get(k, NONE) for e in envs])
        return out

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Subscript):
                self.change(self.ev(s.target.value, env), s, 'item assignment')
                self.ev(s.target.slice, env)
                old = self.elem(self.ev(s.target.value, env))
                self.change(old, s, 'augmented assignment')
            else:
                old = self.ev(s.target, env)
                self.change(old, s, 'augmented assignment')
                if isinstance(s.target, ast.Attribute):
                    self.rebind(s.target, env, s)
                elif isinstance(s.target, ast.Name) and s.target.id in self.globals:
                    self.note(STATIC, s, 'global %s' % s.target.id)
                self.store(s.target, self.elem(v), env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.change(self.ev(t.value, env), s, 'del')
                elif isinstance(t, ast.Attribute):
                    self.rebind(t, env, s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.put(self.rets, id(self.f), self.ev(s.value, env))
            return None
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            for c in ast.iter_child_nodes(s):
                self.ev(c, env)
            return None if isinstance(s, ast.Raise) else env
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.join(self.block(s.body, dict(env)), self.block(s.orelse, dict(env)))
        elif isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and not any(
                isinstance(x, ast.Starred) for x in s.iter.elts) and len(s.iter.elts) <= 12:
            # one iteration after the other
            for x in s.iter.elts:
                e = dict(env)
                self.assign(s.target, self.ev(x, e), e, x)
                env = self.join(env, self.block(s.body, e))
            return self.block(s.orelse, env) if s.orelse else env
        elif isinstance(s, (ast.For, ast.While)):
            for _ in range(3):
                e = dict(env)
                if isinstance(s, ast.For):
                    it = self.ev(s.iter, e)
                    n = s.iter.func.id if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) else None
                    if n in ('zip', 'enumerate') and isinstance(s.target, (ast.Tuple, ast.List)) and not any(
                            isinstance(x, ast.Starred) for x in s.iter.args + s.target.elts):
                        vs = [self.elem(self.ev(x, e)) for x in s.iter.args]
                        vs = vs if n == 'zip' else [NONE] + vs[:1]
                        for t, v in zip(s.target.elts, vs):
                            self.assign(t, v, e, None)
                    else:
                        self.assign(s.target, self.elem(it), e, None)
                    self.family(s.target, s.iter)
                else:
                    self.ev(s.test, e)
                after = self.join(env, self.block(s.body, e))
                if after == env:
                    break
                env = after
            return self.block(s.orelse, env) if s.orelse else env
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            b = self.block(s.body, dict(env))
            start = self.join(env, b)
            hs = [self.block(h.body, dict(start)) for h in s.handlers]
            if b is not None:
                b = self.block(s.orelse, b)
            out = self.join(*([b] + hs))
            if s.finalbody:
                r = self.block(s.finalbody, dict(out if out is not None else start))
                return r if out is not None else None
            return out
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        return env

    def family(self, target, it):
        """Elements of a container: what is stored in them is inside the container too."""
        n = it
        while isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                n = n.args[0] if n.args and n.func.id in ('enumerate', 'zip', 'sorted', 'list', 'reversed') else None
            else:
                n = n.func if isinstance(n, ast.Call) else n.value
        if isinstance(n, ast.Name):
            for t in ast.walk(target):
                if isinstance(t, ast.Name):
                    self.parent[t.id] = n.id

    def assign(self, t, v, env, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    self.assign(x, self.ev(value.elts[i], env), env, value.elts[i])
                elif isinstance(x, ast.Starred):
                    self.assign(x.value, self.copy(v), env, None)
                else:
                    self.assign(x, self.elem(v), env, None)
            return
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.note(STATIC, t, 'global %s' % t.id)
                self.put(self.glob2, (self.m.name, t.id), v)
                return
            env[t.id] = v
            self.parent.pop(t.id, None)
            if value is not None and isinstance(value, (ast.Subscript, ast.Call)):
                self.family(t, value)
        elif isinstance(t, ast.Attribute):
            self.rebind(t, env, t)
            self.change(self.ev(t.value, env), t, 'attribute assignment')
            env['.' + ast.dump(t.value) + t.attr] = v
            if not self.is_class(t.value):
                self.put(self.attrs, t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.change(self.ev(t.value, env), t, 'item assignment')
            self.ev(t.slice, env)
            for x in v:
                self.keys.setdefault(x, set()).add(t.slice.value if isinstance(t.slice, ast.Constant) else '*')
            self.store(t.value, v if not isinstance(t.slice, ast.Slice) else self.elem(v), env)

    glob2 = {}

    def store(self, base, v, env):
        """v was put into the container that base denotes."""
        if not v:
            return
        v = self.wrap(v)
        while isinstance(base, ast.Subscript):
            base, v = base.value, self.wrap(v)
        if isinstance(base, ast.Name):
            n, seen = base.id, set()
            while n and n not in seen:
                seen.add(n)
                env[n] = env.get(n, NONE) | v
                n, v = self.parent.get(n), self.wrap(v)
        elif isinstance(base, ast.Attribute):
            k = '.' + ast.dump(base.value) + base.attr
            if k in env:
                env[k] = env[k] | v
            self.put(self.attrs, base.attr, v)

    @staticmethod
    def at(x):
        r, l, d = x
        return r.struct[d] if not l and d < len(r.struct) else None

    # -- obligations
    def where(self, n):
        return '%s:%s' % (self.m.rel, getattr(n, 'lineno', self.f.lineno))

    def note(self, rule, n, what):
        if self.report:
            self.ob.check(P, rule, False, self.where(n), '%s is rebound in %s' % (what, self.f.name))

    def change(self, v, n, how):
        if not self.report:
            return
        bad = sorted({(r.kind, r.name, r.where) for r, l, d in v if not l and d < len(r.struct) and r.struct[d]})
        self.ob.sites.add(self.where(n))
        for kind, name, at in bad[:2]:
            self.ob.check(P, RULE, False, self.where(n), '%s in %s changes the %s %s (%s), which every other object sees' % (
                how, self.f.name, kind, name, at))
        if not bad:
            self.ob.check(P, RULE, True, self.where(n), how, sample='%s in %s' % (how, self.f.name))

    def is_class(self, e):
        """Does the expression denote a class of the package (so that its attributes are shared)?"""
        if isinstance(e, ast.Name):
            return (e.id in self.classes and e.id not in self.locals) or (self.classm and e.id == self.me)
        if isinstance(e, ast.Attribute):
            return e.attr == '__class__' or (e.attr in self.classes and isinstance(e.value, ast.Name))
        return isinstance(e, ast.Call) and last(e.func) == 'type' and len(e.args) == 1

    def is_module(self, e):
        if not isinstance(e, ast.Name) or e.id in self.locals:
            return False
        b = self.m.names.get(e.id)
        return isinstance(b, tuple) and (b[0] == 'import' or self.prog.module('%s.%s' % (b[1], b[2])) is not None)

    def rebind(self, t, env, n):
        if self.is_class(t.value):
            self.note(STATIC, n, 'the class attribute %s' % t.attr)
        elif self.is_module(t.value):
            self.note(STATIC, n, 'the module attribute %s' % t.attr)
        elif self.report:
            self.ob.check(P, STATIC, True, self.where(n), t.attr, sample='attribute %s of an instance in %s' % (t.attr, self.f.name))

    # -- expressions
    def ev(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return NONE
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f:
            return f(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NONE

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.locals:
            return NONE
        return self.module_value(self.m, e.id, set())

    def module_value(self, m, name, seen):
        if (m.name, name) in seen:
            return NONE
        seen.add((m.name, name))
        if (m.name, name) in self.glob:
            return frozenset([(self.glob[(m.name, name)], 0, 0)])
        b = m.names.get(name)
        if isinstance(b, tuple) and b[0] == 'from':
            o = self.prog.module(b[1])
            return self.module_value(o, b[2], seen) if o else NONE
        for s in m.stars:
            o = self.prog.module(s)
            if o:
                v = self.module_value(o, name, seen)
                if v:
                    return v
        return NONE

    def e_Attribute(self, e, env):
        base = self.ev(e.value, env)
        k = '.' + ast.dump(e.value) + e.attr
        if k in env:
            return env[k]
        if isinstance(e.value, ast.Name) and self.is_module(e.value):
            b = self.m.names[e.value.id]
            o = self.prog.module(b[1] if b[0] == 'import' else '%s.%s' % (b[1], b[2]))
            return self.module_value(o, e.attr, set()) if o else NONE
        out = set()
        if e.attr in self.static:
            isc = self.is_class(e.value)
            for c, r in self.static[e.attr]:
                if isc or not self.shadow.get(e.attr, set()) & self.family_of(c):
                    out.add((r, 0, 0))
        out |= self.attrs.get(e.attr, NONE)
        for m, f, c in self.methods.get(e.attr, ()):
            if any(last(d) in ('property', 'cached_property') for d in f.decorator_list):
                out |= self.rets.get(id(f), NONE)
        if any(not l for r, l, d in base):      # an attribute of a shared object is shared
            out |= {(r, l, d) for r, l, d in base if not l and r.struct[d:d + 1] == ('object',) and r.kind != 'default value'} & out
        return frozenset(out)

    def family_of(self, c):
        """A class and its bases in the package: a constructor of any of them sets the attribute."""
        out, todo = set(), [c]
        while todo:
            n = todo.pop()
            if n in out:
                continue
            out.add(n)
            for m, d in self.classes.get(n, ()):
                todo += [last(b) for b in d.bases if last(b)]
        return out

    def e_Subscript(self, e, env):
        self.ev(e.slice, env)
        v = self.ev(e.value, env)
        return self.copy(v) if isinstance(e.slice, ast.Slice) else self.elem(v)

    def e_List(self, e, env):
        out = set()
        for x in e.elts:
            out |= self.copy(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.wrap(self.ev(x, env))
        return frozenset(out)

    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env):
        out = set()
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, env)
            for y in v if k is not None else ():
                self.keys.setdefault(y, set()).add(k.value if isinstance(k, ast.Constant) else '*')
            out |= self.copy(v) if k is None else self.wrap(v)
        return frozenset(out)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        return frozenset().union(*[self.ev(x, env) for x in e.values])

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e.value)
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        out = self.copy(a) | self.copy(b)
        if isinstance(e.op, ast.Mult):
            for x in (e.left, e.right):
                if isinstance(x, (ast.List, ast.Tuple)):
                    st = struct(x, self.classes)[1:]
                    n = e.right if x is e.left else e.left
                    if any(st) and not (isinstance(n, ast.Constant) and n.value in (0, 1)):
                        out |= {(self.repeat(x, st), 1, 0)}
        return frozenset(out)

    _rep = None

    def repeat(self, n, st):
        if self._rep is None:
            self._rep = {}
        if id(n) not in self._rep:
            self._rep[id(n)] = Root('one repeated element of', 'the list', self.where(n), st)
        return self._rep[id(n)]

    def comp(self, e, env, elt):
        env2 = dict(env)
        for g in e.generators:
            self.assign(g.target, self.elem(self.ev(g.iter, env2)), env2, None)
            for c in g.ifs:
                self.ev(c, env2)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, env2)
        return self.wrap(self.ev(elt, env2))

    def e_ListComp(self, e, env):
        return self.comp(e, env, e.elt)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        return self.comp(e, env, e.value)

    def e_Lambda(self, e, env):
        env2 = dict(env)
        for x in e.args.args:
            env2[x.arg] = NONE
        self.ev(e.body, env2)
        return NONE

    def e_Call(self, e, env):
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        n = last(e.func)
        a0 = args[0] if args else NONE
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, env)
            own = self.resolve(e, n)
            ext = isinstance(e.func.value, ast.Name) and self.is_module(e.func.value) and not own
            if ext:
                return self.builtin(e, n, args, kw, a0, env)
            if n in MUTATORS or n in self.mutating():
                self.change(frozenset(x for x in base if n in (
                    self.mutating() if self.at(x) == 'object' else MUTATORS)), e, '%s()' % n)
            if n in ('append', 'add', 'appendleft', 'insert', 'setdefault', '__setitem__'):
                self.store(e.func.value, args[-1] if args else NONE, env)
            if n in ('extend', 'update', 'extendleft'):
                self.store(e.func.value, self.elem(a0).union(*kw.values()) if kw else self.elem(a0), env)
            if n in ('copy', '__copy__') and not own:
                return self.copy(base)
            if n == 'items':
                return self.wrap(self.wrap(self.elem(base)))
            if n == 'values':
                return self.wrap(self.elem(base))
            if n == 'keys':
                return NONE
            if n in ('get', 'pop', 'setdefault', 'popleft'):
                return self.elem(base) | (args[1] if len(args) > 1 else NONE)
            if n in ('union', 'difference', 'intersection', 'tolist', 'astype'):
                return self.copy(base) | self.copy(a0)
            if n == 'set_ep' or n == 'set_vp':
                self.put(self.attrs, self.gprop(e), args[-1] if args else NONE)
            if n in ('ep', 'vp'):
                return self.attrs.get(self.gprop(e), NONE)
            if n == 'fromkeys' and len(e.args) > 1:
                st = struct(e.args[1], self.classes)
                return frozenset({(self.repeat(e.args[1], st), 1, 0)} if st else ()) | self.wrap(args[1])
            return self.call(own, e, args, kw, True)
        if isinstance(e.func, ast.Name) and e.func.id not in env and e.func.id not in self.locals:
            own = self.resolve(e, n)
            if own:
                return self.call(own, e, args, kw, False)
            return self.builtin(e, n, args, kw, a0, env)
        if not isinstance(e.func, ast.Name):
            self.ev(e.func, env)
        # a class or function taken from a table or an argument
        if set(kw) - {None}:
            own = [(m, f, c) for m, f, c in self.methods.get('__init__', ()) if set(kw) - {None} <= self.accepts(c)]
            self.call(own, e, args, kw, True)
        return NONE

    @staticmethod
    def gprop(e):
        return '<graph> %s' % (e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else '')

    def builtin(self, e, n, args, kw, a0, env):
        if n in FIRST or n in ('__setitem__', '__delitem__'):
            self.change(a0, e, '%s()' % n)
            if n in ('heappush', 'heappushpop', 'heapreplace', 'insort') and e.args:
                self.store(e.args[0], args[-1], env)
            if n in ('setattr', 'delattr') and e.args and self.is_class(e.args[0]):
                self.note(STATIC, e, 'a class attribute')
            elif n == 'setattr' and len(args) == 3:
                nm = e.args[1].value if isinstance(e.args[1], ast.Constant) else None
                for k in [nm] if nm else list(self.attrs):
                    if nm:
                        self.put(self.attrs, k, args[2])
            return self.elem(a0)
        if n in ('next', 'min', 'max', 'heappop', 'choice'):
            return self.elem(a0).union(*args[1:])
        if n == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            return self.ev(ast.copy_location(ast.Attribute(e.args[0], str(e.args[1].value), ast.Load()), e), env)
        if n == 'vars':
            return NONE
        if n == 'enumerate':
            return self.wrap(self.wrap(self.elem(a0)))
        if n == 'zip':
            return self.wrap(self.wrap(frozenset().union(*[self.elem(a) for a in args]))) if args else NONE
        if n == 'map':
            return NONE
        if n == 'deepcopy':
            return NONE
        if n == 'asarray':
            return a0
        if n in ('array', 'concatenate', 'stack', 'vstack'):
            return NONE
        if n in COPIES or n == 'copy':
            out = self.copy(a0)
            for v in kw.values():
                out |= self.wrap(v)
            return out
        return NONE

    _mut = None

    def mutating(self):
        """Methods of the package that change their object."""
        if self._mut is None:
            self._mut = set()
            for name, defs in self.methods.items():
                for m, f, c in defs:
                    a = f.args.posonlyargs + f.args.args
                    me = a[0].arg if a else None
                    for n in ast.walk(f):
                        t = None
                        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            t = n.value
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                            t = n.func.value
                        while isinstance(t, (ast.Attribute, ast.Subscript)):
                            t = t.value
                        if isinstance(t, ast.Name) and t.id == me and name != '__init__':
                            self._mut.add(name)
        return self._mut

    def resolve(self, e, n):
        """Functions of the package that a call may reach."""
        f = e.func
        if isinstance(f, ast.Name):
            if n in self.classes:
                return self.inits(n)
            fn = self.toplevel(self.m, n, set())
            if fn:
                return [fn]
            return [(m, g, None) for m, g, c, o in self.fns if g.name == n and o is not None and m is self.m]
        if n in self.classes and isinstance(f.value, ast.Name):
            return self.inits(n)
        if isinstance(f.value, ast.Name) and self.is_module(f.value):
            b = self.m.names[f.value.id]
            o = self.prog.module(b[1] if b[0] == 'import' else '%s.%s' % (b[1], b[2]))
            fn = self.toplevel(o, n, set()) if o else None
            return [fn] if fn else []
        own = self.methods.get(n, [])
        v = f.value
        if isinstance(v, ast.Call) and last(v.func) == 'super' and self.owner():
            up = self.family_of(self.owner().name) - {self.owner().name}
            return [x for x in own if x[2].name in up]
        if isinstance(v, ast.Name) and v.id in self.classes and v.id not in self.locals:
            up = self.family_of(v.id)
            return [x for x in own if x[2].name in up]
        return own

    def owner(self):
        if self.cls or not self.outer:
            return self.cls
        return next((c for m, f, c, o in self.fns if f is self.outer), None)

    def accepts(self, cls):
        out = set()
        for k in self.family_of(cls.name):
            for m, f, d in self.methods.get('__init__', ()):
                if d.name == k:
                    out |= {x.arg for x in f.args.args + f.args.kwonlyargs}
        return out

    def spread(self, v, name):
        return frozenset(t for t in v if name in self.keys.get(t, (name,)) or '*' in self.keys.get(t, ()))

    def inits(self, c):
        for k in [c] + [b for b in self.family_of(c) if b != c]:
            own = [(m, f, d) for m, f, d in self.methods.get('__init__', ()) if d.name == k]
            if own:
                return own
        return []

    def toplevel(self, m, n, seen):
        if (m.name, n) in seen:
            return None
        seen.add((m.name, n))
        b = m.names.get(n)
        if isinstance(b, ast.FunctionDef):
            return (m, b, None)
        if isinstance(b, tuple) and b[0] == 'from':
            o = self.prog.module(b[1])
            return self.toplevel(o, b[2], seen) if o else None
        for s in m.stars:
            o = self.prog.module(s)
            r = self.toplevel(o, n, seen) if o else None
            if r:
                return r
        return None

    def call(self, own, e, args, kw, method):
        out = NONE
        for m, f, cls in own:
            a = f.args
            names = [x.arg for x in a.posonlyargs + a.args]
            static = any(last(d) == 'staticmethod' for d in f.decorator_list)
            skip = 1 if cls is not None and not static else 0
            # C.method(self, ...) passes the object itself
            if skip and isinstance(e.func, ast.Attribute) and f.name == e.func.attr and self.is_class(e.func.value) \
                    and not any(last(d) == 'classmethod' for d in f.decorator_list):
                skip = 0
            for i, v in enumerate(args):
                if isinstance(e.args[i], ast.Starred):
                    for nm in names[skip + i:]:
                        self.put(self.params, (id(f), nm), self.elem(v))
                    if a.vararg:
                        self.put(self.params, (id(f), a.vararg.arg), self.copy(v))
                elif skip + i < len(names):
                    self.put(self.params, (id(f), names[skip + i]), v)
                elif a.vararg:
                    self.put(self.params, (id(f), a.vararg.arg), self.wrap(v))
            kws = names + [x.arg for x in a.kwonlyargs]
            for k, v in kw.items():
                if k is None:
                    for nm in kws[skip:]:
                        self.put(self.params, (id(f), nm), self.spread(self.elem(v), nm))
                    if a.kwarg:
                        self.put(self.params, (id(f), a.kwarg.arg), self.copy(v))
                elif k in kws:
                    self.put(self.params, (id(f), k), v)
                elif a.kwarg:
                    self.put(self.params, (id(f), a.kwarg.arg), self.wrap(v))
            out |= self.rets.get(id(f), NONE)
        return out


def shared_task(prog):
    sh = Shared(prog)
    sh.glob2 = {}
    ob = sh.run()
    roots = [r for x in sh.static.values() for _, r in x] + list(sh.glob.values())
    if not sh.fns:
        raise AnchorMissing('functions of the package')
    ob.paths[('mutable class and module values', 'root')] += len(roots)
    return ob
