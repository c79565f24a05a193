"""Path-sensitive interprocedural dataflow over the repository's syntax trees.

The engine propagates abstract states (object/field store, ownership contents
of heaps, deques, lists and dicts, linear relations between counters and
times, branch facts) through every control-flow path of an entry point,
descending into repository callees.  Loops are summarised: the body is
analysed from a state in which every location it may change is generalised,
until the set of changed locations and their per-iteration effect is stable.
Nothing in the repository is imported or executed.
"""
import ast
from fractions import Fraction

from .lin import Lin, Domain, atom, const, show, fmt
from .values import *  # noqa
from .frontend import AnchorMissing, Unsupported


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, node=None, args=(), where=None):
        self.exc = exc            # exception class name
        self.node = node
        self.eargs = args
        self.where = where


class Ev:
    __slots__ = ('kind', 'name', 'args', 'kw', 'res', 'loc', 'fn', 'info', 'watch', 'deep')

    def __init__(self, kind, name, args=(), kw=None, res=None, loc=None, fn=None, info=None, watch=None,
                 deep=None):
        self.kind, self.name, self.args, self.kw = kind, name, list(args), kw or {}
        self.res, self.loc, self.fn, self.info, self.watch = res, loc, fn, info, watch
        self.deep = deep

    def __repr__(self):
        a = ', '.join(show(key(x)) for x in self.args)
        return '%s %s(%s)%s @%s' % (self.kind, self.name, a,
                                    '' if self.res is None else ' -> ' + show(key(self.res)), self.loc)


class State:
    def __init__(self):
        self.attrs = {}
        self.items = {}
        self.ver = {}
        self.content = {}
        self.cls = {}
        self.origin = {}
        self.lin = []
        self.bools = {}
        self.events = []
        self.counters = {}
        self.locals = {}
        self.flags = []
        self.trace = []
        self.seen = set()

    def copy(self):
        s = State.__new__(State)
        s.attrs = dict(self.attrs)
        s.items = dict(self.items)
        s.ver = dict(self.ver)
        s.content = dict(self.content)
        s.cls = dict(self.cls)
        s.origin = dict(self.origin)
        s.lin = list(self.lin)
        s.bools = dict(self.bools)
        s.events = list(self.events)
        s.counters = dict(self.counters)
        s.locals = {k: dict(v) for k, v in self.locals.items()}
        s.flags = list(self.flags)
        s.trace = list(self.trace)
        s.seen = set(self.seen)
        return s


class Oracle:
    def __init__(self):
        self.script = []
        self.taken = []
        self.pos = 0

    def start(self):
        self.taken = []
        self.pos = 0

    def choose(self, n):
        c = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.taken.append((c, n))
        return c

    def advance(self):
        t = self.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.script = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return True


class Frame:
    __slots__ = ('fid', 'fn', 'parent', 'cls', 'mod', 'yields', 'globals_')

    def __init__(self, fid, fn, parent, cls, mod):
        self.fid, self.fn, self.parent, self.cls, self.mod = fid, fn, parent, cls, mod
        self.yields = None
        self.globals_ = set()


class Path:
    """One control-flow path of an entry point."""

    def __init__(self, kind, value, st, extra=None):
        self.kind, self.value, self.st, self.extra = kind, value, st, extra

    def describe(self):
        return ['%s: %s' % t for t in self.st.trace]


class Config:
    """What an analysis says about the environment of an entry point."""
    max_paths = 60000
    max_steps = 1500000
    record_calls = True
    int_names = ('num_system', '_num_total', '_num_arrivals', '_oArrivals', 'num_departures', 'num_blocked',
                 'buffer', 'num_servers', 'size', 'actual_size', 'nV', 'nE', 'max_agents', 'num_events',
                 'active_cap', 'max_servers', 'over_max', 'nClusters', 'blocked')

    def same_order(self, it, seq, probe, k):
        """Does sorting the sequence by key k of its elements give the same as sorting the elements?"""
        return False

    def typeof(self, it, k):
        return None

    def init_attr(self, it, okey, name):
        return None

    def init_content(self, it, okey):
        return None

    def call(self, it, fv, args, kw, node):
        return NotImplemented

    def norm_item(self, it, base, idx):
        return None

    def solid(self, it, k):
        """Is the value known to be neither None nor empty?"""
        return False

    def isinst(self, it, k, name):
        return None

    def is_int(self, a):
        if not isinstance(a, tuple) or not a:
            return False
        if a[0] in ('len', 'ix', 'int', 'n', 'fdiv', 'outdeg'):
            return True
        if a[0] == 'attr' and a[-1] in self.int_names:
            return True
        if a[0] == 'elem' and a[1] and a[1][0] == 'view' and a[1][1] == 'range':
            return True
        return False

    def watch(self, it):
        return None


PURE_EXT_PREFIX = ('numpy.', 'networkx.', 'math.', 'numbers.', 'operator.', 'itertools.', 'functools.',
                   'copy.', 'matplotlib.', 'warnings.', 'array.', 'collections.', 'heapq.')
ALLOC = {'numpy.zeros', 'numpy.ones', 'numpy.array', 'numpy.empty', 'numpy.full', 'numpy.arange',
         'array.array', 'copy.copy', 'copy.deepcopy', 'networkx.Graph', 'networkx.DiGraph',
         'numpy.asarray', 'numpy.copy', 'networkx.from_dict_of_dicts', 'networkx.to_dict_of_dicts',
         'numpy.sort', 'numpy.vstack', 'networkx.Graph.copy', 'numpy.zeros_like', 'numpy.ones_like'}
INF_NAMES = {'numpy.infty', 'numpy.inf', 'numpy.Inf', 'math.inf', 'numpy.PINF'}
EXC_BASES = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
    'AttributeError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'AssertionError': 'Exception', 'StopIteration': 'Exception', 'OverflowError': 'ArithmeticError',
    'networkx.NetworkXError': 'Exception', 'NetworkXError': 'Exception', 'Exception': 'BaseException',
    'UnboundLocalError': 'NameError', 'NameError': 'Exception',
}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'popitem',
            'setdefault', 'appendleft', 'popleft', 'add', 'discard', 'fill', 'resize', 'add_edge',
            'add_node', 'add_edges_from', 'add_nodes_from', 'remove_edge', 'remove_node', 'rotate',
            'partition', 'put', 'itemset', '__setitem__', '__delitem__', 'difference_update',
            'intersection_update', 'extendleft', 'set_color'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'min', 'max', 'sum', 'sorted', 'list', 'dict', 'set', 'tuple',
            'isinstance', 'super', 'hasattr', 'getattr', 'setattr', 'abs', 'int', 'float', 'str', 'round',
            'any', 'all', 'reversed', 'map', 'filter', 'iter', 'next', 'bool', 'print', 'repr', 'type',
            'callable', 'issubclass', 'id', 'frozenset', 'object', 'divmod', 'pow', 'format', 'slice',
            'delattr', 'vars', 'bytes', 'complex', 'staticmethod', 'classmethod', 'property'}
TYPE_GROUPS = {'str': 'str', 'dict': 'dict', 'collections.abc.Mapping': 'dict', 'numpy.ndarray': 'ndarray',
               'list': 'list', 'tuple': 'tuple', 'int': 'int', 'numbers.Integral': 'int',
               'numbers.Number': 'num', 'numbers.Real': 'num', 'float': 'float', 'bool': 'bool',
               'set': 'set', 'numpy.integer': 'int', 'frozenset': 'set'}


def same_content(a, b):
    """Structurally equal contents (nested explorations may return equal copies)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_content(x, y) for x, y in zip(a, b))
    if isinstance(a, Value) or isinstance(a, Lin):
        try:
            return key(a) == key(b)
        except TypeError:
            return False
    s = getattr(type(a), '__slots__', None)
    if s is not None:
        return all(same_content(getattr(a, x), getattr(b, x)) for x in s)
    return a == b


class Interp:
    def __init__(self, prog, cfg):
        self.prog, self.cfg = prog, cfg
        self.dom = Domain(lambda a: cfg.is_int(a))
        self.st = None
        self.oracles = []
        self.frames = []
        self.nest_cache = {}
        self.nest = []
        self.classes = {}
        self.visited = set()      # (module rel, function qual)
        self.callsites = set()
        self.steps = 0
        self.undecided = []
        self.nodes = set()
        self.cur_ix = []
        self.inits = {}           # (object, attribute) -> initial value the environment gave it

    def in_iter(self, ix, thunk):
        self.cur_ix.append(ix)
        try:
            return thunk()
        finally:
            self.cur_ix.pop()

    # ------------------------------------------------------------------ exploration

    def explore(self, setup, run):
        paths = []
        self.stuck = {}      # loops that never end: place -> state before
        o = Oracle()
        self.oracles = [o]
        self.nest_cache = {}
        while True:
            o.start()
            self.st = State()
            self.frames = []
            self.steps = 0
            try:
                ctx = setup(self)
                self.st.seen.add('setup-done')
                v = run(self, ctx)
                paths.append(Path('return', v, self.st, ctx))
            except PyRaise as e:
                p = Path('raise', e, self.st, ctx)
                paths.append(p)
            except Infeasible:
                pass
            except (Undecided, Unsupported) as e:
                p = Path('undecided', str(e), self.st, None)
                paths.append(p)
                self.undecided.append(str(e))
            except RecursionError:
                paths.append(Path('undecided', 'recursion limit', self.st, None))
                self.undecided.append('recursion')
            if len(paths) > self.cfg.max_paths:
                paths.append(Path('undecided', 'path budget', self.st, None))
                self.undecided.append('path budget %d' % self.cfg.max_paths)
                break
            if not o.advance():
                break
        self.oracles = []
        return paths

    def explore_nested(self, ck, thunk):
        k = (ck, tuple(self.nest), tuple(tuple(o.taken) for o in self.oracles))
        r = self.nest_cache.get(k)
        if r is not None:
            if isinstance(r, Exception):
                raise r
            return r
        base = self.st
        frames = list(self.frames)
        out = []
        o = Oracle()
        self.oracles.append(o)
        self.nest.append(ck)
        try:
            while True:
                o.start()
                self.st = base.copy()
                self.frames = list(frames)
                try:
                    sig = thunk()
                    out.append((sig, self.st))
                except PyRaise as e:
                    out.append((('raise', e), self.st))
                except Infeasible:
                    pass
                if len(out) > 800:
                    raise Undecided('loop body path budget')
                if not o.advance():
                    break
        except Undecided as e:
            self.nest_cache[k] = e
            raise
        finally:
            self.oracles.pop()
            self.nest.pop()
            self.st = base
            self.frames = frames
        self.nest_cache[k] = out
        return out

    def choose(self, labels, node=None):
        """Fork; returns index."""
        if len(labels) == 1:
            return 0
        c = self.oracles[-1].choose(len(labels))
        return c

    # ------------------------------------------------------------------ facts

    def loc(self, node):
        if node is None:
            return '?'
        m = self.frames[-1].mod.rel if self.frames else '?'
        return '%s:%s' % (m, getattr(node, 'lineno', '?'))

    def note(self, node, text):
        self.st.trace.append((self.loc(node), text))

    def fresh(self, name, tag='fresh'):
        n = self.st.counters.get(name, 0)
        self.st.counters[name] = n + 1
        return Sym((tag, name, n) + tuple(self.cur_ix))

    def new(self, kind):
        n = self.st.counters.get(('new', kind), 0)
        self.st.counters[('new', kind)] = n + 1
        return Sym(('new', kind, n) + tuple(self.cur_ix))

    def num(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return const(int(v.v))
            return None
        if isinstance(v, Sym):
            if v.key in self.st.content:
                return None
            return atom(v.key)
        if isinstance(v, BoolV):
            return None
        return None

    def assume(self, l, kind):
        l = self.dom.intern(l)
        c = (l, kind)
        if not l.t:
            ok = {'<=': l.c <= 0, '<': l.c < 0, '==': l.c == 0}[kind]
            if not ok:
                raise Infeasible()
            return
        if c not in self.st.lin:
            self.st.lin.append(c)

    def entails(self, l, kind, st=None):
        return self.dom.entails((st or self.st).lin, (l, kind))

    def feasible(self, l, kind):
        return self.dom.feasible_with(self.st.lin, (l, kind))

    def bkey(self, b):
        ka, kb = key(b.a), key(b.b) if b.b is not None else None
        if b.op == '==' and kb is not None and repr(kb) < repr(ka):
            ka, kb = kb, ka
        return (b.op, ka, kb)

    def decide_opaque(self, k, node, text=None):
        if k in self.st.bools:
            return self.st.bools[k]
        c = self.choose([True, False], node)
        r = c == 0
        self.st.bools[k] = r
        self.note(node, '%s%s' % ('' if r else 'not ', text or show(k)))
        return r

    def decide(self, b, node=None):
        op = b.op
        if op == 'not':
            return not self.truth(b.a, node)
        if op in ('and', 'or'):
            x = self.truth(b.a, node)
            if op == 'and' and not x or op == 'or' and x:
                return x
            return self.truth(b.b, node)
        if op in ('<', '<='):
            a, c = self.num(b.a), self.num(b.b)
            if a is None or c is None:
                if isinstance(b.a, Const) and isinstance(b.b, Const):
                    try:
                        return b.a.v < b.b.v if op == '<' else b.a.v <= b.b.v
                    except TypeError:
                        raise PyRaise('TypeError', node)
                if isinstance(b.a, Tup) and isinstance(b.b, Tup) and b.a.items and b.b.items:
                    # lexicographic
                    if self.decide(BoolV('<', b.a.items[0], b.b.items[0]), node):
                        return True
                    if not self.decide(BoolV('==', b.a.items[0], b.b.items[0]), node):
                        return False
                    if len(b.a.items) > 1 and len(b.b.items) > 1:
                        return self.decide(BoolV(op, Tup(b.a.items[1:]), Tup(b.b.items[1:])), node)
                    return len(b.a.items) < len(b.b.items) or (op == '<=' and len(b.a.items) == len(b.b.items))
                return self.decide_opaque(self.bkey(b), node)
            l = a - c
            for v in (b.a, b.b):
                m = self.obj_compare(v, b, node)
                if m is not None:
                    return m
            return self.decide_lin(l, op, node)
        if op == '==':
            return self.decide_eq(b.a, b.b, node)
        if op == 'is':
            return self.decide_is(b.a, b.b, node)
        if op == 'in':
            return self.decide_in(b.a, b.b, node)
        if op == 'isinst':
            return self.decide_isinst(b.a, b.b, node)
        if op == 'truth':
            return self.truth(b.a, node)
        return self.decide_opaque(self.bkey(b), node)

    def obj_compare(self, v, b, node):
        """`x < y` on repository objects goes through their __lt__."""
        if isinstance(v, Sym) and v is b.a:
            cls = self.class_of(v)
            if cls is not None:
                m = self.class_attr(cls, {'<': '__lt__', '<=': '__le__'}[b.op])
                if m is not None:
                    return self.truth(self.call(Bound(v, m[0]), [b.b], {}, node), node)
        return None

    def decide_lin(self, l, op, node):
        neg = (l.scale(-1), '<' if op == '<=' else '<=')
        if not l.t:
            return l.c < 0 if op == '<' else l.c <= 0
        t = self.feasible(l, op)
        f = self.feasible(*neg)
        if t and f:
            r = self.choose([True, False], node) == 0
            if r:
                self.assume(l, op)
            else:
                self.assume(*neg)
            self.note(node, '%s %s 0' % (fmt(l), op if r else {'<': '>=', '<=': '>'}[op]))
            return r
        if not t and not f:
            raise Infeasible()
        return t

    def decide_eq(self, a, b, node):
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if not self.decide_eq(x, y, node):
                    return False
            return True
        if key(a) == key(b):
            return True
        h = getattr(self.cfg, 'distinct', None)
        if h and h(self, a, b):
            return False
        if isinstance(a, (Fn, ClassV, Ext, ModV)) and isinstance(b, (Fn, ClassV, Ext, ModV)):
            return False
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            for v, w in ((a, b), (b, a)):
                if isinstance(v, Sym):
                    cls = self.class_of(v)
                    if cls is not None:
                        m = self.class_attr(cls, '__eq__')
                        if m is not None:
                            return self.truth(self.call(Bound(v, m[0]), [w], {}, node), node)
            l = na - nb
            if not l.t:
                return l.c == 0
            k = self.bkey(BoolV('==', a, b))
            if k in self.st.bools:
                return self.st.bools[k]
            can = self.feasible(l, '==')
            if not can:
                return False
            if self.entails(l, '=='):
                return True
            r = self.choose([True, False], node) == 0
            self.st.bools[k] = r
            if r:
                self.assume(l, '==')
            else:
                if self.entails(l, '<='):
                    self.assume(l, '<')
                elif self.entails(l.scale(-1), '<='):
                    self.assume(l.scale(-1), '<')
            self.note(node, '%s %s 0' % (fmt(l), '==' if r else '!='))
            return r
        if isinstance(a, (Const, Tup)) and isinstance(b, Lin) or isinstance(b, (Const, Tup)) and isinstance(a, Lin):
            return False
        if isinstance(a, Const) or isinstance(b, Const):
            x, c = (a, b) if isinstance(b, Const) else (b, a)
            g = self.type_group(x)
            if c.v is None and (g or self.known_obj(x)):
                return False
            if g and g not in ('any',) and isinstance(c.v, str) and g != 'str':
                return False
        return self.decide_opaque(self.bkey(BoolV('==', a, b)), node)

    def known_obj(self, v):
        if isinstance(v, (Tup, Lin, Fn, Bound, ClassV, Ext, ModV, BoolV, View, ExtMeth)):
            return True
        if isinstance(v, Sym):
            return (v.key in self.st.content or v.key in self.st.cls or v.key[0] == 'new' or
                    self.cfg.typeof(self, v.key) is not None)
        return False

    def decide_is(self, a, b, node):
        for x, c in ((a, b), (b, a)):
            if isinstance(c, Const) and c.v is None:
                if isinstance(x, Const):
                    return x.v is None
                if self.known_obj(x) or isinstance(x, Sym) and self.cfg.solid(self, x.key):
                    return False
                k = ('isnone', key(x))
                if k not in self.st.bools:
                    if any(kk[0] == 'isinst' and kk[1] == key(x) and vv for kk, vv in self.st.bools.items()):
                        return False
                return self.decide_opaque(k, node)
        return self.decide_eq(a, b, node)

    def decide_in(self, x, c, node):
        if isinstance(c, Tup):
            return any(self.decide_eq(x, y, node) for y in c.items)
        if isinstance(c, Const) and isinstance(c.v, str) and isinstance(x, Const):
            return x.v in c.v
        if isinstance(c, View) and c.kind in ('keys', 'dictiter'):
            return self.decide_in(x, c.args[0], node)
        if isinstance(c, Sym):
            ct = self.content(c)
            if isinstance(ct, LList):
                for y in ct.items:
                    if self.decide_eq(x, y, node):
                        return True
                return False
            if isinstance(ct, DDict):
                kx = key(x)
                for kk, _ in ct.items:
                    if key(kk) == kx:
                        return True
                for kk, _ in ct.items:
                    if self.decide_eq(x, kk, node):
                        return True
                if ct.base is None:
                    return False
                return self.decide_opaque(('in', kx, ct.base), node)
            ov = self.st.items.get(c.key)
            if ov and key(x) in ov:
                return ov[key(x)][1] is not DELETED
            return self.decide_opaque(('in', key(x), self.vkey(c)), node)
        return self.decide_opaque(('in', key(x), self.deep(c)), node)

    def type_group(self, v):
        if isinstance(v, Const):
            if v.v is None:
                return 'none'
            return type(v.v).__name__
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Lin):
            return 'num'
        if isinstance(v, Sym):
            ct = self.st.content.get(v.key)
            if isinstance(ct, (LList, UList, Heap, MapSeq)):
                if v.key[:2] == ('new', 'set'):
                    return 'set'
                return 'list'
            if isinstance(ct, (DDict, MapDict)):
                return 'dict'
            if isinstance(ct, Deq):
                return 'deque'
            if self.class_of(v) is not None:
                return 'obj'
            o = self.st.origin.get(v.key)
            if o and o[0] == 'call' and o[1].startswith('numpy.'):
                return 'ndarray'
            for kk, vv in self.st.bools.items():
                if vv and kk[0] == 'isinst' and kk[1] == v.key:
                    g = TYPE_GROUPS.get(kk[2][1] if isinstance(kk[2], tuple) else None)
                    if g:
                        return g
            if self.st.bools.get(('isnone', v.key)):
                return 'none'
        if isinstance(v, (Fn, Bound, ClassV, Ext, ModV, ExtMeth)):
            return 'callable'
        return None

    def decide_isinst(self, v, c, node):
        if isinstance(c, Tup):
            return any(self.decide_isinst(v, x, node) for x in c.items)
        if isinstance(c, ClassV):
            cls = self.class_of(v)
            if cls is not None:
                return any(x is c for x in self.mro(cls))
            g = self.type_group(v)
            if g in ('num', 'list', 'dict', 'tuple', 'str', 'none', 'bool', 'deque', 'ndarray'):
                return False
            return self.decide_opaque(('isinst', key(v), key(c)), node)
        if isinstance(c, Ext):
            n = c.name
            if n.startswith('builtins.'):
                n = n[9:]
            known = self.cfg.isinst(self, key(v), n)
            if known is not None:
                return known
            g = self.type_group(v)
            want = TYPE_GROUPS.get(n)
            if n in ('collections.abc.Iterable', 'collections.abc.Sequence', 'collections.abc.Sized',
                     'collections.abc.Container', 'collections.abc.Collection'):
                if g in ('list', 'tuple', 'set', 'dict', 'deque', 'ndarray', 'str'):
                    return True if n != 'collections.abc.Sequence' else g in ('list', 'tuple', 'str')
                if g in ('num', 'none', 'bool', 'int', 'float'):
                    return False
                if self.is_integral(v):
                    return False
                if isinstance(v, Sym):
                    return self.decide_opaque(('isinst', v.key, ('ext', n)), node)
            if n == 'collections.abc.Callable':
                return g == 'callable' or self.decide_opaque(('isinst', key(v), ('ext', n)), node)
            if isinstance(v, Lin):
                if want == 'int':
                    if not v.t:
                        return v.c.denominator == 1
                    if v == INF:
                        return False
                    if all(self.cfg.is_int(a) for a in v.t):
                        k = ('isinst', key(v), ('ext', n))
                        return self.st.bools.get(k, True)
                    return self.decide_opaque(('isinst', key(v), ('ext', 'numbers.Integral')), node)
                if want in ('num', 'float'):
                    return True
                return False
            if g and want and g != 'obj':
                if g == want:
                    return True
                if (g, want) in (('bool', 'int'), ('int', 'num'), ('float', 'num'), ('bool', 'num')):
                    return True
                if g in ('num',) and want in ('int', 'float'):
                    pass
                elif g != 'any':
                    return False
            if g in ('none', 'callable', 'obj') and want:
                return False
            if g == 'obj':
                cls = self.class_of(v)
                if not any(isinstance(x, Ext) and x.name not in ('builtins.object',) for x in self.mro(cls)):
                    return False
                if any(isinstance(x, Ext) and x.name == n for x in self.mro(cls)):
                    return True
            kn = n
            if want == 'int':
                kn = 'numbers.Integral'
            return self.decide_opaque(('isinst', key(v), ('ext', kn)), node)
        return self.decide_opaque(('isinst', key(v), key(c)), node)

    def is_integral(self, v):
        if isinstance(v, Lin):
            return bool(v.t) is False and v.c.denominator == 1 or (
                bool(v.t) and all(self.cfg.is_int(a) for a in v.t))
        return isinstance(v, Sym) and self.st.bools.get(('isinst', v.key, ('ext', 'numbers.Integral'))) is True

    def truth(self, v, node=None):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, BoolV):
            return self.decide(v, node)
        if isinstance(v, Lin):
            if not v.t:
                return v.c != 0
            return not self.decide_eq(v, const(0), node)
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Sym):
            if v.key in self.st.content:
                n = self.length(v)
                return not self.decide_lin(n, '<=', node)
            cls = self.class_of(v)
            if cls is not None:
                m = self.class_attr(cls, '__bool__') or self.class_attr(cls, '__len__')
                if m is not None:
                    return self.truth(self.call(Bound(v, m[0]), [], {}, node), node)
                return True
            c = self.content(v)
            if c is not None:
                return not self.decide_lin(self.length(v), '<=', node)
            if v.key in self.st.bools:
                return self.st.bools[v.key]
            if self.cfg.is_int(v.key):
                return not self.decide_eq(v, const(0), node)
            k = ('truth', v.key)
            if k not in self.st.bools and self.st.bools.get(('isnone', v.key)):
                return False
            if self.cfg.solid(self, v.key):
                return True
            return self.decide_opaque(k, node, show(v.key))
        if isinstance(v, View):
            n = self.length(v)
            return not self.decide_lin(n, '<=', node)
        return True

    # ------------------------------------------------------------------ classes

    def class_value(self, node, mod):
        k = (mod.name, node.name)
        if k not in self.classes:
            self.classes[k] = ClassV(node, mod)
        return self.classes[k]

    def get_class(self, dotted):
        m, _, n = dotted.rpartition('.')
        mod = self.prog.module(m)
        if mod is None:
            raise AnchorMissing(dotted)
        v = self.module_attr(mod, n)
        if not isinstance(v, ClassV):
            raise AnchorMissing(dotted)
        return v

    def mro(self, cls):
        if cls._mro is None:
            fr = Frame(None, None, None, None, cls.mod)
            self.frames.append(fr)
            try:
                bases = [self.eval(b) for b in cls.node.bases]
            finally:
                self.frames.pop()
            out = [cls]
            rest = []
            for b in bases:
                if isinstance(b, ClassV):
                    for c in self.mro(b):
                        if c not in rest:
                            rest.append(c)
                elif isinstance(b, Ext):
                    rest.append(b)
            cls._mro = out + rest
        return cls._mro

    def class_attr(self, cls, name, after=None):
        """(value, defining class) by MRO, or None."""
        mro = self.mro(cls)
        if after is not None:
            idx = [i for i, c in enumerate(mro) if c is after]
            mro = mro[idx[0] + 1:] if idx else mro
        for c in mro:
            if not isinstance(c, ClassV):
                continue
            r = self.own_attr(c, name)
            if r is not None:
                return r, c
        return None

    def own_attr(self, c, name):
        found = None
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in s.decorator_list):
                    continue
                found = Fn(s, c.mod, c, None, c.qual + '.' + name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and \
                    s.value is not None:
                found = s
        if isinstance(found, ast.AST):
            return self.class_data(c, name, found)
        return found

    def class_data(self, c, name, stmt):
        k = ('clsattr', c.qual, name)
        if (k, '') in self.st.attrs:
            return self.st.attrs[(k, '')]
        fr = Frame(None, None, None, c, c.mod)
        self.frames.append(fr)
        try:
            v = self.eval(stmt.value, ident=k)
        finally:
            self.frames.pop()
        self.st.attrs[(k, '')] = v
        return v

    def setter(self, cls, name):
        for c in self.mro(cls):
            if not isinstance(c, ClassV):
                continue
            prop = None
            for s in c.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in s.decorator_list):
                        return Fn(s, c.mod, c, None, c.qual + '.' + name + '.setter')
                    if self.deco(s, 'property'):
                        prop = s
            if prop is not None:
                return 'readonly'
        return None

    @staticmethod
    def deco(node, name):
        return any(isinstance(d, ast.Name) and d.id == name for d in node.decorator_list)

    def class_of(self, v):
        if isinstance(v, Sym):
            c = self.st.cls.get(v.key)
            if c is None:
                c = self.cfg.typeof(self, v.key)
                if isinstance(c, str):
                    c = self.get_class(c)
            return c
        return None

    # ------------------------------------------------------------------ names

    def module_attr(self, mod, name):
        if name in mod.names:
            b = mod.names[name]
            if isinstance(b, ast.FunctionDef):
                return Fn(b, mod, None, None, name)
            if isinstance(b, ast.ClassDef):
                return self.class_value(b, mod)
            if isinstance(b, tuple):
                if b[0] == 'import':
                    return ModV(b[1])
                if self.prog.module(b[1] + '.' + b[2]) is not None:
                    return ModV(b[1] + '.' + b[2])
                m = self.prog.module(b[1])
                if m is not None:
                    return self.module_attr(m, b[2])
                return self.ext(b[1] + '.' + b[2])
            # module-level assignment
            k = ('modattr', mod.name, name)
            if self.st is not None and (k, '') in self.st.attrs:
                return self.st.attrs[(k, '')]
            if name == 'HAS_MATPLOTLIB':
                return Sym(('cfg', 'HAS_MATPLOTLIB'))
            fr = Frame(None, None, None, None, mod)
            self.frames.append(fr)
            try:
                val = b.value
                tg = b.targets[0] if isinstance(b, ast.Assign) else b.target
                v = self.eval(val, ident=k)
                if isinstance(tg, (ast.Tuple, ast.List)):
                    i = [getattr(e, 'id', None) for e in tg.elts].index(name)
                    v = self.item(v, const(i), b)
            finally:
                self.frames.pop()
            if self.st is not None:
                self.st.attrs[(k, '')] = v
            return v
        for s in mod.stars:
            m = self.prog.module(s)
            if m is not None:
                try:
                    return self.module_attr(m, name)
                except (PyRaise, AnchorMissing):
                    pass
        raise PyRaise('NameError', None, (name,))

    def ext(self, name):
        if name.startswith('np.'):
            name = 'numpy.' + name[3:]
        if name in INF_NAMES:
            return INF
        if name == 'collections.Iterable':
            name = 'collections.abc.Iterable'
        return Ext(name)

    def lookup(self, name, node):
        f = self.frames[-1]
        g = f
        while g is not None:
            if g.fid is not None and name in self.st.locals.get(g.fid, ()):
                v = self.st.locals[g.fid][name]
                if v is UNBOUND:
                    raise PyRaise('UnboundLocalError', node, (name,))
                return v
            g = g.parent
        if name == '__name__':
            return Const(f.mod.name)
        try:
            return self.module_attr(f.mod, name)
        except PyRaise as e:
            if e.exc != 'NameError':
                raise
        if name in BUILTINS:
            return Ext('builtins.' + name)
        if name in EXC_BASES or name in ('BaseException', 'KeyboardInterrupt', 'DeprecationWarning',
                                         'UserWarning', 'Warning', 'FutureWarning', 'RuntimeWarning'):
            return Ext('builtins.' + name)
        if name in ('infty',):
            return INF
        if f.mod.is_cy and name in ('cython',):
            return ModV('cython')
        if f.fn is not None and self.is_local(f.fn.node, name):
            raise PyRaise('UnboundLocalError', node, (name,))
        raise PyRaise('NameError', node, (name,))

    def is_local(self, fnode, name):
        return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
                   for n in ast.walk(fnode))

    def setlocal(self, name, v):
        f = self.frames[-1]
        if name in f.globals_:
            g = f.parent
            while g is not None:
                if g.fid is not None and name in self.st.locals.get(g.fid, ()):
                    self.st.locals[g.fid][name] = v
                    return
                g = g.parent
            self.st.attrs[(('modattr', f.mod.name, name), '')] = v
            self.event('setglobal', name, [v], None)
            return
        if f.fid is None:
            raise Undecided('binding in class/module scope')
        self.st.locals[f.fid][name] = v

    # ------------------------------------------------------------------ contents

    def content(self, v):
        if not isinstance(v, Sym):
            return None
        c = self.st.content.get(v.key)
        if c is None and v.key not in self.st.seen:
            self.st.seen.add(v.key)
            c = self.cfg.init_content(self, v.key)
            if c is not None:
                self.st.content[v.key] = c
        return c

    def set_content(self, v, c):
        self.st.content[v.key] = c
        self.st.ver[v.key] = self.st.ver.get(v.key, 0) + 1 if isinstance(self.st.ver.get(v.key, 0), int) else \
            ('v', self.st.ver[v.key])

    def bump(self, k):
        o = self.st.ver.get(k, 0)
        self.st.ver[k] = o + 1 if isinstance(o, int) else ('v', o)

    def vkey(self, v):
        """Key naming the current contents of an object."""
        k = key(v)
        n = self.st.ver.get(k, 0) if isinstance(v, Sym) else 0
        return k if n == 0 else ('at', k, n)

    def deep(self, v, depth=0):
        """Structural key with known contents expanded."""
        if depth > 8:
            return key(v)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.deep(x, depth + 1) for x in v.items)
        if isinstance(v, View):
            return ('view', v.kind) + tuple(self.deep(x, depth + 1) for x in v.args)
        if isinstance(v, BoolV):
            return ('cmp', v.op, self.deep(v.a, depth + 1)) + (
                (self.deep(v.b, depth + 1),) if v.b is not None else ())
        if isinstance(v, Sym):
            c = self.st.content.get(v.key)
            if isinstance(c, LList):
                return ('list',) + tuple(self.deep(x, depth + 1) for x in c.items)
            if isinstance(c, MapSeq):
                return self.mapseq_key(c, depth)
            if isinstance(c, DDict):
                its = sorted(((self.deep(k, depth + 1), self.deep(x, depth + 1)) for k, x in c.items), key=repr)
                return ('dict', c.base) + tuple(its)
            if isinstance(c, MapDict):
                m = {c.idx: ('bound',)}
                return ('mapdict', c.src, subkey(key(c.k), m), subkey(self.deep(c.v, depth + 1), m),
                        subkey(c.guard, m))
            o = self.st.origin.get(v.key)
            if o is not None and v.key not in self.st.items and self.st.ver.get(v.key, 0) == 0:
                return o
            return self.vkey(v)
        return key(v)

    def mapseq_key(self, c, depth=0):
        m = {c.idx: ('bound',)}
        g = tuple(sorted(((subkey(k, m), b) for k, b in c.guard), key=repr))
        gl = tuple(sorted((subkey(key(l), m), k) for l, k in c.lin)) if c.lin else ()
        return ('map', c.src, subkey(self.deep(c.elem, depth + 1), m), g, gl) + (
            (tuple(self.deep(x, depth + 1) for x in c.pre),) if c.pre else ())

    def mklist(self, items, ident=None, kind='list'):
        s = Sym(ident) if ident is not None else self.new(kind)
        self.st.content[s.key] = LList(items)
        self.st.seen.add(s.key)
        return s

    def mkdict(self, items, ident=None, base=None):
        s = Sym(ident) if ident is not None else self.new('dict')
        self.st.content[s.key] = DDict(items, base)
        self.st.seen.add(s.key)
        return s

    def length(self, v):
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, str):
            return const(len(v.v))
        if isinstance(v, Sym):
            c = self.content(v)
            if isinstance(c, LList):
                return const(len(c.items))
            if isinstance(c, UList):
                return c.n + const(len(c.suffix))
            if isinstance(c, Heap):
                return c.n + const(len(c.known))
            if isinstance(c, Deq):
                return c.n + const(len(c.left) + len(c.right))
            if isinstance(c, MapSeq):
                if not c.guard and not c.lin:
                    return c.trip + const(len(c.pre))
                a = atom(('len', self.mapseq_key(c)))
                self.assume(a.scale(-1), '<=')
                self.assume(a - c.trip - const(len(c.pre)), '<=')
                return a
            if isinstance(c, DDict) and c.base is None:
                return const(len(c.items))
            l = self.cfg_len(v)
            if l is not None:
                return l
            k = self.deep(v)
            a = atom(('len', k))
            self.assume(a.scale(-1), '<=')
            if isinstance(k, tuple) and k[:1] == ('slice',) and len(k) == 5 and k[4] == key(NONE):
                # a part is no longer than the whole, nor than the number of elements asked for
                self.assume(a - atom(('len', k[1])), '<=')
                h = self.num(from_key(k[3])) if k[3] != key(NONE) and k[2] in (key(NONE), key(const(0))) else None
                if h is not None and self.entails(h.scale(-1), '<='):
                    self.assume(a - h, '<=')
            return a
        if isinstance(v, View):
            k = v.kind
            if k == 'range':
                a, b, s = v.args
                n = b - a
                if s == const(1):
                    if self.decide_lin(n, '<=', None):
                        return const(0)
                    return n
                if s == const(-1):
                    if self.decide_lin(n.scale(-1), '<=', None):
                        return const(0)
                    return n.scale(-1)
                x = atom(('len', key(v)))
                self.assume(x.scale(-1), '<=')
                return x
            if k in ('enumerate', 'reversed', 'items', 'keys', 'values', 'iter', 'mapf'):
                return self.length(v.args[-1] if k == 'mapf' else v.args[0])
            if k == 'zip':
                ls = [self.length(x) for x in v.args]
                m = ls[0]
                for l in ls[1:]:
                    if not self.decide_lin(m - l, '<=', None):
                        m = l
                return m
        if isinstance(v, Lin):
            l = self.cfg_len(v)
            if l is not None:
                return l
        a = atom(('len', self.deep(v)))
        self.assume(a.scale(-1), '<=')
        return a

    def cfg_len(self, v):
        f = getattr(self.cfg, 'length', None)
        return f(self, v) if f else None

    # ---- heaps

    def time_of(self, v, node=None):
        return self.num(self.getattr(v, '_time', node))

    def heap_key(self, v, node=None):
        """Ordering key of a heap element."""
        if isinstance(v, Tup):
            return self.num(v.items[0])
        if isinstance(v, Lin):
            return v
        return self.time_of(v, node)

    def heap_rest_head(self, hv, h):
        s = Sym(('hd', h.base, h.seq))
        if ('hdinit', s.key) not in self.st.seen:
            self.st.seen.add(('hdinit', s.key))
            t = self.heap_key(s)
            if h.floor is not None:
                self.assume(h.floor - t, '<=')
            f = getattr(self.cfg, 'heap_head_facts', None)
            if f:
                f(self, hv, s, t)
        return s

    def heap_min(self, hv, node, among_known_only=False):
        """Fork over which element is the minimum; returns ('rest', sym) or ('known', i)."""
        h = self.content(hv)
        memo = ('heapmin', hv.key, h)
        cands = []
        rest = None
        if not (h.n == const(0)):
            if self.decide_lin(h.n, '<=', node):
                h = h.repl(n=const(0))
                self.st.content[hv.key] = h
            else:
                rest = self.heap_rest_head(hv, h)
                cands.append(('rest', rest, self.heap_key(rest, node)))
        for i, x in enumerate(h.known):
            cands.append(('known', i, self.heap_key(x, node)))
        if not cands:
            raise PyRaise('IndexError', node)
        # candidates that can be minimal
        ok = []
        for j, c in enumerate(cands):
            cons = list(self.st.lin)
            for i, d in enumerate(cands):
                if i != j and d[2] is not None and c[2] is not None:
                    cons.append((c[2] - d[2], '<=') if j < i else (c[2] - d[2], '<'))
            if len(cands) == 1 or not self.dom.infeasible(cons):
                ok.append(j)
        if not ok:
            raise Infeasible()
        j = ok[self.choose(ok, node)]
        c = cands[j]
        for i, d in enumerate(cands):
            if i != j and c[2] is not None and d[2] is not None:
                # ties are broken by position among candidates: either order is a legal heap
                self.assume(*((c[2] - d[2], '<=') if j < i else (c[2] - d[2], '<')))
        return c

    def heap_pop(self, hv, node):
        h = self.content(hv)
        if isinstance(h, LList):
            h = Heap(hv.key, const(0), known=h.items)
            self.st.content[hv.key] = h
        if not isinstance(h, Heap):
            raise Undecided('heappop on %s' % show(hv.key))
        c = self.heap_min(hv, node)
        h = self.content(hv)
        if c[0] == 'rest':
            self.set_content(hv, h.repl(n=h.n - const(1), seq=h.seq + 1, floor=c[2]))
            return c[1]
        x = h.known[c[1]]
        self.set_content(hv, h.repl(known=h.known[:c[1]] + h.known[c[1] + 1:]))
        return x

    def heap_push(self, hv, x, node):
        h = self.content(hv)
        if isinstance(h, LList):
            h = Heap(hv.key, const(0), known=h.items)
        if not isinstance(h, Heap):
            raise Undecided('heappush on %s' % show(hv.key))
        self.set_content(hv, h.repl(known=h.known + (x,)))

    # ---- items

    def item(self, base, idx, node=None):
        if isinstance(base, Tup):
            if isinstance(idx, Lin) and not idx.t:
                i = int(idx.c)
                if -len(base.items) <= i < len(base.items):
                    return base.items[i]
                raise PyRaise('IndexError', node)
        if isinstance(base, Const) and isinstance(base.v, str) and isinstance(idx, Lin) and not idx.t:
            return Const(base.v[int(idx.c)])
        if isinstance(base, View) and base.kind == 'slice':
            pass
        if isinstance(base, View) and base.kind in ('range', 'enumerate', 'zip', 'reversed'):
            if isinstance(idx, Lin):
                return self.elem(base, idx)
        if isinstance(base, Sym) and isinstance(idx, Lin) and not idx.t and base.key[0] == 'slice' and \
                self.content(base) is None:
            k = base.key
            if len(k) == 5 and k[1][:1] in (('arg',), ('attr',), ('item',)) and \
                    k[2] in (('c', 'NoneType', None), ('c', 0)) and k[4] in (('c', 'NoneType', None), ('c', 1)) and \
                    k[3][:1] == ('c',) and len(k[3]) == 2 and 0 <= idx.c < k[3][1]:
                # an item of a leading part is an item of the whole
                return self.item(Sym(k[1]), idx, node)
        if isinstance(base, Sym):
            c = self.content(base)
            ik = isinstance(idx, Lin) and not idx.t
            if isinstance(c, LList):
                if ik:
                    i = int(idx.c)
                    if -len(c.items) <= i < len(c.items):
                        return c.items[i]
                    raise PyRaise('IndexError', node)
                return Sym(('item', self.deep(base), key(idx)))
            if isinstance(c, UList):
                if ik and idx.c < 0:
                    i = int(-idx.c)
                    if i <= len(c.suffix):
                        return c.suffix[-i]
                    return Sym(('item', c.base, ('c', Fraction(int(len(c.suffix) - i)))))
                return Sym(('item', c.base, key(idx)))
            if isinstance(c, Heap):
                if ik and idx.c == 0:
                    r = self.heap_min(base, node)
                    return r[1] if r[0] == 'rest' else self.content(base).known[r[1]]
                return self.fresh('heapslot')
            if isinstance(c, Deq):
                if ik and idx.c >= 0 and idx.c < len(c.left):
                    return c.left[int(idx.c)]
                if ik and idx.c == 0 and not self.decide_lin(c.n, '<=', node):
                    return deq_mid(c, c.lo)
                if ik and idx.c < 0 and -idx.c <= len(c.right):
                    return c.right[int(idx.c)]
                if ik and idx.c == 0:
                    if c.right:
                        return c.right[0]
                    raise PyRaise('IndexError', node)
                return self.fresh('dequeslot')
            if isinstance(c, MapSeq):
                if isinstance(idx, Lin) and not c.pre:
                    if ik and idx.c < 0:
                        idx = self.length(base) + idx
                    return self.elem(base, idx)
                return Sym(('item', self.mapseq_key(c), key(idx)))
            if isinstance(c, DDict):
                k = key(idx)
                for kk, v in reversed(c.items):
                    if key(kk) == k:
                        return v
                for kk, v in reversed(c.items):
                    if not self.distinct(kk, idx) and self.decide_eq(idx, kk, node):
                        return v
                if c.base is None:
                    raise PyRaise('KeyError', node)
                if not self.decide_in_base(idx, c, node):
                    raise PyRaise('KeyError', node)
                return self.base_item(c.base, idx)
            if isinstance(c, MapDict):
                return Sym(('item', self.deep(base), key(idx)))
            cls = self.class_of(base)
            if cls is not None:
                m = self.class_attr(cls, '__getitem__')
                if m:
                    return self.call(Bound(base, m[0]), [idx], {}, node)
            ov = self.st.items.get(base.key)
            ikey = key(idx)
            if self.key_try and not (ov and ikey in ov) and not isinstance(idx, View) and (
                    self.type_group(base) == 'dict' or not isinstance(idx, Lin) and
                    self.type_group(base) is None and not self.many(idx)):
                if not self.decide_opaque(('in', ikey, self.vkey(base)), node):
                    raise PyRaise('KeyError', node)
            if ov and ikey not in ov and self.many(idx):
                # several elements at once: a snapshot
                n = self.st.ver.get(base.key, 0)
                return Sym(('item', ('at', base.key, n) if n else self.ikey(base), self.deep(idx)))
            if ov:
                if ikey in ov:
                    if ov[ikey][1] is DELETED:
                        raise PyRaise('KeyError', node)
                    return ov[ikey][1]
                for k2, (iv, v) in reversed(list(ov.items())):
                    if v is DELETED or self.distinct(iv, idx):
                        continue
                    if isinstance(iv, (Lin, Sym)) and isinstance(idx, (Lin, Sym)):
                        a, b = self.num(iv), self.num(idx)
                        if a is not None and b is not None:
                            if self.entails(a - b, '=='):
                                return v
                            if not self.feasible(a - b, '=='):
                                continue
                    # may or may not be the same slot
                    if not self.may_alias_split(iv, idx, node):
                        continue
                    return v
            n = self.cfg.norm_item(self, base, idx)
            if n is not None:
                return n
            return Sym(('item', self.ikey(base), ikey))
        n = self.cfg.norm_item(self, base, idx)
        if n is not None:
            return n
        return Sym(('item', self.deep(base), key(idx)))

    def many(self, idx):
        if isinstance(idx, View):
            return True
        if isinstance(idx, Tup):
            return any(isinstance(x, View) for x in idx.items)
        f = getattr(self.cfg, 'many', None)
        return bool(f and f(self, idx))

    def ikey(self, base):
        """Base identity for item reads that are not overlaid."""
        k = base.key
        w = self.st.ver.get(('whole', k), 0)
        if w:
            return ('at', k, w)
        o = self.st.origin.get(k)
        return o if o is not None else k

    def may_alias_split(self, a, b, node):
        return self.decide_eq(a, b, node)

    def distinct(self, a, b):
        h = getattr(self.cfg, 'distinct', None)
        if h and h(self, a, b):
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v != b.v
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if not d.t:
                return d.c != 0
            return not self.feasible(d, '==')
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) != len(b.items) or any(self.distinct(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (Const, Tup, View)) != isinstance(b, (Const, Tup, View)) and \
                (isinstance(a, Lin) or isinstance(b, Lin)):
            return True
        if isinstance(a, View) and isinstance(b, View):
            return False
        k = self.bkey(BoolV('==', a, b))
        return self.st.bools.get(k) is False

    def decide_in_base(self, idx, c, node):
        k = ('in', key(idx), c.base)
        if k in self.st.bools:
            return self.st.bools[k]
        if getattr(self.cfg, 'dict_total', True):
            return True
        return self.decide_opaque(k, node)

    def base_item(self, basek, idx):
        n = self.cfg.norm_item(self, Sym(basek), idx)
        if n is not None:
            return n
        return Sym(('item', basek, key(idx)))

    def setitem(self, base, idx, v, node=None):
        self.event('setitem', 'setitem', [base, idx, v], node)
        f = getattr(self.cfg, 'store', None)
        if f and f(self, base, idx, v, node):
            return
        if isinstance(base, Sym):
            c = self.content(base)
            if isinstance(c, LList):
                if isinstance(idx, Lin) and not idx.t:
                    i = int(idx.c)
                    if not -len(c.items) <= i < len(c.items):
                        raise PyRaise('IndexError', node)
                    it = list(c.items)
                    it[i] = v
                    self.set_content(base, LList(it))
                    return
                if isinstance(idx, View):
                    if idx.args[0] == NONE and idx.args[1] == NONE or all(
                            isinstance(a, Const) and a.v is None for a in idx.args):
                        kn = self.known_iter(v)
                        if kn is not None:
                            self.set_content(base, LList(kn))
                            return
                # unknown slot: the list becomes opaque
                del self.st.content[base.key]
                self.bump(base.key)
                self.bump(('whole', base.key))
                self.st.items[base.key] = {key(idx): (idx, v)}
                return
            if isinstance(c, UList):
                if isinstance(idx, Lin) and not idx.t and idx.c < 0 and -idx.c <= len(c.suffix):
                    s = list(c.suffix)
                    s[int(idx.c)] = v
                    self.set_content(base, UList(c.base, c.n, s))
                    return
                raise Undecided('store into list')
            if isinstance(c, DDict):
                k = key(idx)
                it = list(c.items)
                for i, (kk, _) in enumerate(it):
                    if key(kk) == k:
                        it[i] = (kk, v)
                        break
                else:
                    for i, (kk, _) in enumerate(it):
                        if not self.distinct(kk, idx) and self.decide_eq(kk, idx, node):
                            it[i] = (kk, v)
                            break
                    else:
                        it.append((idx, v))
                self.set_content(base, DDict(it, c.base))
                return
            if isinstance(c, (Heap, Deq)):
                self.st.flags.append(('rawstore', base.key, self.loc(node)))
                raise Undecided('store into heap or deque slot')
            if isinstance(c, (MapSeq, MapDict)):
                del self.st.content[base.key]
                self.bump(base.key)
                self.bump(('whole', base.key))
                self.st.items[base.key] = {key(idx): (idx, v)}
                return
            cls = self.class_of(base)
            if cls is not None:
                m = self.class_attr(cls, '__setitem__')
                if m:
                    self.call(Bound(base, m[0]), [idx, v], {}, node)
                    return
            ov = dict(self.st.items.get(base.key, {}))
            ik = key(idx)
            keep = {}
            for k2, (iv, w) in ov.items():
                if k2 != ik:
                    keep[k2] = (iv, w)
            drop = [k2 for k2, (iv, w) in keep.items() if not self.distinct(iv, idx)]
            if drop:
                if any(isinstance(x, View) for x in (idx,)) or any(
                        isinstance(keep[k2][0], View) for k2 in drop):
                    self.bump(('whole', base.key))
                    keep = {}
                else:
                    for k2 in drop:
                        if self.decide_eq(keep[k2][0], idx, node):
                            del keep[k2]
            keep[ik] = (idx, v)
            self.st.items[base.key] = keep
            self.bump(base.key)
            return
        raise Undecided('item store on %s' % show(key(base)))

    def delitem(self, base, idx, node):
        self.event('delitem', 'delitem', [base, idx], node)
        if isinstance(base, Sym):
            c = self.content(base)
            if isinstance(c, DDict) and c.base is None:
                k = key(idx)
                n = [(a, b) for a, b in c.items if key(a) != k]
                if len(n) == len(c.items):
                    raise PyRaise('KeyError', node)
                self.set_content(base, DDict(n, None))
                return
            if isinstance(c, LList) and isinstance(idx, Lin) and not idx.t:
                it = list(c.items)
                del it[int(idx.c)]
                self.set_content(base, LList(it))
                return
            if isinstance(c, Deq) and isinstance(idx, Lin) and idx == const(0):
                self.method(base, 'popleft', [], {}, node)
                return
            if c is None:
                ov = dict(self.st.items.get(base.key, {}))
                ov[key(idx)] = (idx, DELETED)
                self.st.items[base.key] = ov
                self.bump(base.key)
                return
        raise Undecided('delete item')

    # ------------------------------------------------------------------ attributes

    def getattr(self, o, name, node=None):
        if isinstance(o, ModV):
            m = self.prog.module(o.name)
            if m is not None:
                sub = self.prog.module(o.name + '.' + name)
                if name in m.names or not sub:
                    return self.module_attr(m, name)
                return ModV(o.name + '.' + name)
            return self.ext(o.name + '.' + name)
        if isinstance(o, Ext):
            return self.ext(o.name + '.' + name)
        if isinstance(o, SuperV):
            cls = self.class_of(o.self_)
            r = self.class_attr(cls, name, after=o.cls) if cls is not None else None
            if r is None:
                return ExtMeth(o, name)
            v, c = r
            if isinstance(v, Fn):
                if self.deco(v.node, 'property'):
                    return self.call(Bound(o.self_, v), [], {}, node)
                return Bound(o.self_, v)
            return v
        if isinstance(o, ClassV):
            r = self.class_attr(o, name)
            if r is None:
                if name == '__name__':
                    return Const(o.qual)
                if any(isinstance(c, Ext) for c in self.mro(o)):
                    return ExtMeth(o, name)
                raise PyRaise('AttributeError', node, (name,))
            if isinstance(r[0], Fn) and self.deco(r[0].node, 'classmethod'):
                return Bound(o, r[0])
            return r[0]
        if isinstance(o, Sym):
            k = (o.key, name)
            if k in self.st.attrs:
                return self.st.attrs[k]
            if o.key in self.st.content:
                return ExtMeth(o, name)
            cls = self.class_of(o)
            if cls is not None:
                if name == '__class__':
                    return cls
                if name == '__dict__':
                    raise Undecided('__dict__')
                r = self.class_attr(cls, name)
                if r is not None:
                    v, c = r
                    if isinstance(v, Fn):
                        if self.deco(v.node, 'property'):
                            return self.call(Bound(o, v), [], {}, node)
                        if self.deco(v.node, 'staticmethod'):
                            return v
                        if self.deco(v.node, 'classmethod'):
                            return Bound(cls, v)
                        return Bound(o, v)
                    i = self.cfg.init_attr(self, o.key, name)
                    if i is not None:
                        self.st.attrs[k] = i
                        self.inits[k] = i
                        return i
                    return v
                i = self.cfg.init_attr(self, o.key, name)
                if i is not None:
                    self.st.attrs[k] = i
                    self.inits[k] = i
                    return i
                if o.key[0] == 'new' or not self.assigned_in_class(cls, name):
                    exts = [c for c in self.mro(cls) if isinstance(c, Ext) and c.name != 'builtins.object']
                    if not exts:
                        raise PyRaise('AttributeError', node, (name,))
                    return ExtMeth(o, name)
                if any(isinstance(c, Ext) and c.name != 'builtins.object' for c in self.mro(cls)) and \
                        not self.assigned_in_class(cls, name):
                    return ExtMeth(o, name)
                v = Sym(('attr', o.key, name))
                self.st.attrs[k] = v
                return v
            if self.content(o) is not None:
                return ExtMeth(o, name)
            i = self.cfg.init_attr(self, o.key, name)
            if i is not None:
                self.st.attrs[k] = i
                self.inits[k] = i
                return i
            return ExtMeth(o, name)
        return ExtMeth(o, name)

    def assigned_in_class(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassV):
                if not hasattr(c.node, '_stores'):
                    c.node._stores = {n.attr for n in ast.walk(c.node)
                                      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
                if name in c.node._stores:
                    return True
        return False

    def as_data(self, v):
        """An opaque attribute read used as a value rather than called."""
        if isinstance(v, ExtMeth):
            o = v.self_
            if isinstance(o, Sym):
                return Sym(('attr', self.vkey(o), v.name))
            return Sym(('attr', key(o), v.name))
        return v

    def setattr(self, o, name, v, node=None):
        if isinstance(o, Sym):
            cls = self.class_of(o)
            if cls is not None:
                s = self.setter(cls, name)
                if s == 'readonly':
                    raise PyRaise('AttributeError', node, (name, 'read-only property'))
                if s is not None:
                    self.call(Bound(o, s), [v], {}, node)
                    return
            self.event('setattr', name, [o, v], node)
            if name == '_time':
                self.check_heap_key(o, v, node)
            self.st.attrs[(o.key, name)] = v
            return
        if isinstance(o, ClassV):
            self.event('setclsattr', name, [o, v], node)
            self.st.attrs[(('clsattr', o.qual, name), '')] = v
            return
        if isinstance(o, (ExtMeth, Ext, ModV, Fn)):
            self.event('setattr', name, [o, v], node)
            return
        raise Undecided('attribute store on %s' % show(key(o)))

    def check_heap_key(self, o, v, node):
        old = self.st.attrs.get((o.key, '_time'))
        for hk, c in self.st.content.items():
            if isinstance(c, Heap):
                inside = any(isinstance(x, Sym) and x.key == o.key for x in c.known)
                if not inside and o.key[0] == 'hd' and o.key[1] == c.base and o.key[2] >= c.seq:
                    inside = True
                if inside:
                    self.st.flags.append(('heapkey', hk, self.loc(node)))

    # ------------------------------------------------------------------ events

    def event(self, kind, name, args, node, res=None, info=None, kw=None):
        e = Ev(kind, name, args, kw, res, self.loc(node), self.frames[-1].fn.qual if self.frames and
               self.frames[-1].fn else None, info, self.cfg.watch(self))
        e.deep = [self.deep(a) if isinstance(a, Value) or isinstance(a, Lin) else None for a in args]
        self.st.events.append(e)
        return e

    # ------------------------------------------------------------------ calls

    def call(self, f, args, kw, node=None, star=None, dstar=None):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Undecided('step budget')
        r = self.cfg.call(self, f, args, kw, node)
        if r is not NotImplemented:
            return r
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self_] + list(args), kw, node, dstar)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw, node, dstar)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, node, dstar)
        if isinstance(f, Ext):
            from .models import call_ext
            return call_ext(self, f.name, list(args), kw, node, dstar)
        if isinstance(f, ExtMeth):
            return self.method(f.self_, f.name, list(args), kw, node, dstar)
        if isinstance(f, View) and f.kind == 'itemgetter':
            r = [self.item(args[0], i, node) for i in f.args]
            return r[0] if len(r) == 1 else Tup(r)
        if isinstance(f, View) and f.kind == 'attrgetter':
            r = [self.as_data(self.getattr(args[0], i.v, node)) for i in f.args]
            return r[0] if len(r) == 1 else Tup(r)
        if isinstance(f, View) and f.kind == 'partial':
            return self.call(f.args[0], list(f.args[1:]) + list(args), kw, node)
        if isinstance(f, Sym):
            cls = self.class_of(f)
            if cls is not None:
                m = self.class_attr(cls, '__call__')
                if m:
                    return self.call(Bound(f, m[0]), args, kw, node)
            return self.callback(f, args, kw if dstar is None else dict(kw, **{'**': dstar}), node)
        raise Undecided('call of %s' % show(key(f)))

    def callback(self, f, args, kw, node):
        """A call of a caller-supplied value: any result."""
        n = self.st.counters.get(('cb', f.key), 0)
        self.st.counters[('cb', f.key)] = n + 1
        res = Sym(('ret', f.key, n) + tuple(self.cur_ix))
        self.event('callback', show(f.key), [f] + list(args), node, res, kw=kw)
        return res

    def instantiate(self, c, args, kw, node, dstar=None):
        if any(isinstance(b, Ext) and b.name.split('.')[-1] in EXC_BASES for b in self.mro(c)):
            o = self.new('exc:' + c.qual)
            self.st.cls[o.key] = c
            return o
        o = self.new(c.qual)
        self.st.cls[o.key] = c
        self.event('new', c.qual, [o] + list(args), node, o, kw=kw)
        m = self.class_attr(c, '__init__')
        if m is not None:
            self.call_fn(m[0], [o] + list(args), kw, node, dstar)
        elif any(isinstance(b, Ext) for b in self.mro(c)):
            self.method(SuperV(c, o), '__init__', list(args), kw, node)
        return o

    def bind_args(self, fn, args, kw, node, dstar):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params):
            if a.vararg:
                loc[a.vararg.arg] = Tup(args[len(params):])
            else:
                raise PyRaise('TypeError', node, ('too many arguments for ' + str(fn.qual),))
        elif a.vararg:
            loc[a.vararg.arg] = Tup([])
        for p, v in zip(params, args):
            loc[p] = v
        rest = {}
        for k, v in kw.items():
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in loc:
                    raise PyRaise('TypeError', node, ('multiple values for ' + k,))
                loc[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise PyRaise('TypeError', node, ('unexpected keyword %s for %s' % (k, fn.qual),))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in params + [q.arg for q in a.kwonlyargs]:
            if p in loc:
                continue
            if dstar is not None:
                # an open keyword dict may or may not supply p
                k = ('in', ('c', 'str', p), dstar.key)
                if self.decide_opaque(k, node):
                    loc[p] = self.item_of_open(dstar, p)
                    continue
            if p in defaults:
                loc[p] = self.default_value(fn, p, defaults[p])
            else:
                raise PyRaise('TypeError', node, ('missing argument %s of %s' % (p, fn.qual),))
        if a.kwarg:
            d = self.mkdict([(Const(k), v) for k, v in rest.items()],
                            base=None if dstar is None else ('rest', dstar.key, fn.qual))
            loc[a.kwarg.arg] = d
        return loc

    def item_of_open(self, d, name):
        return Sym(('item', d.key, ('c', 'str', name)))

    def default_value(self, fn, p, dnode):
        k = ('default', fn.mod.name, fn.qual, p)
        if (k, '') in self.st.attrs and fn.closure is None:
            return self.st.attrs[(k, '')]
        fr = Frame(fn.closure.fid if fn.closure else None, None, fn.closure.parent if fn.closure else None,
                   fn.cls, fn.mod)
        self.frames.append(fr)
        try:
            v = self.eval(dnode, ident=k)
        finally:
            self.frames.pop()
        self.st.attrs[(k, '')] = v
        return v

    def call_fn(self, fn, args, kw, node, dstar=None):
        depth = sum(1 for f in self.frames if f.fn is not None and f.fn.node is fn.node)
        if depth > 2 or len(self.frames) > 60:
            raise Undecided('recursion in %s' % fn.qual)
        loc = self.bind_args(fn, args, kw, node, dstar)
        if self.cfg.record_calls:
            self.event('enter', fn.qual, args, node, kw=kw)
        self.visited.add((fn.mod.rel, fn.qual))
        n = self.st.counters.get('frame', 0)
        self.st.counters['frame'] = n + 1
        fr = Frame(n, fn, fn.closure, fn.cls, fn.mod)
        self.st.locals[n] = loc
        self.frames.append(fr)
        isgen = getattr(fn.node, '_isgen', None)
        if isgen is None:
            isgen = fn.node._isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                                         for x in self.walk_own(fn.node))
        if isgen:
            fr.yields = self.mklist([])
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body)
            sig = self.block(fn.node.body)
            if sig is not None and sig[0] == 'return':
                if fr.yields is not None:
                    return fr.yields
                return sig[1]
            if fr.yields is not None:
                return fr.yields
            return NONE
        finally:
            self.frames.pop()
            if self.cfg.record_calls:
                self.event('exit', fn.qual, args[:1], node)
            if not self.captured(fn.node):
                self.st.locals.pop(n, None)

    def captured(self, node):
        r = getattr(node, '_cap', None)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node for x in ast.walk(node))
            node._cap = r
        return r

    def walk_own(self, node):
        stack = list(ast.iter_child_nodes(node))
        while stack:
            x = stack.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack.extend(ast.iter_child_nodes(x))

    def method(self, o, name, args, kw, node, dstar=None):
        from .models import call_method
        return call_method(self, o, name, args, kw, node, dstar)

    # ------------------------------------------------------------------ statements

    def block(self, stmts):
        for s in stmts:
            sig = self.stmt(s)
            if sig is not None:
                return sig
        return None

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Undecided('step budget')
        self.nodes.add(id(s))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('%s: statement %s' % (self.loc(s), type(s).__name__))
        return m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value) if s.value.value else NONE
            self.method(self.frames[-1].yields, 'append', [v], {}, s)
            return None
        if isinstance(s.value, ast.YieldFrom):
            v = self.eval(s.value.value)
            self.method(self.frames[-1].yields, 'extend', [v], {}, s)
            return None
        self.eval(s.value)

    def x_Pass(self, s):
        return None

    def x_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            self.setlocal(a.asname or a.name.split('.')[0], ModV(a.name if a.asname else a.name.split('.')[0]))

    def x_ImportFrom(self, s):
        mod = self.frames[-1].mod._abs(s)
        m = self.prog.module(mod)
        for a in s.names:
            if self.prog.module(mod + '.' + a.name) is not None:
                v = ModV(mod + '.' + a.name)
            elif m is not None:
                v = self.module_attr(m, a.name)
            else:
                v = self.ext(mod + '.' + a.name)
            self.setlocal(a.asname or a.name, v)

    def x_FunctionDef(self, s):
        f = self.frames[-1]
        self.setlocal(s.name, Fn(s, f.mod, None, f, (f.fn.qual + '.' if f.fn else '') + s.name))

    def x_ClassDef(self, s):
        raise Undecided('nested class')

    def x_Return(self, s):
        return ('return', self.eval(s.value) if s.value is not None else NONE)

    def x_Break(self, s):
        return ('break',)

    def x_Continue(self, s):
        return ('continue',)

    def x_Assert(self, s):
        if not self.truth(self.eval(s.test), s):
            raise PyRaise('AssertionError', s)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setlocal(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice), s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.event('delattr', t.attr, [o], s)
                if isinstance(o, Sym):
                    self.st.attrs.pop((o.key, t.attr), None)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)
        elif isinstance(s.target, ast.Name) and self.frames[-1].fid is not None:
            self.st.locals[self.frames[-1].fid].setdefault(s.target.id, UNBOUND)

    def assign(self, t, v, node):
        v = self.as_data(v) if isinstance(v, ExtMeth) and False else v
        if isinstance(t, ast.Name):
            self.setlocal(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, self.as_data(v), node)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.as_data(self.eval(t.value)), self.eval_index(t.slice), self.as_data(v), node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.as_data(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            kn = self.known_iter(v)
            if stars:
                if kn is None:
                    raise Undecided('starred unpack')
                i = stars[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], kn):
                    self.assign(e, x, node)
                self.assign(t.elts[i].value, self.mklist(kn[i:len(kn) - after]), node)
                for e, x in zip(t.elts[i + 1:], kn[len(kn) - after:]):
                    self.assign(e, x, node)
                return
            if kn is not None:
                if len(kn) != len(t.elts):
                    raise PyRaise('ValueError', node, ('unpack',))
                for e, x in zip(t.elts, kn):
                    self.assign(e, x, node)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.item(v, const(i), node), node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        else:
            raise Undecided('assignment target')

    def x_AugAssign(self, s):
        t = s.target
        r = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, s)
            r = self.eval(s.value)
            v = self.iop(s.op, cur, r, s)
            self.setlocal(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.as_data(self.getattr(o, t.attr, s))
            r = self.eval(s.value)
            self.setattr(o, t.attr, self.iop(s.op, cur, r, s), s)
        elif isinstance(t, ast.Subscript):
            o = self.as_data(self.eval(t.value))
            i = self.eval_index(t.slice)
            cur = self.item(o, i, s)
            r = self.eval(s.value)
            self.setitem(o, i, self.iop(s.op, cur, r, s), s)
        else:
            raise Undecided('augmented target')

    def iop(self, op, cur, r, node):
        if isinstance(op, ast.Add) and isinstance(cur, Sym) and isinstance(
                self.content(cur), (LList, UList, MapSeq, Deq)):
            self.method(cur, 'extend', [r], {}, node)
            return cur
        return self.binop(op, cur, r, node)

    def x_If(self, s):
        if self.truth(self.eval(s.test), s):
            return self.block(s.body)
        return self.block(s.orelse)

    def x_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        return self.block(s.body)

    def x_Raise(self, s):
        if s.exc is None:
            raise PyRaise(getattr(self, 'current_exc', 'Exception'), s)
        e = s.exc
        name = None
        args = ()
        if isinstance(e, ast.Call):
            f = self.eval(e.func)
            args = tuple(self.eval(a) for a in e.args)
        else:
            f = self.eval(e)
        if isinstance(f, ClassV):
            name = f.qual
        elif isinstance(f, Ext):
            name = f.name.replace('builtins.', '')
        elif isinstance(f, Sym):
            c = self.class_of(f)
            name = c.qual if c is not None else (f.key[1] if f.key[0] == 'excval' else 'Exception')
        self.event('raise', name or '?', [], s)
        raise PyRaise(name or 'Exception', s, args, self.loc(s))

    def exc_matches(self, name, pat):
        if pat in ('BaseException', 'Exception'):
            return True
        seen = set()
        while name and name not in seen:
            seen.add(name)
            if name == pat or name.split('.')[-1] == pat.split('.')[-1]:
                return True
            name = EXC_BASES.get(name)
        return False

    key_try = False

    def catches_key(self, s):
        """Does a handler of the statement catch a failing look-up?"""
        for h in s.handlers:
            for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                if t is None or isinstance(t, ast.Name) and t.id in ('KeyError', 'LookupError', 'Exception',
                                                                      'BaseException'):
                    return True
        return self.key_try

    def x_Try(self, s):
        sig = None
        pending = None
        ext = getattr(self.cfg, 'ext_raises', False)
        try:
            try:
                if ext:
                    self.try_depth = getattr(self, 'try_depth', 0) + 1
                keyed, self.key_try = self.key_try, self.catches_key(s)
                try:
                    sig = self.block(s.body)
                finally:
                    self.key_try = keyed
                    if ext:
                        self.try_depth -= 1
                if sig is None and s.orelse:
                    sig = self.block(s.orelse)
            except PyRaise as e:
                handled = False
                for h in s.handlers:
                    if h.type is None:
                        pats = ['BaseException']
                    else:
                        tv = self.eval(h.type)
                        tvs = tv.items if isinstance(tv, Tup) else [tv]
                        pats = [(x.qual if isinstance(x, ClassV) else x.name.replace('builtins.', ''))
                                if isinstance(x, (ClassV, Ext)) else 'Exception' for x in tvs]
                    if e.exc == '<ext>' and h.type is not None:
                        e2 = pats[0]
                        match = True
                    else:
                        e2 = e.exc
                        match = any(self.exc_matches(e.exc, p) for p in pats)
                    if match:
                        handled = True
                        if h.name:
                            self.setlocal(h.name, Sym(('excval', e2)))
                        old = getattr(self, 'current_exc', None)
                        self.current_exc = e2
                        try:
                            sig = self.block(h.body)
                        finally:
                            self.current_exc = old
                        break
                if not handled:
                    raise
        except PyRaise as e:
            pending = e
        if s.finalbody:
            fs = self.block(s.finalbody)
            if fs is not None:
                return fs
        if pending is not None:
            raise pending
        return sig

    # ------------------------------------------------------------------ loops

    def known_iter(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Const) and isinstance(v.v, str):
            return [Const(c) for c in v.v]
        if isinstance(v, Sym):
            c = self.content(v)
            if isinstance(c, LList):
                return list(c.items)
            if isinstance(c, DDict) and c.base is None:
                return [k for k, _ in c.items]
            if isinstance(c, Deq) and c.n == const(0):
                return list(c.left) + list(c.right)
            if isinstance(c, Heap) and c.n == const(0):
                return list(c.known)
            return None
        if isinstance(v, View):
            if v.kind == 'range':
                a, b, st = v.args
                if all(isinstance(x, Lin) and not x.t for x in v.args):
                    r = range(int(a.c), int(b.c), int(st.c))
                    if len(r) <= 40:
                        return [const(i) for i in r]
                return None
            if v.kind in ('enumerate',):
                k = self.known_iter(v.args[0])
                return None if k is None else [Tup([v.args[1] + const(i), x]) for i, x in enumerate(k)]
            if v.kind == 'zip':
                ks = [self.known_iter(x) for x in v.args]
                if any(k is None for k in ks):
                    return None
                return [Tup(t) for t in zip(*ks)]
            if v.kind == 'reversed':
                k = self.known_iter(v.args[0])
                return None if k is None else k[::-1]
            if v.kind in ('keys', 'iter'):
                return self.known_iter(v.args[0])
            if v.kind in ('items', 'values'):
                c = self.content(v.args[0])
                if isinstance(c, DDict) and c.base is None:
                    return [Tup([k, x]) if v.kind == 'items' else x for k, x in c.items]
            if v.kind == 'mapf':
                k = self.known_iter(v.args[1])
                return None if k is None else [self.call(v.args[0], [x], {}, None) for x in k]
        return None

    def seqkey(self, v):
        return self.deep(v)

    def elem(self, v, i):
        """The i-th element of a sequence whose elements are not enumerated."""
        if isinstance(v, View):
            k = v.kind
            if k == 'range':
                if v.args[2] == const(1):
                    return v.args[0] + i
                if v.args[2] == const(-1):
                    return v.args[0] - i
                return Sym(('elem', key(v), key(i)))
            if k == 'enumerate':
                return Tup([v.args[1] + i, self.elem(v.args[0], i)])
            if k == 'zip':
                return Tup([self.elem(x, i) for x in v.args])
            if k == 'reversed':
                return self.elem(v.args[0], self.length(v.args[0]) - const(1) - i)
            if k == 'iter':
                return self.elem(v.args[0], i)
            if k == 'mapf':
                return self.call(v.args[0], [self.elem(v.args[1], i)], {}, None)
            if k in ('keys', 'items', 'values'):
                d = v.args[0]
                c = self.content(d) if isinstance(d, Sym) else None
                if isinstance(c, MapDict):
                    m = {c.idx: key(i)}
                    kk, vv = subval(c.k, m), subval(c.v, m)
                else:
                    if isinstance(c, DDict) and c.items:
                        kk = Sym(('dkey', self.deep(d), key(i)))
                        vv = Sym(('item', self.deep(d), kk.key))
                        return {'keys': kk, 'values': vv, 'items': Tup([kk, vv])}[k]
                    kk = Sym(('dkey', self.vkey(d), key(i)))
                    vv = self.item(d, kk)
                return {'keys': kk, 'values': vv, 'items': Tup([kk, vv])}[k]
        if isinstance(v, Sym):
            c = self.content(v)
            if isinstance(c, LList):
                if isinstance(i, Lin) and not i.t and 0 <= i.c < len(c.items):
                    return c.items[int(i.c)]
                return Sym(('elem', self.deep(v), key(i)))
            if isinstance(c, MapSeq) and not c.pre:
                if c.guard or c.lin:
                    sel = ('sel', self.mapseq_key(c), key(i))
                    m = {c.idx: sel}
                    a = atom(sel)
                    self.assume(a.scale(-1), '<=')
                    self.assume(a - c.trip + const(1), '<=')
                    for gk, gb in c.guard:
                        self.st.bools.setdefault(subkey(gk, m), gb)
                    for l, kd in c.lin:
                        self.assume(subval(l, m), kd)
                else:
                    m = {c.idx: key(i)}
                return subval(c.elem, m)
            if isinstance(c, DDict):
                return Sym(('dkey', self.deep(v), key(i)))
            if isinstance(c, MapDict):
                return subval(c.k, {c.idx: key(i)})
            if isinstance(c, (Deq,)):
                return deq_mid(c, c.lo + i)
            if c is None:
                if self.type_group(v) == 'dict':
                    return Sym(('dkey', self.vkey(v), key(i)))
                n = self.cfg_elem(v, i)
                if n is not None:
                    return n
                return Sym(('elem', self.deep(v), key(i)))
        return Sym(('elem', self.deep(v), key(i)))

    def cfg_elem(self, v, i):
        f = getattr(self.cfg, 'elem', None)
        return f(self, v, i) if f else None

    def x_For(self, s):
        itv = self.as_data(self.eval(s.iter))
        if isinstance(itv, Sym):
            cls = self.class_of(itv)
            if cls is not None:
                m = self.class_attr(cls, '__iter__')
                if m:
                    itv = self.call(Bound(itv, m[0]), [], {}, s)
        return self.for_loop(s, itv, lambda v: self.assign(s.target, v, s), lambda: self.block(s.body),
                             (lambda: self.block(s.orelse)) if s.orelse else None)

    def for_loop(self, node, itv, bind, body, orelse=None):
        kn = self.known_iter(itv)
        if kn is not None:
            for v in kn:
                bind(v)
                sig = body()
                if sig is None or sig[0] == 'continue':
                    continue
                if sig[0] == 'break':
                    return None
                return sig
            return orelse() if orelse else None
        trip = self.length(itv)
        if self.decide_lin(trip, '<=', node):
            self.event('loop0', 'loop', [], node, info={'iter': self.seqkey(itv)})
            return orelse() if orelse else None
        n = self.st.counters.get('loop', 0)
        self.st.counters['loop'] = n + 1
        lid = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), n)
        ix = ('ix', lid)
        src = self.seqkey(itv)

        def generic(i):
            def run():
                bind(self.elem(itv, i))
                return body()
            return self.in_iter(key(i), run)

        paths, hav = self.stabilise(node, lid, atom(ix), trip, lambda: generic(atom(ix)))
        bad = [p for p in paths if p[0] is not None and p[0][0] != 'continue']
        good = [p for p in paths if p[0] is None or p[0][0] == 'continue']
        opts = (['complete'] if good or not paths else []) + (['exit'] if bad else [])
        if not opts:
            raise Infeasible()
        c = opts[self.choose(opts, node)]
        info = {'iter': src, 'iterv': itv, 'ix': ix, 'trip': trip, 'paths': paths, 'complete': c == 'complete',
                'node': node, 'fid': self.frames[-1].fid if self.frames else None}
        if c == 'complete':
            self.event('loop', 'loop', [], node, info=info)
            self.note(node, 'loop over %s runs to the end' % show(src))
            self.apply_havoc(hav, lid, trip, final=True, paths=good, ix=ix, trip=trip, src=src)
            # the loop variable keeps its last value
            bind(self.elem(itv, trip - const(1)))
            return orelse() if orelse else None
        k = ('ix', lid + ('x',))
        info['exit_ix'] = k
        self.event('loop', 'loop', [], node, info=info)
        self.note(node, 'loop over %s leaves early' % show(src))
        self.assume(atom(k).scale(-1), '<=')
        self.assume(atom(k) - trip + const(1), '<=')
        self.apply_havoc(hav, lid, atom(k), final=True, paths=good, ix=ix, trip=atom(k), src=src)
        sig = generic(atom(k))
        if sig is None or sig[0] == 'continue':
            raise Infeasible()
        return None if sig[0] == 'break' else sig

    def x_While(self, s):
        if not self.truth(self.eval(s.test), s):
            self.event('loop0', 'while', [], s)
            return self.block(s.orelse)
        n = self.st.counters.get('loop', 0)
        self.st.counters['loop'] = n + 1
        lid = (s.lineno, s.col_offset, n)
        ix = ('ix', lid)

        def generic(i):
            def run():
                if not self.truth(self.eval(s.test), s):
                    raise Infeasible()
                return self.block(s.body)
            return self.in_iter(i, run)

        paths, hav = self.stabilise(s, lid, atom(ix), None, lambda: generic(ix))
        good = [p for p in paths if p[0] is None or p[0][0] == 'continue']
        if not hav and good and len(good) == len(paths) and not any(p[1].events for p in good):
            # an iteration that changes nothing, and nothing leaves: it never ends
            self.stuck[self.loc(s)] = self.st.copy()
        k = ('ix', lid + ('x',))
        self.event('loop', 'while', [], s, info={'iter': None, 'ix': ix, 'trip': None, 'paths': paths,
                                                 'complete': None, 'node': s, 'exit_ix': k,
                                                 'fid': self.frames[-1].fid if self.frames else None})
        self.assume(atom(k).scale(-1), '<=')
        self.apply_havoc(hav, lid, atom(k), final=True, paths=good, ix=ix, trip=atom(k), src=('while', lid))
        if not good:
            self.assume(atom(k), '==')
        sig = generic(k)
        if sig is None or sig[0] == 'continue':
            if self.truth(self.eval(s.test), s):
                raise Infeasible()
            self.event('loopend', 'while', [], s, info={'ix': k})
            return self.block(s.orelse)
        self.event('loopexit', 'while', [], s, info={'ix': k, 'how': sig[0]})
        return None if sig[0] == 'break' else sig

    def stabilise(self, node, lid, ix, trip, run):
        hav = {}
        base = self.st
        f = getattr(self.cfg, 'loop_entry', None)
        if f:
            f(self, node, lid, ix, trip)
        for rnd in range(10):
            self.st = base.copy()
            self.assume(ix.scale(-1), '<=')
            if trip is not None:
                self.assume(ix - trip + const(1), '<=')
            self.apply_havoc(hav, lid, ix)
            start = self.st
            self.st.events = []
            nl, nb = len(start.lin), dict(start.bools)
            paths = self.explore_nested((id(node), lid, rnd), run)
            self.st = base
            new = self.diff_havoc(base, start, paths, hav, ix)
            if new == hav:
                out = []
                for sig, st in paths:
                    out.append((sig, st, start, [c for c in st.lin[nl:]],
                                [(k, v) for k, v in st.bools.items() if k not in nb]))
                return out, hav
            hav = new
        raise Undecided('%s: loop does not stabilise' % self.loc(node))

    def diff_havoc(self, base, start, paths, hav, ix):
        new = dict(hav)
        for sig, st in paths:
            if sig is not None and sig[0] != 'continue':
                continue
            for k, v in st.attrs.items():
                v0 = start.attrs.get(k)
                if v0 is None:
                    if k in base.attrs:
                        continue
                    # first touched inside the body: compare with its initial symbol
                    if not self.same(v, Sym(('attr', k[0], k[1]))) and not self.same(v, self.inits.get(k)) \
                            and isinstance(k[0], tuple) and \
                            k[0][0] not in ('modattr', 'clsattr', 'default'):
                        self.merge(new, ('attr', k), None if k[0][0] == 'new' else 'any', v)
                    continue
                if not self.same(v, v0):
                    self.merge(new, ('attr', k), self.delta(v0, v), v)
            for k, v in st.content.items():
                v0 = start.content.get(k)
                if v0 is None or same_content(v0, v):
                    continue
                if isinstance(v0, Heap) and isinstance(v, Heap) and (v0.base, v0.seq) == (v.base, v.seq) and \
                        [key(x) for x in v0.known] == [key(x) for x in v.known]:
                    continue        # only learned how many elements there are
                self.merge(new, ('content', k), self.cdelta(v0, v), v)
            for k in list(start.content):
                if k not in st.content:
                    self.merge(new, ('content', k), 'gone', None)
            for k, v in st.items.items():
                if start.items.get(k) != v and start.items.get(k) is not v:
                    self.merge(new, ('items', k), 'any', v)
            for k, v in st.ver.items():
                if start.ver.get(k, 0) != v:
                    self.merge(new, ('ver', k), 'any', v)
            for k, v in st.counters.items():
                if isinstance(k, tuple) and k[0] == 'cb' and start.counters.get(k, 0) != v:
                    self.merge(new, ('cb', k), 'any', v)
            for fid, loc in start.locals.items():
                l2 = st.locals.get(fid, {})
                for k, v in l2.items():
                    v0 = loc.get(k)
                    if v0 is None:
                        self.merge(new, ('local', fid, k), 'any', v)
                    elif not self.same(v, v0):
                        self.merge(new, ('local', fid, k), self.delta(v0, v), v)
            # a location with a constant step must take that step on every path
        for loc, d in list(new.items()):
            if isinstance(d, tuple) and d[0] == 'd':
                for sig, st in paths:
                    if sig is not None and sig[0] != 'continue':
                        continue
                    v0, v = self.locval(start, loc), self.locval(st, loc)
                    if v0 is None or v is None:
                        continue
                    if loc[0] == 'content':
                        dd = self.cdelta(v0, v) if not same_content(v0, v) else ('d', const(0))
                    else:
                        dd = self.delta(v0, v)
                    if dd != d:
                        new[loc] = 'mono+' if self.nonneg(dd) and self.nonneg(d) else 'any'
        return new

    @staticmethod
    def nonneg(d):
        return isinstance(d, tuple) and d[0] == 'd' and isinstance(d[1], Lin) and not d[1].t and d[1].c >= 0

    def locval(self, st, loc):
        if loc[0] == 'attr':
            return st.attrs.get(loc[1])
        if loc[0] == 'content':
            return st.content.get(loc[1])
        if loc[0] == 'local':
            return st.locals.get(loc[1], {}).get(loc[2])
        return None

    def merge(self, new, loc, d, v):
        if d is None:
            return
        o = new.get(loc)
        if o is None:
            new[loc] = d
        elif o != d:
            if o == 'mono+' and (d == 'mono+' or self.nonneg(d)):
                return
            new[loc] = 'any'

    def same(self, a, b):
        if a is b:
            return True
        if a is UNBOUND or b is UNBOUND or a is DELETED or b is DELETED:
            return False
        try:
            return key(a) == key(b)
        except TypeError:
            return False

    def delta(self, v0, v):
        if isinstance(v0, (Lin, Sym)) and isinstance(v, (Lin, Sym)):
            a = v0 if isinstance(v0, Lin) else atom(v0.key)
            b = v if isinstance(v, Lin) else atom(v.key)
            d = b - a
            if not d.t:
                return ('d', d)
        return 'any'

    def cdelta(self, v0, v):
        if isinstance(v0, Heap) and isinstance(v, Heap):
            d = (v.n + const(len(v.known))) - (v0.n + const(len(v0.known)))
            return ('d', d) if not d.t else 'any'
        if isinstance(v0, Deq) and isinstance(v, Deq):
            d = (v.n + const(len(v.left) + len(v.right))) - (v0.n + const(len(v0.left) + len(v0.right)))
            return ('d', d) if not d.t else 'any'
        if isinstance(v0, (LList, UList)) and isinstance(v, (LList, UList, MapSeq)):
            return 'grow'
        if isinstance(v0, DDict) and isinstance(v, (DDict, MapDict)):
            return 'grow'
        return 'any'

    def apply_havoc(self, hav, lid, k, final=False, paths=None, ix=None, trip=None, src=None):
        st = self.st
        for loc, d in hav.items():
            tag = ('lv', lid, loc[1:] if loc[0] != 'attr' else loc[1])
            if final:
                tag = tag + ('end',) if trip is not None else tag
            if loc[0] in ('attr', 'local'):
                v0 = self.locval(st, loc)
                if isinstance(d, tuple) and d[0] == 'd' and isinstance(v0, (Lin, Sym)):
                    base = v0 if isinstance(v0, Lin) else atom(v0.key)
                    v = base + self.scale_by(d[1], k)
                else:
                    v = Sym(tag)
                    if d == 'mono+' and isinstance(v0, (Lin, Sym)):
                        base = v0 if isinstance(v0, Lin) else atom(v0.key)
                        self.assume(base - atom(tag), '<=')
                    f = getattr(self.cfg, 'loopvar', None)
                    if f:
                        f(self, loc, v)
                if loc[0] == 'attr':
                    st.attrs[loc[1]] = v
                else:
                    if loc[1] in st.locals:
                        st.locals[loc[1]][loc[2]] = v
            elif loc[0] == 'content':
                c0 = st.content.get(loc[1])
                if isinstance(c0, Heap):
                    if isinstance(d, tuple):
                        n = c0.n + const(len(c0.known)) + self.scale_by(d[1], k)
                    else:
                        n = atom(('len', tag))
                        self.assume(n.scale(-1), '<=')
                    keep = tuple(x for x in c0.known if self.is_sentinel(x))
                    st.content[loc[1]] = Heap(('h',) + tag, n - const(len(keep)), 0, None, keep)
                elif isinstance(c0, Deq):
                    if isinstance(d, tuple):
                        n = c0.n + const(len(c0.left) + len(c0.right)) + self.scale_by(d[1], k)
                    else:
                        n = atom(('len', tag))
                        self.assume(n.scale(-1), '<=')
                    # only removals from the left keep the naming of the middle part
                    if not c0.left and not c0.right and isinstance(d, tuple) and not d[1].t and d[1].c <= 0:
                        st.content[loc[1]] = Deq(c0.base, (), c0.lo + self.scale_by(d[1].scale(-1), k), n, ())
                    else:
                        st.content[loc[1]] = Deq(('q',) + tag, (), const(0), n, ())
                elif d == 'grow' and isinstance(c0, (LList, UList)):
                    if final:
                        st.content[loc[1]] = self.grown_list(c0, loc, lid, paths, ix, trip, src, tag)
                    else:
                        n = atom(('len', tag))
                        self.assume(n.scale(-1), '<=')
                        st.content[loc[1]] = UList(('grow',) + tag, n, ())
                elif d == 'grow' and isinstance(c0, DDict):
                    if final:
                        st.content[loc[1]] = self.grown_dict(c0, loc, lid, paths, ix, trip, src, tag)
                    else:
                        st.content[loc[1]] = DDict((), ('grow',) + tag)
                else:
                    st.content.pop(loc[1], None)
                    st.ver[loc[1]] = tag
                    st.ver[('whole', loc[1])] = tag
                    st.items.pop(loc[1], None)
            elif loc[0] == 'items':
                st.items.pop(loc[1], None)
                st.ver[('whole', loc[1])] = tag
            elif loc[0] == 'ver':
                st.ver[loc[1]] = tag
            elif loc[0] == 'cb':
                st.counters[loc[1]] = st.counters.get(loc[1], 0) + 1000
        f = getattr(self.cfg, 'loop_head', None)
        if f:
            f(self, lid, k, hav, final)

    def is_sentinel(self, x):
        c = self.class_of(x) if isinstance(x, Sym) else None
        return c is not None and c.qual == 'InftyAgent'

    def scale_by(self, d, k):
        if not d.t:
            return k.scale(d.c)
        if not k.t:
            return d.scale(k.c)
        raise Undecided('nonlinear loop step')

    def grown_list(self, c0, loc, lid, paths, ix, trip, src, tag):
        pre = c0.items if isinstance(c0, LList) else None
        apps = []
        ok = pre is not None
        for p in paths or []:
            c = p[1].content.get(loc[1])
            if isinstance(c, UList) and c.base == ('grow', 'lv', lid, loc[1:]) and len(c.suffix) <= 1:
                apps.append((p, c.suffix))
            else:
                ok = False
        if ok:
            yes = [(p, s) for p, s in apps if s]
            no = [p for p, s in apps if not s]
            ks = {key(s[0]) for _, s in yes}
            if yes and len(ks) == 1:
                p, s = yes[0]
                elem = s[0]
                guard, lin = (), ()
                if no:
                    if len(yes) == 1:
                        guard, lin = tuple(p[4]), tuple(p[3])
                    else:
                        # selected on the first paths, not selected on the others
                        def alts(ps):
                            return tuple((tuple(q[4]), tuple((key(l), k) for l, k in q[3])) for q in ps)
                        guard, lin = ((('guard', lid, alts([p for p, _ in yes]), alts(no)), True),), ()
                return MapSeq(ix, trip, elem, guard, lin, src, pre)
        n = atom(('len', tag))
        self.assume(n.scale(-1), '<=')
        base_n = const(len(pre)) if pre is not None else c0.n
        return UList(('grown',) + tag, n + base_n, ())

    def grown_dict(self, c0, loc, lid, paths, ix, trip, src, tag):
        if c0.base is None and not c0.items:
            sets = []
            ok = True
            for p in paths or []:
                c = p[1].content.get(loc[1])
                if isinstance(c, DDict) and c.base == ('grow', 'lv', lid, loc[1:]) and len(c.items) <= 1:
                    sets.append((p, c.items))
                else:
                    ok = False
            if ok:
                yes = [(p, s) for p, s in sets if s]
                no = [p for p, s in sets if not s]
                ks = {(key(s[0][0]), key(s[0][1])) for _, s in yes}
                if yes and len(ks) == 1 and (not no or len(yes) == 1):
                    p, s = yes[0]
                    g, l = (tuple(p[4]), tuple(p[3])) if no else ((), ())
                    return MapDict(ix, trip, s[0][0], s[0][1], g, l, src)
        return DDict((), ('grown',) + tag)

    # ------------------------------------------------------------------ expressions

    def eval(self, e, ident=None):
        t = type(e).__name__
        if ident is not None and t in ('List', 'Dict', 'Set', 'DictComp', 'ListComp', 'Call'):
            return self.eval_ident(e, ident)
        m = getattr(self, 'e_' + t, None)
        if m is None:
            raise Undecided('%s: expression %s' % (self.loc(e), t))
        return m(e)

    def eval_ident(self, e, ident):
        """Evaluate a module/class-level or default-argument container under a stable identity."""
        v = self.eval(e)
        if isinstance(v, Sym) and v.key[0] == 'new':
            s = Sym(ident)
            if v.key in self.st.content:
                self.st.content[s.key] = self.st.content[v.key]
            if v.key in self.st.cls:
                self.st.cls[s.key] = self.st.cls[v.key]
            for (ok, n), val in list(self.st.attrs.items()):
                if ok == v.key:
                    self.st.attrs[(s.key, n)] = val
            if v.key in self.st.origin:
                self.st.origin[s.key] = self.st.origin[v.key]
            self.st.seen.add(s.key)
            return s
        return v

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return Const(v)
        if isinstance(v, (int, float)):
            if v != v or v in (float('inf'), float('-inf')):
                return INF if v > 0 else INF.scale(-1)
            return const(Fraction(v) if isinstance(v, int) else Fraction(str(v)))
        raise Undecided('constant')

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Attribute(self, e):
        o = self.eval(e.value)
        o = self.as_data(o) if isinstance(o, ExtMeth) else o
        v = self.getattr(o, e.attr, e)
        return v

    def e_Subscript(self, e):
        b = self.as_data(self.eval(e.value))
        i = self.eval_index(e.slice)
        if isinstance(i, View) and i.kind == 'slice':
            return self.slice(b, i, e)
        return self.item(b, i, e)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return View('slice', [self.as_data(self.eval(x)) if x is not None else NONE
                                  for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x) for x in s.elts])
        return self.as_data(self.eval(s))

    def slice(self, b, sl, node):
        lo, hi, st = sl.args

        def ci(x):
            if isinstance(x, Const) and x.v is None:
                return None
            if isinstance(x, Lin) and not x.t and x.c.denominator == 1:
                return int(x.c)
            return 'no'
        a, z, w = ci(lo), ci(hi), ci(st)
        if 'no' not in (a, z, w):
            if isinstance(b, Tup):
                return Tup(b.items[a:z:w])
            if isinstance(b, Const) and isinstance(b.v, str):
                return Const(b.v[a:z:w])
            if isinstance(b, Sym):
                c = self.content(b)
                if isinstance(c, LList):
                    return self.mklist(c.items[a:z:w])
        if isinstance(b, Sym) and self.content(b) is None:
            n = self.cfg.norm_item(self, b, sl)
            if n is not None:
                return n
        s = Sym(('slice', self.deep(b), key(lo), key(hi), key(st)))
        return s

    def e_Tuple(self, e):
        return Tup(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                k = self.known_iter(self.as_data(self.eval(x.value)))
                if k is None:
                    raise Undecided('starred element')
                out += k
            else:
                out.append(self.as_data(self.eval(x)))
        return out

    def e_List(self, e):
        return self.mklist(self.elts(e.elts))

    def e_Set(self, e):
        return self.mklist(self.elts(e.elts), kind='set')

    def e_Dict(self, e):
        items = []
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.as_data(self.eval(v))
                c = self.content(d) if isinstance(d, Sym) else None
                if isinstance(c, DDict):
                    for kk, vv in c.items:
                        items = [(a, b) for a, b in items if key(a) != key(kk)] + [(kk, vv)]
                    base = base or c.base
                else:
                    base = self.deep(d)
                continue
            kk = self.eval(k)
            vv = self.as_data(self.eval(v))
            items = [(a, b) for a, b in items if key(a) != key(kk)] + [(kk, vv)]
        return self.mkdict(items, base=base)

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test), e) else self.eval(e.orelse)

    def e_Lambda(self, e):
        f = self.frames[-1]
        return Fn(e, f.mod, None, f, (f.fn.qual + '.' if f.fn else '') + '<lambda>')

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.deep(self.as_data(self.eval(v.value))))
            else:
                parts.append(('c', 'str', v.value))
        return Sym(('fstr',) + tuple(parts))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_BoolOp(self, e):
        for i, x in enumerate(e.values):
            v = self.as_data(self.eval(x))
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if isinstance(e.op, ast.And) and not t:
                return FALSE if isinstance(v, BoolV) else v
            if isinstance(e.op, ast.Or) and t:
                return TRUE if isinstance(v, BoolV) else v

    def e_UnaryOp(self, e):
        v = self.as_data(self.eval(e.operand))
        if isinstance(e.op, ast.Not):
            if isinstance(v, BoolV):
                return BoolV('not', v)
            if isinstance(v, Const):
                return Const(not v.v)
            return BoolV('not', v)
        if isinstance(e.op, ast.USub):
            n = self.num(v)
            if n is not None:
                return n.scale(-1)
        if isinstance(e.op, ast.UAdd):
            return v
        return Sym(('un', type(e.op).__name__, self.deep(v)))

    def e_BinOp(self, e):
        return self.binop(e.op, self.as_data(self.eval(e.left)), self.as_data(self.eval(e.right)), e)

    def binop(self, op, a, b, node):
        a, b = self.as_data(a), self.as_data(b)
        o = type(op).__name__
        f = getattr(self.cfg, 'binop', None)
        if f is not None:
            r = f(self, o, a, b, node)
            if r is not None:
                return r
        if o == 'Add':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
                return Const(a.v + b.v)
            if isinstance(a, Sym) and isinstance(b, Sym):
                ca, cb = self.content(a), self.content(b)
                if isinstance(ca, LList) and isinstance(cb, LList):
                    return self.mklist(ca.items + cb.items)
                if ca is not None or cb is not None:
                    if isinstance(ca, LList) and isinstance(cb, MapSeq):
                        s = self.new('list')
                        self.st.content[s.key] = MapSeq(cb.idx, cb.trip, cb.elem, cb.guard, cb.lin, cb.src,
                                                        tuple(ca.items) + cb.pre)
                        return s
                    return Sym(('concat', self.deep(a), self.deep(b)))
        if isinstance(a, Const) and isinstance(a.v, str) or isinstance(b, Const) and isinstance(b.v, str):
            return Sym(('strop', o, self.deep(a), self.deep(b)))
        if o == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and isinstance(self.content(x), LList):
                    if isinstance(y, Lin) and not y.t:
                        return self.mklist(self.content(x).items * int(y.c))
                    if len(self.content(x).items) == 1:
                        s = self.new('list')
                        n = self.num(y)
                        if n is not None:
                            self.st.content[s.key] = MapSeq(('ix', 'rep'), n, self.content(x).items[0], (), (),
                                                            ('view', 'range', ('c', Fraction(0)), key(n),
                                                             ('c', Fraction(1))))
                            return s
        if isinstance(a, BoolV) and a.op not in ('and', 'or') or isinstance(b, BoolV):
            if o in ('BitOr', 'BitAnd'):
                return BoolV('bor' if o == 'BitOr' else 'band', a, b)
            if isinstance(a, BoolV):
                a = const(1 if self.truth(a, node) else 0)
            if isinstance(b, BoolV):
                b = const(1 if self.truth(b, node) else 0)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            if o == 'Add':
                return self.unwrap(x + y)
            if o == 'Sub':
                return self.unwrap(x - y)
            if o == 'Mult':
                if not x.t:
                    return self.unwrap(y.scale(x.c))
                if not y.t:
                    return self.unwrap(x.scale(y.c))
                ks = sorted([key(x), key(y)], key=repr)
                return Sym(('mul',) + tuple(ks))
            if o == 'Div':
                if not y.t:
                    if y.c == 0:
                        raise PyRaise('ZeroDivisionError', node)
                    return self.unwrap(x.scale(Fraction(1) / y.c))
                return Sym(('div', self.deep(a), self.deep(b)))
            if o in ('FloorDiv', 'RShift', 'Mod'):
                if not y.t:
                    d = y.c if o != 'RShift' else Fraction(2 ** int(y.c))
                    if d > 0 and d.denominator == 1 and (not x.t or all(self.cfg.is_int(t) for t in x.t)):
                        if not x.t:
                            q = x.c // d
                            return const(q if o != 'Mod' else x.c - d * q)
                        q = atom(('fdiv', key(x), d))
                        self.assume(q.scale(d) - x, '<=')
                        self.assume(x - q.scale(d) - const(d - 1), '<=')
                        return q if o != 'Mod' else x - q.scale(d)
            if o == 'LShift' and not y.t:
                return x.scale(2 ** int(y.c))
            if o == 'Pow' and not y.t and not x.t and y.c.denominator == 1 and abs(y.c) < 64:
                return const(x.c ** int(y.c))
        return Sym(('bin', o, self.deep(a), self.deep(b)))

    @staticmethod
    def unwrap(l):
        a = l.single()
        return Sym(a) if a is not None and a != INF_ATOM and False else l

    def e_Compare(self, e):
        left = self.as_data(self.eval(e.left))
        res = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.as_data(self.eval(c))
            b = self.compare(op, left, right, e)
            if i == len(e.ops) - 1:
                if res is None:
                    return b
                return b
            if not self.truth(b, e):
                return FALSE
            res = b
            left = right

    def compare(self, op, a, b, node):
        o = type(op).__name__
        if o == 'Lt':
            r = BoolV('<', a, b)
        elif o == 'LtE':
            r = BoolV('<=', a, b)
        elif o == 'Gt':
            r = self.flip('__gt__', '<', a, b, node)
        elif o == 'GtE':
            r = self.flip('__ge__', '<=', a, b, node)
        elif o == 'Eq':
            r = BoolV('==', a, b)
        elif o == 'NotEq':
            r = BoolV('not', BoolV('==', a, b))
        elif o == 'Is':
            r = BoolV('is', a, b)
        elif o == 'IsNot':
            r = BoolV('not', BoolV('is', a, b))
        elif o == 'In':
            r = BoolV('in', a, b)
        elif o == 'NotIn':
            r = BoolV('not', BoolV('in', a, b))
        x = r.a if r.op == 'not' else r
        if isinstance(x, BoolV) and x.op in ('in', 'is', 'isinst'):
            # depends on mutable contents: decide now
            return Const(self.truth(r, node))
        return r

    def flip(self, meth, op, a, b, node):
        if isinstance(a, Sym):
            cls = self.class_of(a)
            if cls is not None:
                m = self.class_attr(cls, meth)
                if m is not None:
                    return self.call(Bound(a, m[0]), [b], {}, node)
        return BoolV(op, b, a)

    def e_Call(self, e):
        f = self.eval(e.func)
        if isinstance(f, Ext) and f.name == 'builtins.super':
            fr = self.frames[-1]
            args = [self.eval(a) for a in e.args]
            if args:
                return SuperV(args[0], args[1])
            g = fr
            while g is not None and g.cls is None:
                g = g.parent
            first = g.fn.node.args.args[0].arg
            return SuperV(g.cls, self.st.locals[g.fid][first])
        args, kw = [], {}
        dstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.as_data(self.eval(a.value))
                k = self.known_iter(v)
                if k is None:
                    k = self.star_expand(v, f)
                args += k
            else:
                args.append(self.as_data(self.eval(a)))
        for k in e.keywords:
            v = self.eval(k.value)
            v = self.as_data(v)
            if k.arg is None:
                c = self.content(v) if isinstance(v, Sym) else None
                if isinstance(c, DDict):
                    for kk, vv in c.items:
                        if isinstance(kk, Const):
                            kw[kk.v] = vv
                        else:
                            raise Undecided('dynamic keyword')
                    if c.base is not None:
                        dstar = Sym(c.base)
                else:
                    dstar = v
            else:
                kw[k.arg] = v
        self.callsites.add(self.loc(e))
        return self.call(f, args, kw, e, None, dstar)

    def star_expand(self, v, f):
        """`f(*v)` for an opaque v: as many elements as f takes."""
        fn = f.fn if isinstance(f, Bound) else f
        if isinstance(fn, Fn):
            n = len(fn.node.args.args) - (1 if isinstance(f, Bound) else 0)
            return [self.item(v, const(i)) for i in range(n)]
        h = getattr(self.cfg, 'star_arity', None)
        if h:
            n = h(self, v, f)
            if n is not None:
                return [self.item(v, const(i)) for i in range(n)]
        raise Undecided('star argument')

    def e_GeneratorExp(self, e):
        return self.comp(e, lambda: self.as_data(self.eval(e.elt)))

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.as_data(self.eval(e.elt)))

    def e_SetComp(self, e):
        r = self.comp(e, lambda: self.as_data(self.eval(e.elt)))
        s = Sym(('setof', self.deep(r)))
        c = self.content(r)
        if c is not None:
            self.st.content.setdefault(s.key, c)
        return s

    def e_DictComp(self, e):
        d = self.mkdict([])
        self.run_comp(e, 0, lambda: self.setitem(d, self.as_data(self.eval(e.key)), self.as_data(
            self.eval(e.value)), e))
        return d

    def comp(self, e, elt):
        out = self.mklist([])
        self.run_comp(e, 0, lambda: self.method(out, 'append', [elt()], {}, None))
        return out

    def run_comp(self, e, gi, leaf):
        """Comprehensions run as loops in their own scope."""
        fr = self.frames[-1]
        n = self.st.counters.get('frame', 0)
        self.st.counters['frame'] = n + 1
        sub = Frame(n, fr.fn, fr, fr.cls, fr.mod)
        self.st.locals[n] = {}
        self.frames.append(sub)
        try:
            self._comp(e, gi, leaf)
        finally:
            self.frames.pop()
            self.st.locals.pop(n, None)

    def _comp(self, e, gi, leaf):
        if gi == len(e.generators):
            leaf()
            return None
        g = e.generators[gi]
        itv = self.as_data(self.eval(g.iter))

        def body():
            for c in g.ifs:
                if not self.truth(self.as_data(self.eval(c)), c):
                    return None
            return self._comp(e, gi + 1, leaf)
        self.for_loop(e, itv, lambda v: self.assign(g.target, v, e), body)
        return None


class _Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNBOUND = _Marker('unbound')
DELETED = _Marker('deleted')
