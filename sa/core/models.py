"""Models of builtins, container methods, heapq/collections/copy, numpy.random
and (opaquely) every other external callable."""
from fractions import Fraction

from .lin import Lin, atom, const, show
from .values import *  # noqa
from . import interp as I
from .frontend import Unsupported

RANDOM_MODS = ('numpy.random.', 'random.')
PURE_METHODS = {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'nodes', 'edges', 'out_edges',
                'in_edges', 'out_degree', 'in_degree', 'number_of_nodes', 'number_of_edges', 'any', 'all',
                'sum', 'min', 'max', 'tolist', 'transpose', 'astype', 'lower', 'upper', 'format', 'is_directed',
                'to_directed', 'successors', 'predecessors', 'neighbors', 'has_edge', 'has_node', 'join',
                'strip', 'split', 'startswith', 'endswith', 'mean', 'reshape', 'flatten', 'ravel', 'dot',
                'argmin', 'argmax', 'nonzero', 'is_multigraph', 'union', 'difference', 'intersection',
                'issubset', 'issuperset', 'symmetric_difference', 'replace', 'degree', 'order', 'item',
                'gca', 'figure', 'isdisjoint', 'tobytes', 'cumsum'}


def call_ext(it, name, args, kw, node, dstar=None):
    if name.startswith('builtins.'):
        f = globals().get('b_' + name[9:])
        if f is not None:
            return f(it, args, kw, node)
        if name[9:] in I.EXC_BASES:
            return Sym(('excval', name[9:]))
    f = EXT.get(name)
    if f is not None:
        return f(it, args, kw, node)
    if name.startswith(RANDOM_MODS):
        return random_call(it, name, args, kw, node)
    if getattr(it, 'try_depth', 0) and getattr(it.cfg, 'ext_raises', False):
        if it.decide_opaque(('raises', name, it.loc(node), it.st.counters.get('extc', 0)), node):
            raise I.PyRaise('<ext>', node)
    deepargs = tuple(it.deep(a) for a in args) + tuple(
        ('kw', k, it.deep(v)) for k, v in sorted(kw.items()))
    term = ('call', name) + deepargs
    if name in I.ALLOC:
        r = it.new(name)
        it.st.origin[r.key] = term
    else:
        r = Sym(term)
    it.event('ext', name, args, node, r, kw=kw)
    return r


def random_call(it, name, args, kw, node):
    if name.endswith('.seed'):
        it.event('seed', name, args, node, kw=kw)
        return NONE
    r = it.fresh(name, 'rnd')
    it.event('random', name, args, node, r, kw=kw)
    short = name.rsplit('.', 1)[1]
    scalar = 'size' not in kw and len(args) <= (2 if short == 'uniform' else 1)
    if short == 'uniform' and scalar:
        lo = args[0] if len(args) > 0 else kw.get('low', const(0))
        hi = args[1] if len(args) > 1 else kw.get('high', const(1))
        if isinstance(lo, Lin) and isinstance(hi, Lin):
            it.assume(lo - atom(r.key), '<=')
            it.assume(atom(r.key) - hi, '<=')
            it.assume(atom(r.key) - it_inf(), '<')
    elif short in ('exponential', 'random', 'rand', 'gamma') and scalar:
        it.assume(atom(r.key).scale(-1), '<=')
        it.assume(atom(r.key) - it_inf(), '<')
    return r


def it_inf():
    return INF


def n_(it, v):
    return it.num(v)


# ---------------------------------------------------------------- builtins

def b_len(it, a, kw, node):
    v = a[0]
    if isinstance(v, Sym):
        cls = it.class_of(v)
        if cls is not None and it.content(v) is None:
            m = it.class_attr(cls, '__len__')
            if m:
                return it.call(Bound(v, m[0]), [], {}, node)
    return it.length(v)


def b_range(it, a, kw, node):
    xs = []
    for x in a:
        n = it.num(x)
        if n is None:
            raise I.Undecided('range argument')
        xs.append(n)
    if len(xs) == 1:
        xs = [const(0), xs[0], const(1)]
    elif len(xs) == 2:
        xs.append(const(1))
    return View('range', xs)


def b_enumerate(it, a, kw, node):
    st = a[1] if len(a) > 1 else kw.get('start', const(0))
    return View('enumerate', [a[0], st])


def b_zip(it, a, kw, node):
    return View('zip', a)


def b_reversed(it, a, kw, node):
    k = it.known_iter(a[0])
    if k is not None:
        return it.mklist(k[::-1])
    return View('reversed', a)


def b_iter(it, a, kw, node):
    return a[0] if isinstance(a[0], View) else View('iter', a[:1])


def b_next(it, a, kw, node):
    v = a[0]
    k = it.known_iter(v)
    if k is not None:
        if k:
            return k[0]
        if len(a) > 1:
            return a[1]
        raise I.PyRaise('StopIteration', node)
    n = it.length(v)
    if it.decide_lin(n, '<=', node):
        if len(a) > 1:
            return a[1]
        raise I.PyRaise('StopIteration', node)
    return it.elem(v, const(0))


def b_map(it, a, kw, node):
    k = it.known_iter(a[1])
    if k is not None and len(a) == 2:
        return it.mklist([it.call(a[0], [x], {}, node) for x in k])
    return View('mapf', a)


def _minmax(it, a, kw, node, lt):
    if 'key' in kw:
        ks = it.known_iter(a[0]) if len(a) == 1 else a
        if ks:
            best, bk = ks[0], it.call(kw['key'], [ks[0]], {}, node)
            for x in ks[1:]:
                xk = it.call(kw['key'], [x], {}, node)
                if it.truth(BoolV('<', xk, bk) if lt else BoolV('<', bk, xk), node):
                    best, bk = x, xk
            return best
        return _minterm(it, a, kw, node, lt)
    if len(a) == 1:
        ks = it.known_iter(a[0])
        if ks is None or not ks:
            return _minterm(it, a, kw, node, lt)
    else:
        ks = a
    best = ks[0]
    for x in ks[1:]:
        if it.truth(BoolV('<', x, best) if lt else BoolV('<', best, x), node):
            best = x
    return best


def _minterm(it, a, kw, node, lt):
    name = 'min' if lt else 'max'
    args = tuple(it.deep(x) for x in a)
    if 'default' in kw and len(a) == 1:
        n = it.length(a[0])
        if it.decide_lin(n, '<=', node):
            return kw['default']
    kk = kw.get('key')
    t = ('call', 'builtins.' + name) + args
    if kk is not None and kk is not NONE:
        probe = it.elem(a[0], atom(('bound',)))
        t += (('kw', 'key', it.deep(it.call(kk, [probe], {}, node))),)
    r = Sym(t)
    it.event('ext', 'builtins.' + name, a, node, r, kw=kw)
    return r


def b_min(it, a, kw, node):
    return _minmax(it, a, kw, node, True)


def b_max(it, a, kw, node):
    return _minmax(it, a, kw, node, False)


def b_sum(it, a, kw, node):
    k = it.known_iter(a[0])
    start = a[1] if len(a) > 1 else const(0)
    if k is not None:
        import ast
        for x in k:
            start = it.binop(ast.Add(), start, x, node)
        return start
    return Sym(('call', 'builtins.sum', it.deep(a[0])))


def b_sorted(it, a, kw, node):
    k = it.known_iter(a[0])
    if k is not None and len(k) <= 1:
        return it.mklist(k)
    if k is not None and not kw and all(isinstance(x, Lin) and not x.t for x in k):
        return it.mklist(sorted(k, key=lambda l: l.c))
    extra = ()
    if 'reverse' in kw and not (isinstance(kw['reverse'], Const) and kw['reverse'].v is False):
        extra += (('kw', 'reverse', it.deep(kw['reverse'])),)
    if 'key' in kw and not (isinstance(kw['key'], Const) and kw['key'].v is None):
        probe = it.elem(a[0], atom(('bound',)))
        res = it.call(kw['key'], [probe], {}, node)
        # sorting pairs that share their first component by the second is sorting them
        r = subkey(it.deep(res), {it.deep(probe): ('elt',)})
        if r != ('elt',) and not it.cfg.same_order(it, it.deep(a[0]), it.deep(probe), it.deep(res)):
            extra += (('kw', 'key', r),)
    d = it.deep(a[0])
    if not extra and isinstance(d, tuple) and d[:2] == ('call', 'builtins.sorted') and len(d) == 3:
        return a[0] if isinstance(a[0], Sym) and a[0].key == d else Sym(d)
    return Sym(('call', 'builtins.sorted', d) + extra)


def _copyseq(it, v, kind):
    k = it.known_iter(v)
    if k is not None:
        return it.mklist(k, kind=kind)
    if isinstance(v, Sym):
        c = it.content(v)
        if isinstance(c, (UList, MapSeq)):
            s = it.new(kind)
            it.st.content[s.key] = c
            return s
        if isinstance(c, Heap):
            s = it.new(kind)
            it.st.content[s.key] = c
            return s
        if isinstance(c, Deq):
            s = it.new(kind)
            it.st.content[s.key] = c
            return s
    if isinstance(v, View) and v.kind == 'mapf':
        f, src = v.args
        import ast
        ix = ('ix', ('mapf', it.st.counters.get('mapf', 0)))
        it.st.counters['mapf'] = it.st.counters.get('mapf', 0) + 1
        n = it.length(src)
        e = it.in_iter(ix, lambda: it.call(f, [it.elem(src, atom(ix))], {}, None))
        s = it.new(kind)
        it.st.content[s.key] = MapSeq(ix, n, e, (), (), it.seqkey(src))
        return s
    if isinstance(v, View) and v.kind in ('items', 'keys', 'values', 'enumerate', 'zip', 'range', 'reversed', 'iter'):
        ix = ('ix', ('seq', it.st.counters.get('seq', 0)))
        it.st.counters['seq'] = it.st.counters.get('seq', 0) + 1
        n = it.length(v)
        s = it.new(kind)
        it.st.content[s.key] = MapSeq(ix, n, it.elem(v, atom(ix)), (), (), it.seqkey(v))
        return s
    s = it.new(kind)
    it.st.origin[s.key] = it.deep(v)
    return s


def b_list(it, a, kw, node):
    if not a:
        return it.mklist([])
    return _copyseq(it, a[0], 'list')


def b_tuple(it, a, kw, node):
    if not a:
        return Tup([])
    k = it.known_iter(a[0])
    if k is not None:
        return Tup(k)
    if isinstance(a[0], Tup):
        return a[0]
    return _copyseq(it, a[0], 'tuple')


def b_set(it, a, kw, node):
    if not a:
        return it.mklist([], kind='set')
    k = it.known_iter(a[0])
    if k is not None:
        return it.mklist(k, kind='set')
    s = Sym(('setof', it.deep(a[0])))
    c = it.content(a[0]) if isinstance(a[0], Sym) else None
    if isinstance(c, MapSeq):
        it.st.content.setdefault(s.key, c)
    return s


b_frozenset = b_set


def b_dict(it, a, kw, node):
    items = []
    base = None
    if a:
        v = a[0]
        c = it.content(v) if isinstance(v, Sym) else None
        if isinstance(c, DDict):
            items, base = list(c.items), c.base
        elif isinstance(c, MapDict):
            s = it.new('dict')
            it.st.content[s.key] = c
            return s
        elif isinstance(c, MapSeq) and isinstance(c.elem, Tup) and len(c.elem.items) == 2:
            s = it.new('dict')
            it.st.content[s.key] = MapDict(c.idx, c.trip, c.elem.items[0], c.elem.items[1], c.guard, c.lin, c.src)
            return s
        else:
            k = it.known_iter(v)
            if k is not None:
                for x in k:
                    items.append((it.item(x, const(0)), it.item(x, const(1))))
            elif isinstance(v, View) and v.kind == 'zip' and len(v.args) == 2:
                ix = ('ix', ('dz', it.st.counters.get('dz', 0)))
                it.st.counters['dz'] = it.st.counters.get('dz', 0) + 1
                s = it.new('dict')
                it.st.content[s.key] = MapDict(ix, it.length(v), it.elem(v.args[0], atom(ix)),
                                               it.elem(v.args[1], atom(ix)), (), (), it.seqkey(v))
                return s
            else:
                s = it.new('dict')
                it.st.origin[s.key] = ('dictcopy', it.deep(v))
                it.st.bools[('isinst', s.key, ('ext', 'dict'))] = True
                s2 = s
                for k, x in kw.items():
                    it.setitem(s2, Const(k), x, node)
                return s2
    for k, x in kw.items():
        items = [(p, q) for p, q in items if key(p) != key(Const(k))] + [(Const(k), x)]
    return it.mkdict(items, base=base)


def b_isinstance(it, a, kw, node):
    return Const(it.decide_isinst(a[0], a[1], node))


def b_issubclass(it, a, kw, node):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return Const(any(c is a[1] for c in it.mro(a[0])))
    return BoolV('subclass', a[0], a[1])


def b_hasattr(it, a, kw, node):
    if isinstance(a[0], Sym) and isinstance(a[1], Const):
        if (a[0].key, a[1].v) in it.st.attrs:
            return TRUE
        cls = it.class_of(a[0])
        if cls is not None:
            if it.class_attr(cls, a[1].v) or it.assigned_in_class(cls, a[1].v):
                return TRUE
            if not any(isinstance(c, Ext) and c.name != 'builtins.object' for c in it.mro(cls)):
                return FALSE
    return BoolV('hasattr', a[0], a[1])


def b_getattr(it, a, kw, node):
    if isinstance(a[1], Const):
        try:
            return it.getattr(a[0], a[1].v, node)
        except I.PyRaise as e:
            if e.exc == 'AttributeError' and len(a) > 2:
                return a[2]
            raise
    return Sym(('dynattr', it.deep(a[0]), key(a[1])))


def b_setattr(it, a, kw, node):
    if isinstance(a[1], Const):
        it.setattr(a[0], a[1].v, a[2], node)
        return NONE
    ks = it.st.bools
    raise I.Undecided('dynamic setattr')


def b_abs(it, a, kw, node):
    n = it.num(a[0])
    if n is not None:
        if it.decide_lin(n, '<', node):
            return n.scale(-1)
        return n
    return Sym(('abs', it.deep(a[0])))


def b_int(it, a, kw, node):
    if not a:
        return const(0)
    v = a[0]
    if isinstance(v, Const) and isinstance(v.v, bool):
        return const(int(v.v))
    if isinstance(v, BoolV):
        return const(1 if it.truth(v, node) else 0)
    n = it.num(v)
    if n is not None:
        if not n.t:
            return const(int(n.c))
        if all(it.cfg.is_int(x) for x in n.t) and n.c.denominator == 1 and n != INF:
            return v
    return Sym(('int', it.deep(v)))


def b_float(it, a, kw, node):
    v = a[0] if a else const(0)
    if isinstance(v, Const) and isinstance(v.v, str):
        s = v.v.lower().strip('+')
        if s in ('inf', 'infinity'):
            return INF
        if s in ('-inf', '-infinity'):
            return INF.scale(-1)
        try:
            return const(Fraction(v.v))
        except ValueError:
            return Sym(('float', v.v))
    if it.num(v) is not None:
        return v
    return Sym(('float', it.deep(v)))


def b_bool(it, a, kw, node):
    if not a:
        return FALSE
    if isinstance(a[0], BoolV):
        return a[0]
    return Const(it.truth(a[0], node))


def b_str(it, a, kw, node):
    if a and isinstance(a[0], Const) and isinstance(a[0].v, str):
        return a[0]
    return Sym(('str',) + tuple(it.deep(x) for x in a))


b_repr = b_str


def b_round(it, a, kw, node):
    return Sym(('round',) + tuple(it.deep(x) for x in a))


def b_print(it, a, kw, node):
    it.event('print', 'print', a, node)
    return NONE


def b_type(it, a, kw, node):
    c = it.class_of(a[0])
    if c is not None:
        return c
    return Sym(('typeof', it.deep(a[0])))


def b_callable(it, a, kw, node):
    if isinstance(a[0], (Fn, Bound, ClassV, Ext)):
        return TRUE
    if isinstance(a[0], (Lin, Tup)) or isinstance(a[0], Const):
        return FALSE
    return BoolV('callable', a[0])


def b_id(it, a, kw, node):
    return Sym(('id', key(a[0])))


def b_object(it, a, kw, node):
    return it.new('object')


def b_slice(it, a, kw, node):
    if len(a) == 1:
        return View('slice', [NONE, a[0], NONE])
    return View('slice', list(a) + [NONE] * (3 - len(a)))


def b_filter(it, a, kw, node):
    k = it.known_iter(a[1])
    if k is not None:
        return it.mklist([x for x in k if it.truth(it.call(a[0], [x], {}, node), node)])
    raise I.Undecided('filter')


def _anyall(it, a, node, any_):
    k = it.known_iter(a[0])
    if k is not None:
        for x in k:
            t = it.truth(x, node)
            if t and any_:
                return TRUE
            if not t and not any_:
                return FALSE
        return FALSE if any_ else TRUE
    n = it.length(a[0])
    if it.decide_lin(n, '<=', node):
        return FALSE if any_ else TRUE
    return BoolV('any' if any_ else 'all', Sym(it.deep(a[0])))


def b_any(it, a, kw, node):
    return _anyall(it, a, node, True)


def b_all(it, a, kw, node):
    return _anyall(it, a, node, False)


# ---------------------------------------------------------------- library functions

def x_heappush(it, a, kw, node):
    it.event('heappush', 'heappush', a, node, info={'t': it.heap_key(a[1], node)})
    it.heap_push(a[0], a[1], node)
    return NONE


def x_heappop(it, a, kw, node):
    r = it.heap_pop(a[0], node)
    it.event('heappop', 'heappop', [a[0]], node, r)
    return r


def x_heappushpop(it, a, kw, node):
    x_heappush(it, a, kw, node)
    return x_heappop(it, a[:1], kw, node)


def x_heapreplace(it, a, kw, node):
    r = x_heappop(it, a[:1], kw, node)
    x_heappush(it, a, kw, node)
    return r


def x_heapify(it, a, kw, node):
    it.event('heapify', 'heapify', a, node)
    return NONE


def x_deque(it, a, kw, node):
    s = it.new('deque')
    k = it.known_iter(a[0]) if a else []
    if k is None:
        raise I.Undecided('deque of unknown')
    it.st.content[s.key] = Deq(s.key, k, const(0), const(0), ())
    it.event('newdeque', 'deque', a, node, s, kw=kw)
    return s


def x_deepcopy(it, a, kw, node):
    v = a[0]
    if isinstance(v, (Lin, Const)):
        return v
    if isinstance(v, Tup) and all(isinstance(x, (Lin, Const)) for x in v.items):
        return v
    s = it.new('copy.deepcopy')
    it.st.origin[s.key] = ('deepcopy', it.deep(v))
    c = it.class_of(v)
    if c is not None:
        it.st.cls[s.key] = c
        it.st.seen.add(('exact', s.key)) if False else None
    it.event('deepcopy', 'copy.deepcopy', a, node, s)
    return s


def x_copy(it, a, kw, node):
    v = a[0]
    if isinstance(v, (Lin, Const, Tup)):
        return v
    c = it.content(v) if isinstance(v, Sym) else None
    s = it.new('copy.copy')
    if c is not None:
        it.st.content[s.key] = c
    else:
        it.st.origin[s.key] = ('shallowcopy', it.deep(v))
        k = it.class_of(v)
        if k is not None:
            it.st.cls[s.key] = k
            for (ok, n), val in list(it.st.attrs.items()):
                if ok == v.key:
                    it.st.attrs[(s.key, n)] = val
    it.event('shallowcopy', 'copy.copy', a, node, s)
    return s


def x_partial(it, a, kw, node):
    if kw:
        raise I.Undecided('partial with keywords')
    return View('partial', a)


def x_defaultdict(it, a, kw, node):
    raise I.Undecided('defaultdict')


def x_isclose0(it, a, kw, node):
    t = ('call', 'numpy.isclose') + tuple(it.deep(x) for x in a) + tuple(
        ('kw', k, it.deep(v)) for k, v in sorted(kw.items()))
    it.event('ext', 'numpy.isclose', a, node, kw=kw)
    return Sym(t)


def x_npminimum(name):
    def f(it, a, kw, node):
        return _minmax(it, a[:2], {}, node, name == 'min')
    return f


def x_npfloat(it, a, kw, node):
    return b_float(it, a, kw, node)


def x_isinf(it, a, kw, node):
    return BoolV('==', a[0], INF)


def x_isfinite(it, a, kw, node):
    return BoolV('not', BoolV('==', a[0], INF))


def x_count(it, a, kw, node):
    raise I.Undecided('itertools.count')


EXT = {
    'heapq.heappush': x_heappush, 'heapq.heappop': x_heappop, 'heapq.heappushpop': x_heappushpop,
    'heapq.heapreplace': x_heapreplace, 'heapq.heapify': x_heapify, 'collections.deque': x_deque,
    'copy.deepcopy': x_deepcopy, 'copy.copy': x_copy, 'functools.partial': x_partial,
    'collections.defaultdict': x_defaultdict, 'numpy.float64': x_npfloat,
    'math.isinf': x_isinf, 'numpy.isinf': x_isinf, 'math.isfinite': x_isfinite, 'numpy.isfinite': x_isfinite,
}


def _op(opname):
    import ast

    def f(it, a, kw, node):
        return it.binop(getattr(ast, opname)(), a[0], a[1], node)
    return f


EXT['operator.add'] = _op('Add')
EXT['operator.sub'] = _op('Sub')


def _itemgetter(it, a, kw, node):
    return View('itemgetter', a)


EXT['operator.itemgetter'] = _itemgetter
EXT['operator.attrgetter'] = lambda it, a, kw, node: View('attrgetter', a)


# ---------------------------------------------------------------- methods

def call_method(it, o, name, args, kw, node, dstar=None):
    if isinstance(o, Const) and isinstance(o.v, str):
        if name in ('lower', 'upper', 'strip', 'title') and not args:
            return Const(getattr(o.v, name)())
        if name in ('startswith', 'endswith') and isinstance(args[0], Const):
            return Const(getattr(o.v, name)(args[0].v))
        return Sym(('strmeth', o.v, name) + tuple(it.deep(a) for a in args) + tuple(
            ('kw', k, it.deep(v)) for k, v in sorted(kw.items())))
    if isinstance(o, SuperV):
        h = getattr(it.cfg, 'super_call', None)
        if h:
            r = h(it, o, name, args, kw, node)
            if r is not NotImplemented:
                return r
        if name == '__init__':
            it.event('extsuper', name, [o.self_] + args, node, kw=kw)
            return NONE
        if getattr(it, 'try_depth', 0) and getattr(it.cfg, 'ext_raises', False):
            pass
        it.bump(key(o.self_))
        r = it.fresh('super.' + name)
        it.event('extsuper', name, [o.self_] + args, node, r, kw=kw)
        return r
    if isinstance(o, ClassV) and name == '__init__' and args:
        return NONE
    if isinstance(o, ClassV) and name == '__new__':
        s = it.new(o.qual)
        it.st.cls[s.key] = o
        return s
    if isinstance(o, Ext):
        return call_ext(it, o.name + '.' + name, args, kw, node)
    if isinstance(o, Sym):
        c = it.content(o)
        if c is not None:
            return container_method(it, o, c, name, args, kw, node)
        h = getattr(it.cfg, 'opaque_method', None)
        if h:
            r = h(it, o, name, args, kw, node)
            if r is not NotImplemented:
                return r
        if name in ('items', 'keys', 'values') and not args:
            return View(name, [o])
        if name == 'get':
            return dict_get(it, o, args, node)
        if name == 'copy' and not args:
            s = it.new('copy')
            it.st.origin[s.key] = ('mcall', it.vkey(o), 'copy')
            it.event('mcall', name, [o] + args, node, s, kw=kw)
            return s
        if name in I.MUTATORS:
            it.event('mutate', name, [o] + args, node, kw=kw)
            r = Sym(('mres', it.vkey(o), name) + tuple(it.deep(a) for a in args))
            it.bump(o.key)
            it.bump(('whole', o.key))
            it.st.items.pop(o.key, None)
            return r
    deepargs = tuple(it.deep(a) for a in args) + tuple(('kw', k, it.deep(v)) for k, v in sorted(kw.items()))
    r = Sym(('mcall', it.deep(o), name) + deepargs)
    it.event('mcall', name, [o] + args, node, r, kw=kw)
    if name not in PURE_METHODS and isinstance(o, Sym):
        cls = it.class_of(o)
        pure = getattr(it.cfg, 'pure_methods', ())
        if name not in pure:
            it.bump(o.key)
    return r


def dict_get(it, o, args, node):
    default = args[1] if len(args) > 1 else NONE
    ov = it.st.items.get(o.key)
    if ov and key(args[0]) in ov:
        v = ov[key(args[0])][1]
        return default if v is I.DELETED else v
    h = getattr(it.cfg, 'dict_get', None)
    if h:
        r = h(it, o, args, node)
        if r is not NotImplemented:
            return r
    if it.decide_opaque(('in', key(args[0]), it.vkey(o)), node):
        return it.item(o, args[0], node)
    return default


def container_method(it, o, c, name, args, kw, node):
    ev = None
    if name != 'append' or node is not None:
        if name in I.MUTATORS:
            ev = it.event('mutate', name, [o] + args, node, kw=kw)
    r = container_method_(it, o, c, name, args, kw, node)
    if ev is not None and isinstance(r, Value):
        ev.res = r
    return r


def container_method_(it, o, c, name, args, kw, node):
    k = o.key
    if isinstance(c, (LList, UList)):
        isset = k[:2] == ('new', 'set')
        items = list(c.items) if isinstance(c, LList) else None
        if name == 'append' or (name == 'add' and isset):
            if isset and items is not None:
                if any(it.decide_eq(args[0], x, node) for x in items):
                    return NONE
            if isinstance(c, LList):
                it.set_content(o, LList(c.items + (args[0],)))
            else:
                it.set_content(o, UList(c.base, c.n, c.suffix + (args[0],)))
            return NONE
        if name in ('extend', 'update') and (name == 'extend' or isset):
            ks = it.known_iter(args[0])
            if ks is not None:
                if isinstance(c, LList):
                    it.set_content(o, LList(c.items + tuple(ks)))
                else:
                    it.set_content(o, UList(c.base, c.n, c.suffix + tuple(ks)))
                return NONE
            cc = it.content(args[0]) if isinstance(args[0], Sym) else None
            if isinstance(c, LList) and isinstance(cc, MapSeq):
                it.set_content(o, MapSeq(cc.idx, cc.trip, cc.elem, cc.guard, cc.lin, cc.src, c.items + cc.pre))
                return NONE
            n = it.length(args[0])
            ln = it.length(o)
            it.set_content(o, UList(('ext', it.deep(o), it.deep(args[0])), ln + n, ()))
            return NONE
        if items is not None:
            if name == 'pop':
                i = int(args[0].c) if args and isinstance(args[0], Lin) and not args[0].t else -1
                if not items:
                    raise I.PyRaise('IndexError', node)
                x = items.pop(i)
                it.set_content(o, LList(items))
                return x
            if name == 'insert' and isinstance(args[0], Lin) and not args[0].t:
                items.insert(int(args[0].c), args[1])
                it.set_content(o, LList(items))
                return NONE
            if name == 'clear':
                it.set_content(o, LList([]))
                return NONE
            if name == 'copy':
                return it.mklist(items)
            if name == 'reverse':
                it.set_content(o, LList(items[::-1]))
                return NONE
            if name == 'sort':
                if all(isinstance(x, Lin) and not x.t for x in items) and not kw:
                    it.set_content(o, LList(sorted(items, key=lambda l: l.c)))
                    return NONE
            if name == 'remove':
                for i, x in enumerate(items):
                    if it.decide_eq(x, args[0], node):
                        del items[i]
                        it.set_content(o, LList(items))
                        return NONE
                raise I.PyRaise('ValueError', node)
            if name == 'index':
                for i, x in enumerate(items):
                    if it.decide_eq(x, args[0], node):
                        return const(i)
                raise I.PyRaise('ValueError', node)
            if isset and name in ('union', 'difference', 'intersection'):
                pass
        if isinstance(c, UList) and name == 'clear':
            it.set_content(o, LList([]))
            return NONE
    if isinstance(c, Deq):
        if name == 'append':
            it.set_content(o, Deq(c.base, c.left, c.lo, c.n, c.right + (args[0],)))
            return NONE
        if name == 'appendleft':
            it.set_content(o, Deq(c.base, (args[0],) + c.left, c.lo, c.n, c.right))
            return NONE
        if name == 'popleft':
            if c.left:
                it.set_content(o, Deq(c.base, c.left[1:], c.lo, c.n, c.right))
                return c.left[0]
            if not (c.n == const(0)) and not it.decide_lin(c.n, '<=', node):
                x = deq_mid(c, c.lo)
                it.set_content(o, Deq(c.base, (), c.lo + const(1), c.n - const(1), c.right))
                return x
            if c.right:
                it.set_content(o, Deq(c.base, c.right[1:], c.lo, const(0), ()))
                return c.right[0]
            raise I.PyRaise('IndexError', node)
        if name == 'pop':
            if c.right:
                it.set_content(o, Deq(c.base, c.left, c.lo, c.n, c.right[:-1]))
                return c.right[-1]
            if not (c.n == const(0)) and not it.decide_lin(c.n, '<=', node):
                x = deq_mid(c, c.lo + c.n - const(1))
                it.set_content(o, Deq(c.base, c.left, c.lo, c.n - const(1), ()))
                return x
            if c.left:
                it.set_content(o, Deq(c.base, c.left[:-1], c.lo, const(0), ()))
                return c.left[-1]
            raise I.PyRaise('IndexError', node)
        if name == 'clear':
            it.set_content(o, Deq(o.key, (), const(0), const(0), ()))
            return NONE
        if name == 'extend':
            ks = it.known_iter(args[0])
            if ks is not None:
                it.set_content(o, Deq(c.base, c.left, c.lo, c.n, c.right + tuple(ks)))
                return NONE
        if name == 'rotate' and len(args) <= 1 and not kw:
            k = args[0] if args else const(1)
            if isinstance(k, Lin) and not k.t and abs(k.c) <= 4 and k.c == int(k.c):
                for _ in range(abs(int(k.c))):
                    try:
                        x = container_method_(it, o, it.content(o), 'popleft' if k.c < 0 else 'pop', [], {}, node)
                    except I.PyRaise:
                        return NONE             # nothing to turn
                    container_method_(it, o, it.content(o), 'append' if k.c < 0 else 'appendleft', [x], {}, node)
                return NONE
        if name == 'reverse':
            if isinstance(c.base, tuple) and c.base[:1] == ('rev',):
                base, lo = c.base[1], c.base[2] - c.lo - c.n + const(1)
            else:
                base, lo = ('rev', c.base, c.lo + c.n - const(1)), const(0)
            it.set_content(o, Deq(base, c.right[::-1], lo, c.n, c.left[::-1]))
            return NONE
        if name == 'insert' and len(args) == 2 and isinstance(args[0], Lin) and args[0] == const(0):
            return container_method_(it, o, it.content(o), 'appendleft', args[1:], {}, node)
        if name == 'extendleft':
            ks = it.known_iter(args[0])
            if ks is not None:
                it.set_content(o, Deq(c.base, tuple(ks)[::-1] + c.left, c.lo, c.n, c.right))
                return NONE
        if name in ('rotate', 'reverse', 'insert', 'remove', 'extendleft'):
            it.st.flags.append(('dequereorder', k, it.loc(node)))
            raise I.Undecided('deque.%s' % name)
    if isinstance(c, Heap):
        if name == 'append':
            it.st.flags.append(('rawheap', k, it.loc(node), name))
            it.set_content(o, c.repl(known=c.known + (args[0],)))
            return NONE
        if name == 'pop' and args and args[0] == const(0) or name in ('pop', 'remove', 'sort', 'insert', 'clear'):
            it.st.flags.append(('rawheap', k, it.loc(node), name))
            raise I.Undecided('raw list operation %s on a heap' % name)
    if isinstance(c, DDict):
        if name in ('items', 'keys', 'values'):
            return View(name, [o])
        if name == 'get':
            kk = key(args[0])
            for a, b in c.items:
                if key(a) == kk:
                    return b
            for a, b in c.items:
                if not it.distinct(a, args[0]) and it.decide_eq(a, args[0], node):
                    return b
            d = args[1] if len(args) > 1 else NONE
            if c.base is None:
                return d
            if it.decide_opaque(('in', kk, c.base), node):
                return it.base_item(c.base, args[0])
            return d
        if name == 'setdefault':
            if it.decide_in(args[0], o, node):
                return it.item(o, args[0], node)
            it.setitem(o, args[0], args[1] if len(args) > 1 else NONE, node)
            return args[1] if len(args) > 1 else NONE
        if name == 'update':
            if args:
                cc = it.content(args[0]) if isinstance(args[0], Sym) else None
                if isinstance(cc, DDict) and cc.base is None:
                    for a, b in cc.items:
                        it.setitem(o, a, b, node)
                else:
                    ks = it.known_iter(args[0])
                    if ks is None:
                        it.set_content(o, DDict((), ('upd', it.deep(o), it.deep(args[0]))))
                    else:
                        for p in ks:
                            it.setitem(o, it.item(p, const(0)), it.item(p, const(1)), node)
            for a, b in kw.items():
                it.setitem(o, Const(a), b, node)
            return NONE
        if name == 'pop':
            if it.decide_in(args[0], o, node):
                v = it.item(o, args[0], node)
                if c.base is None:
                    it.delitem(o, args[0], node)
                    return v
                it.set_content(o, DDict([(a, b) for a, b in c.items if key(a) != key(args[0])],
                                        ('without', c.base, key(args[0]))))
                it.st.bools[('in', key(args[0]), ('without', c.base, key(args[0])))] = False
                return v
            if len(args) > 1:
                return args[1]
            raise I.PyRaise('KeyError', node)
        if name == 'clear':
            it.set_content(o, DDict())
            return NONE
        if name == 'copy':
            return it.mkdict(c.items, base=c.base)
    if isinstance(c, MapSeq):
        if name == 'append':
            n = it.length(o)
            it.set_content(o, UList(('was', it.deep(o)), n, (args[0],)))
            return NONE
        if name == 'sort' and not args:
            d = it.deep(o)
            n = it.length(o)
            extra = tuple(('kw', a, it.deep(b)) for a, b in sorted(kw.items()))
            del it.st.content[k]
            it.st.origin[k] = ('call', 'builtins.sorted', d) + extra
            return NONE
        if name == 'copy':
            s = it.new('list')
            it.st.content[s.key] = c
            return s
    if isinstance(c, MapDict) and name in ('items', 'keys', 'values'):
        return View(name, [o])
    if isinstance(c, MapDict) and name == 'copy':
        s = it.new('dict')
        it.st.content[s.key] = c
        return s
    if isinstance(c, MapDict) and name == 'get':
        return Sym(('get', it.deep(o), key(args[0]), key(args[1]) if len(args) > 1 else ('c', 'NoneType', None)))
    if name == 'copy':
        return _copyseq(it, o, 'list')
    if name in ('index', 'count', 'difference', 'union', 'intersection', 'issubset'):
        return Sym(('mcall', it.deep(o), name) + tuple(it.deep(a) for a in args))
    raise I.Undecided('%s: method %s of %s' % (it.loc(node), name, type(c).__name__))
