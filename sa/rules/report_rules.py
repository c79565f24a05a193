"""What networks and queues report about themselves, and the order of agents (C41, C05)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from .qenv import CLS, QueueCfg, SELF, run_method as run_queue
from .color_rules import ColorCfg, explore_net_method, get_property, NETCLS
from .union_rules import unver, walk, nested
from ..core.frontend import AnchorMissing

P = 'C41'
A_, B_ = ('ag', 'a'), ('ag', 'b')


# -- the order of agents --------------------------------------------------------------------------
class OrderCfg(GraphCfg):
    def __init__(self, ca, cb):
        self.classes = {A_: CLS[ca], B_: CLS[cb]}

    def typeof(self, it, k):
        return self.classes.get(k) or GraphCfg.typeof(self, it, k)

    def init_attr(self, it, okey, name):
        if okey in self.classes and name == '_time':
            return atom(('tm', okey[1]))
        return GraphCfg.init_attr(self, it, okey, name)


RELS = {'__lt__': ('<',), '__gt__': ('>',), '__eq__': ('=',), '__le__': ('<', '='), '__ge__': ('>', '=')}


def order_task(prog, prop=P):
    """The comparisons of agents are the comparisons of their times."""
    ob = Obligations()
    R = 'agents are ordered by their times'
    ta, tb = atom(('tm', 'a')), atom(('tm', 'b'))
    for ca, cb in (('Agent', 'Agent'), ('Agent', 'InftyAgent'), ('InftyAgent', 'Agent'), ('GreedyAgent', 'Agent'),
                   ('ResourceAgent', 'Agent'), ('InfoAgent', 'Agent')):
        for name, rel in RELS.items():
            if ca == 'InftyAgent' and name in ('__le__', '__ge__'):
                continue
            for case, facts in (('<', [(ta - tb, '<')]), ('=', [(ta - tb, '<='), (tb - ta, '<=')]), ('>', [(tb - ta, '<')])):
                it = Interp(prog, OrderCfg(ca, cb))
                ctx = {'where': '?'}

                def run(it, _):
                    for l, op in facts:
                        it.assume(l, op)
                    m = it.class_attr(it.get_class(CLS[ca]), name)
                    if not m or not isinstance(m[0], Fn):
                        raise AnchorMissing('%s.%s' % (ca, name))
                    ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
                    r = it.call(Bound(Sym(A_), m[0]), [Sym(B_)], {}, None)
                    return Const(bool(it.truth(r, None)))
                ps = it.explore(lambda it: None, run)
                ob.absorb(it, '%s.%s' % (ca, name), ps)
                want = case in rel
                for p in ps:
                    it.st = p.st
                    if p.kind != 'return':
                        ob.check(prop, R, False if p.kind == 'raise' else None, ctx['where'], '%s' % (p.value,), p)
                        continue
                    plain = not any(foreign_value(b) for b in p.st.bools)
                    got = p.value.v if isinstance(p.value, Const) else None
                    ob.check(prop, R, got is want if plain or got is want else None, ctx['where'],
                             '%s.%s is %s for times t %s t\'' % (ca, name, got, case), p, '%s %s' % (name, want))
    return ob


# -- networks ------------------------------------------------------------------------------------
BND = ('bound',)
QT = ('qt', ('Q', BND), 0)


def times(k):
    """Is k the times of all queues, one each (True), something else over the queues (False), unknown (None)?"""
    k = unver(k)
    if k[:1] == ('map',) and k[1] == E2Q:
        return k[2] == QT and k[3] == () and k[4] == ()
    return None


def keysof(k):
    """The (time, index) pairs of all queues."""
    k = unver(k)
    if k[:1] == ('map',) and k[1] == E2Q:
        return k[2] == ('tup', QT, BND) and k[3] == () and k[4] == ()
    return None


MINS = ('builtins.min', 'numpy.min', 'numpy.amin')
HEAPSIZE = ('attr', ('attr', NET, '_fancy_heap'), 'size')


def heap_empty(it, p):
    v = PV(it, p.st, None, None, p, 'top')
    n = atom(HEAPSIZE)
    if v.ent(n, '<='):
        return True
    return False if v.ent(const(1) - n, '<=') or not v.feas((n, '<=')) else None


def first_time(it, p, k):
    """Is the value the earliest time of all queues?"""
    k = unver(k)
    if k == key(INF):
        r = heap_empty(it, p)
        return False if r is None and plain(p) else r
    if k[:1] == ('call',) and k[1] in MINS:
        a = k[2:]
        if a and a[0] == ('list',):
            return 'none'          # a network without edges
        return times(a[0]) if a and all(x[:1] == ('kw',) for x in a[1:]) else None
    if k[:1] == ('call',) and k[1] in ('builtins.max', 'numpy.max', 'builtins.sum'):
        return False
    if k[:1] == ('item',) and k[2] == ('c', 0) and k[1][:2] == ('call', 'builtins.sorted') and len(k[1]) == 3:
        return times(k[1][2])
    if k[:1] == ('item',) and k[2] == ('c', 0):
        return first_key(k[1])
    if k == ('attr', NET, '_t') or k[:1] == ('c',):
        return False
    if k[:1] == ('qt',) and k[1][:1] == ('Q',) and k[1][1][:1] == ('c',):
        return False
    return None


def first_key(k):
    """Is k the smallest (time, index) pair?"""
    k = unver(k)
    if k[:1] == ('item',) and k[1][:2] == ('call', 'builtins.sorted'):
        good = keysof(k[1][2])
        if len(k[1]) == 3 and k[2] == ('c', 0):
            return good
        return False if good and len(k[1]) == 3 else None
    if k[:1] == ('call',) and k[1] == 'builtins.min' and len(k) == 3:
        return keysof(k[2])
    if k[:1] == ('call',) and k[1] == 'builtins.max':
        return False if keysof(k[2]) else None
    return None


def first_index(it, p, k):
    k = unver(k)
    if k[:1] == ('item',) and k[2] == ('c', 1):
        return first_key(k[1])
    if k[:1] == ('call',) and k[1] == 'numpy.argmin' and len(k) == 3:
        return times(k[2])
    if k[:1] == ('c',):
        return False
    return None


def net_task(prog):
    ob = Obligations()
    R1, R2, R3 = ('time is the time of the next event', 'the next event is that of the earliest queue',
                  'simple properties report what is stored')
    it, ps, where = get_property(prog, 'time', ColorCfg())
    ob.absorb(it, 'QueueNetwork.time', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        k = it.deep(p.value)
        r = first_time(it, p, k)
        if r != 'none':
            ob.check(P, R1, r, where, 'time is %s%s' % (show(k), ' although events are scheduled' if k == key(INF) else ''), p)
    it, ps, where = explore_net_method(prog, 'next_event_description')
    ob.absorb(it, 'next_event_description', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            continue               # a network without edges
        k = it.deep(p.value)
        if k[:1] != ('tup',) or len(k) != 3:
            ob.check(P, R2, None, where, 'returns %s' % show(k), p)
            continue
        what, idx = k[1], k[2]
        none = nothing(it, p)
        if none == 'none':
            continue
        if what == ('c', 'str', 'Nothing') or idx == ('c', 'NoneType', None):
            ok = none if none == 'both' else none if what == ('c', 'str', 'Nothing') and idx == ('c', 'NoneType', None) else False
            ob.check(P, R2, False if ok == 'both' else ok, where, 'nothing is reported although something is scheduled', p, 'nothing scheduled')
            continue
        asks = [e for e in nested(p.st.events) if e.kind == 'qop' and e.name == 'next_event_description']
        if asks and asks[-1].res is not None and key(asks[-1].res) == ('c', 0):
            continue               # the earliest queue has an event
        ob.check(P, R2, None if none is None else False if none == 'both' else not none, where, 'reports %s when nothing is scheduled' % show(what), p)
        ob.check(P, R2, first_index(it, p, idx), where, 'reports the event of queue %s' % show(idx), p, 'the earliest queue')
        if not asks:
            ob.check(P, R2, False if what[:1] == ('c',) and not p.st.bools else None, where, 'reports %s' % show(what), p)
            continue
        q = unver(key(asks[-1].args[0]))
        ob.check(P, R2, True if q == ('Q', unver(idx)) else (first_index(it, p, q[1]) if q[:1] == ('Q',) else None), where,
                 'asks %s what its next event is' % show(q), p, 'the same queue')
        r = key(asks[-1].res)
        want = {('c', 1): 'Arrival', ('c', 2): 'Departure'}.get(r)
        ob.check(P, R2, what == ('c', 'str', want) if want and what[:1] == ('c',) else None, where,
                 'says %s when the queue says %s' % (show(what), show(r)), p, want)
    for name, good in (('current_time', [('attr', NET, '_t')]), ('num_vertices', [('nV', NG)]), ('num_nodes', [('nV', NG)]),
                       ('num_edges', [('nE', NG)])):
        it, ps, where = get_property(prog, name, ColorCfg())
        ob.absorb(it, 'QueueNetwork.' + name, ps)
        for p in ps:
            it.st = p.st
            k = unver(it.deep(p.value)) if p.kind == 'return' else None
            ok = k in good
            if not ok and k and (k == key(INF) or k[:1] == ('call',) and k[1] in MINS and times(k[2])):
                ok = False
            elif not ok and not (k and (k[:1] in (('attr',), ('nV',), ('nE',), ('c',), ('n',)))):
                ok = None
            ob.check(P, R3, ok, where, '%s is %s' % (name, show(k) if k else p.value), p, name)
    it, ps, where = get_property(prog, 'blocking', ColorCfg())
    ob.absorb(it, 'QueueNetwork.blocking', ps)
    for p in ps:
        it.st = p.st
        t = p.st.bools.get(('truth', ('attr', NET, '_blocking')))
        k = it.deep(p.value) if p.kind == 'return' else None
        ok = k == ('c', 'str', 'BAS' if t else 'RS') if t is not None and k and k[:2] == ('c', 'str') else None
        ob.check(P, R3, ok, where, 'blocking is %s when _blocking is %s' % (show(k) if k else p.value, t), p, 'blocking')
    return ob


def nothing(it, p):
    """Does the path know that nothing is scheduled (True), that something is (False)?"""
    if heap_empty(it, p):
        return True
    for b, val in p.st.bools.items():
        if b[:1] == ('==',) and key(INF) in b:
            o = b[1] if b[2] == key(INF) else b[2]
            if o[:2] == ('call', 'builtins.min') and o[2:3] == (('list',),):
                return 'none'
            if first_time(it, p, o):
                return val
    for l, op in p.st.lin:
        for a in l.t:
            if isinstance(a, tuple) and a[:1] == ('call',) and a[1] in MINS:
                if a[2:3] == (('list',),):
                    return 'none'
                if times(a[2]):
                    v = PV(it, p.st, None, None, p, 'top')
                    if v.ent(INF - atom(a), '<='):
                        return True
                    if v.ent(atom(a) - INF, '<') or not v.feas((INF - atom(a), '<=')):
                        return False
    return 'both' if plain(p) else None


def plain(p):
    """Are all conditions of the path about stored numbers of the network, not about the queues?"""
    ks = list(p.st.bools) + [a for l, op in p.st.lin for a in l.t]
    return not any(isinstance(k, tuple) and (foreign_value(k) or E2Q in walk(k)) for k in ks)


# -- queues ----------------------------------------------------------------------------------------
def queue_task(prog, qcls):
    ob = Obligations()
    R = 'properties of a queue report what is stored'
    def at(n):
        return ('attr', SELF, n)
    simple = {'active': at('_active'), 'current_time': at('_current_t'),
              'num_arrivals': ('list', at('_num_arrivals'), at('_oArrivals'))}
    for name in ('active', 'time', 'current_time', 'num_arrivals'):
        cfg = QueueCfg(qcls)
        it = Interp(prog, cfg)
        it.get_class(CLS[qcls])
        ps = it.explore(cfg.setup, lambda it, ctx: Tup([it.getattr(ctx['self'], name, None), it.getattr(ctx['self'], '_time', None)]))
        where = '%s.%s' % (qcls, name)
        ob.absorb(it, where, ps)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, R, None, where, '%s' % (p.value,), p)
                continue
            got, tm = p.value.items
            k = unver(it.deep(got))
            want = unver(it.deep(tm)) if name == 'time' else simple[name]
            ok = k == want
            if not ok and k[:1] == ('tup',) and want[:1] == ('list',):
                ok = k[1:] == want[1:]
            if not ok and foreign_value(k):
                ok = None
            ob.check(P, R, ok, where, '%s is %s' % (name, show(k)), p, name)
    it, ps = run_queue(QueueCfg(qcls), prog, 'number_queued', lambda it, c: ([], {}))
    ob.absorb(it, '%s.number_queued' % qcls, ps)
    for p in ps:
        it.st = p.st
        k = unver(it.deep(p.value)) if p.kind == 'return' else ('?',)
        want = ('c', 0) if qcls == 'NullQueue' else ('n', 'Q')
        ok = k == want
        if not ok and p.kind == 'return':
            v = PV(it, p.st, None, None, p, 'top')
            w = atom(want) if want[0] == 'n' else const(0)
            d = it.num(p.value) - w
            ok = True if v.ent(d, '<=') and v.ent(d.scale(-1), '<=') else (None if foreign_value(k) else False)
        ob.check(P, R, ok, '%s.number_queued' % qcls, 'number_queued is %s' % show(k), p, 'waiting agents')
    return ob


def foreign_value(k):
    return any(x[:1] in (('call',), ('mcall',), ('fresh',), ('mres',), ('lv',), ('res',), ('strmeth',)) for x in walk(k))


# -- graphs ------------------------------------------------------------------------------------------
class ConvCfg(ColorCfg):
    def call(self, it, f, args, kw, node):
        if isinstance(f, ClassV) and f.qual == 'QueueNetworkDiGraph':
            return Sym(('dg',) + tuple(key(a) for a in args))
        return ColorCfg.call(self, it, f, args, kw, node)


GF = 'queueing_tool.graph.graph_functions'


def graph_task(prog):
    ob = Obligations()
    R = 'graph2dict reports all edges of the graph'
    R2 = 'a graph is used as it is, anything else is turned into one'
    g = ('arg', 'g')
    cases = [('graph2dict', {}), ('graph2dict', {'return_dict_of_dict': Const(True)}),
             ('graph2dict', {'return_dict_of_dict': Const(False)}), ('_test_graph', {})]
    for name, kw in cases:
        it = Interp(prog, ConvCfg())
        ctx = {'where': '?'}

        def run(it, _):
            f = it.module_attr(it.prog.module(GF), name)
            if not isinstance(f, Fn):
                raise AnchorMissing(name)
            ctx['where'] = '%s:%s' % (f.mod.rel, f.node.lineno)
            return it.call(f, [Sym(g)], dict(kw), None)
        ps = it.explore(lambda it: None, run)
        ob.absorb(it, name, ps)
        where = ctx['where']
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, R2, None, where, '%s' % (p.value,), p)
                continue
            k = unver(it.deep(p.value))
            if name == '_test_graph':
                isg = p.st.bools.get(('isinst', g, ('cls', 'QueueNetworkDiGraph')))
                ob.check(P, R2, k == (g if isg else ('dg', g)) if isg is not None else (False if k == g else None), where,
                         'returns %s' % show(k), p, 'the graph')
                continue
            isg = p.st.bools.get(('isinst', g, ('ext', 'networkx.DiGraph')))
            srcs = {('call', 'networkx.to_dict_of_dicts', g if isg else ('dg', g))}
            alls = {('call', 'networkx.to_dict_of_dicts', g), ('call', 'networkx.to_dict_of_dicts', ('dg', g))}
            if isg is None:
                ob.check(P, R2, None, where, 'type of the graph', p)
                continue
            lists = kw.get('return_dict_of_dict') is not None and kw['return_dict_of_dict'].v is False
            if not lists:
                ok = k in srcs
                if not ok and k not in alls and k[:1] != ('mapdict',):
                    ok = None
                ob.check(P, R, ok, where, 'returns %s' % show(k), p, 'dict of dicts')
                continue
            loops = [e for e in p.st.events if e.kind in ('loop', 'loop0') and e.info]
            if k[:1] == ('dict',) and [e for e in loops if e.kind == 'loop0']:
                continue            # no vertices
            if k[:2] == ('call', 'networkx.to_dict_of_lists'):
                ob.check(P, R, k[2] in (g, ('dg', g)) and (k[2] == g) == isg, where, 'lists of %s' % show(k[2]), p, 'dict of lists')
                continue
            if k in alls:
                ob.check(P, R, False, where, 'returns dicts where lists were asked for', p)
                continue
            if k[:1] != ('mapdict',):
                ob.check(P, R, None, where, 'returns %s' % show(k), p)
                continue
            src = unver(k[1])
            over = src[2] if src[:2] in (('view', 'items'), ('view', 'keys')) else src
            ok = over in srcs and k[4] == ()
            if not ok and over not in alls:
                ok = None
            ob.check(P, R, ok, where, 'the lists are made from %s%s' % (show(over), ' with a condition' if k[4] != () else ''), p,
                     'all vertices')
            ob.check(P, R, True if k[2][:1] == ('dkey',) else None, where, 'keys %s' % show(k[2]), p, 'each vertex')
    return ob
