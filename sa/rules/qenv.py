"""Environment of a single queue: the abstract pre-state (representation
invariant) every entry point of a queue class is analysed from."""
from ..core.interp import *  # noqa
from ..core.lin import *  # noqa
from ..core.values import *  # noqa

SELF = ('self',)
INFTY = ('infty',)
QS = 'queueing_tool.queues.queue_servers.'
QX = 'queueing_tool.queues.queue_extentions.'
QA = 'queueing_tool.queues.agents.'
CLS = {'QueueServer': QS + 'QueueServer', 'LossQueue': QS + 'LossQueue', 'NullQueue': QS + 'NullQueue',
       'ResourceQueue': QX + 'ResourceQueue', 'InfoQueue': QX + 'InfoQueue',
       'Agent': QA + 'Agent', 'GreedyAgent': QA + 'GreedyAgent', 'InftyAgent': QA + 'InftyAgent',
       'ResourceAgent': QX + 'ResourceAgent', 'InfoAgent': QX + 'InfoAgent'}

A, D, Q = atom(('n', 'A')), atom(('n', 'D')), atom(('n', 'Q'))
A0, D0, Q0 = ('hd', 'A', 0), ('hd', 'D', 0), ('mid', 'Q', ('c', Fraction(0)))


def attr(name, o=SELF):
    return Sym(('attr', o, name))


def at(name, o=SELF):
    return atom(('attr', o, name))


def data_of(k):
    while isinstance(k, tuple) and k and k[0] == 'at' and len(k) == 3:
        k = k[1]
    return k == ('attr', SELF, 'data')


class QueueCfg(Config):
    def __init__(self, qcls, acls='Agent', fix=None):
        self.qname, self.aname = qcls, acls
        self.fix = fix or {}

    # -- typing
    def typeof(self, it, k):
        if k == SELF:
            return CLS[self.qname]
        if k == INFTY:
            return CLS['InftyAgent']
        if k[0] in ('hd', 'mid') and k[1] in ('A', 'D', 'Q') or k[:2] == ('arg', 'agent'):
            return CLS[self.aname]
        if k[0] == 'hd' or k[0] == 'mid':
            return CLS[self.aname]
        return None

    def distinct(self, it, a, b):
        """Agent ids are unique (decided by its own property)."""
        ka, kb = key(a), key(b)
        return (ka != kb and ka[0] == 'attr' and kb[0] == 'attr' and ka[-1] == kb[-1] == 'agent_id')

    def init_attr(self, it, okey, name):
        if name == '_has_resource' and (okey[:2] == ('hd', 'D') or okey[:2] == ('mid', 'Q')):
            return FALSE          # agents bringing a resource never stay in the queue
        if okey == SELF:
            if name in self.fix:
                return self.fix[name]
            if name in ('data', 'colors', 'queue', '_arrivals', '_departures', 'net_data'):
                return attr(name)
            if name == 'edge':
                return Tup([Sym(('edge', 'u')), Sym(('edge', 'v')), Sym(('edge', 'i')), Sym(('edge', 't'))])
        if name == '_time' and okey == INFTY:
            return INF
        return None

    def solid(self, it, k):
        """The entries of the collected data are lists with at least one record."""
        return k[0] == 'item' and data_of(k[1])

    def heap_head_facts(self, it, hv, s, t):
        it.assume(t - INF, '<')
        if s.key[1] in ('A', 'D') and s.key[2] == 0:
            it.assume(at('_current_t') - t, '<=')

    def is_int(self, a):
        return Config.is_int(self, a) or a in (('arg', 'n'),)

    def call(self, it, f, args, kw, node):
        k = f.key if isinstance(f, Sym) else None
        if isinstance(f, ExtMeth) and isinstance(f.self_, Sym) and f.self_.key == SELF:
            pass
        if k is not None and k[0] == 'attr' and k[1] == SELF:
            if k[2] in ('service_f', 'arrival_f'):
                n = it.st.counters.get(('cb', k), 0)
                it.st.counters[('cb', k)] = n + 1
                res = Sym(('ret', k[2], n) + tuple(it.cur_ix))
                it.event('callback', k[2], args, node, res, kw=kw)
                if len(args) == 1:
                    t = it.num(args[0])
                    if t is not None:
                        it.assume(t - atom(res.key), '<=')
                if k[2] == 'service_f':
                    it.assume(atom(res.key) - INF, '<')
                return res
            if k[2] == 'AgentFactory':
                o = it.instantiate(it.get_class(CLS[self.aname]), args, kw, node)
                it.event('factory', 'AgentFactory', args, node, o, kw=kw)
                return o
        return NotImplemented

    def watch(self, it):
        a = it.st.attrs
        g = lambda n: a.get((SELF, n))
        r = {n: g(n) for n in ('_current_t', '_active', 'num_system', 'num_servers', '_oArrivals', '_next_ct',
                               '_num_total', 'num_blocked')}
        for n, f in (('D', '_departures'), ('Q', 'queue'), ('A', '_arrivals')):
            v = g(f)
            c = it.st.content.get(v.key) if isinstance(v, Sym) else None
            if isinstance(c, (Heap, Deq, LList, UList)):
                r[n] = it.length(v)
        return r

    # -- pre-state
    def setup(self, it):
        st = it.st
        me = Sym(SELF)
        inf = Sym(INFTY)
        st.attrs[(SELF, '_arrivals')] = attr('_arrivals')
        st.attrs[(SELF, '_departures')] = attr('_departures')
        st.attrs[(SELF, 'queue')] = attr('queue')
        st.content[('attr', SELF, '_arrivals')] = Heap('A', A, known=(inf,))
        st.content[('attr', SELF, '_departures')] = Heap('D', D, known=(inf,))
        st.content[('attr', SELF, 'queue')] = Deq('Q', (), const(0), Q, ())
        for x in (A, D, Q):
            it.assume(x.scale(-1), '<=')
        st.attrs[(SELF, 'num_system')] = D + Q
        st.attrs[(SELF, '_num_total')] = A + D + Q
        for n in ('num_departures', '_num_arrivals', '_oArrivals', 'num_blocked', '_current_t', '_next_ct',
                  'active_cap', 'deactive_t', 'num_servers', '_active', 'collect_data', 'service_f', 'arrival_f',
                  'AgentFactory', 'data', '_time'):
            st.attrs[(SELF, n)] = attr(n)
        for n in ('num_departures', '_num_arrivals', '_oArrivals', 'num_blocked', 'buffer'):
            it.assume(at(n).scale(-1), '<=')
        lo = 0 if self.qname in ('ResourceQueue', 'NullQueue') else 1
        it.assume(const(lo) - at('num_servers'), '<=')
        it.assume(at('num_servers') - INF, '<=')
        it.assume(at('_current_t') - INF, '<')
        it.assume(at('_current_t').scale(-1), '<=')
        it.assume(at('deactive_t') - INF, '<=')
        it.assume(A + D + Q - INF, '<')
        st.bools[('isinst', ('attr', SELF, 'data'), ('ext', 'dict'))] = True
        st.bools[('isnone', ('attr', SELF, 'collect_data'))] = False
        for n, v in self.fix.items():
            st.attrs[(SELF, n)] = v
        ctx = {'self': me}
        self.relate(it, ctx)
        ctx['pre'] = dict(st.attrs)
        return ctx

    def relate(self, it, ctx):
        """Relations between the fields that hold between calls."""
        if self.qname == 'NullQueue':
            return
        # waiting customers only while every server is busy
        if it.decide_lin(Q, '<=', None) is False:
            it.assume(at('num_servers') - D, '<=')
        ha = it.heap_min(attr('_arrivals'), None)
        hd = it.heap_min(attr('_departures'), None)
        ta, td = ha[2], hd[2]
        ctx['ta'], ctx['td'] = ta, td
        # the published next-event time is the earlier of the two heads
        if it.decide_lin(ta - td, '<', None):
            it.st.attrs[(SELF, '_time')] = ta
        else:
            it.st.attrs[(SELF, '_time')] = td
        it.st.trace.append(('pre-state', 'next arrival %s, next departure %s' % (
            'none' if ta == INF else fmt(ta), 'none' if td == INF else fmt(td))))


def run_method(cfg, prog, name, mkargs=None, kw=None):
    it = Interp(prog, cfg)

    def run(it, ctx):
        me = ctx['self']
        m = it.getattr(me, name, None)
        if isinstance(m, ExtMeth):
            raise AnchorMissing('%s.%s' % (cfg.qname, name))
        args, k = (mkargs(it, ctx) if mkargs else ([], {}))
        return it.call(m, args, k, None)
    it.get_class(CLS[cfg.qname])
    paths = it.explore(cfg.setup, run)
    return it, paths
