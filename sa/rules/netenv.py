"""Environment of QueueNetwork: queues, agents and the scheduler enter the
analysis through the contracts their own properties decide (C01-C08, C26, C27).
Each call of a queue operation starts a new epoch of that queue: everything the
network may read from it is unknown again, up to the contract."""
from ..core.interp import *  # noqa
from ..core.lin import *  # noqa
from ..core.values import *  # noqa
from .qenv import CLS

NET = ('net',)
HEAP = ('attr', NET, '_fancy_heap')
E2Q = ('attr', NET, 'edge2queue')
NA = ('attr', NET, 'num_agents')
NETCLS = 'queueing_tool.network.queue_network.QueueNetwork'
S0 = atom(('n', 'S0'))           # agents in the network before the call

QUEUE_OPS = {'next_event', '_add_arrival', 'delay_service', 'at_capacity', 'next_event_description', 'set_active',
             'set_inactive', 'clear', 'fetch_data', '_current_color', 'number_queued', 'set_num_servers',
             'simulate', 'copy', '__repr__'}
DRAWING = {'_update_graph_colors', '_update_all_colors', '_update_vertex_color', 'draw', 'reset_colors'}


def nattr(name):
    return Sym(('attr', NET, name))


def qk(idx):
    return ('Q', key(idx))


class NetCfg(Config):
    """alias: the destination of a departing agent is the queue it leaves."""
    blocking = None

    def __init__(self, acls='Agent', alias=None, primitives=QUEUE_OPS, drawing=DRAWING, slow=None):
        self.acls, self.alias, self.primitives, self.drawing = acls, alias, primitives, drawing

    # -- naming
    def typeof(self, it, k):
        if k == NET:
            return NETCLS
        if k[0] == 'Q' and len(k) == 2:
            return CLS['LossQueue']       # only these can be at capacity; all share the contracts
        if k[0] == 'head':
            return CLS[self.acls]
        return None

    def is_int(self, a):
        if isinstance(a, tuple) and a and a[0] in ('nt', 'popk', 'dest', 'outd'):
            return True
        return Config.is_int(self, a)

    def norm_item(self, it, base, idx):
        if not isinstance(base, Sym):
            return None
        k = base.key
        if k == E2Q:
            self.know(it, qk(idx))
            return Sym(qk(idx))
        if k == NA:
            return self.total0(it, ('Q', key(idx)))
        if k[0] == 'attr' and len(k) == 3 and k[1][0] == 'Q' and k[2] == '_departures' and idx == const(0):
            return Sym(('head', k[1], it.st.counters.get(('ep', k[1]), 0)))
        return None

    def total0(self, it, q):
        v = atom(('nt', q, 0))
        it.assume(v.scale(-1), '<=')
        return v

    def know(self, it, q):
        """Facts about a queue that is first mentioned."""
        if ('q', q) in it.st.seen:
            return
        it.st.seen.add(('q', q))
        t = atom(('qt', q, 0))
        it.st.attrs[(q, '_time')] = t
        it.assume(t - INF, '<=')
        it.assume(atom(('clock',)) - t, '<=')
        it.st.attrs[(q, '_num_total')] = self.total0(it, q)

    def init_attr(self, it, okey, name):
        if okey == NET:
            if name in ('_initialized',):
                return None
            return nattr(name)
        if okey[0] == 'Q' and len(okey) == 2:
            self.know(it, okey)
            if (okey, name) in it.st.attrs:
                return it.st.attrs[(okey, name)]
            if name == 'edge':
                idx = from_key(okey[1])
                return Tup([Sym(('esrc', okey)), Sym(('etgt', okey)), idx, Sym(('etype', okey))])
            if name in ('_departures', '_arrivals', 'queue', 'data', 'colors'):
                return Sym(('attr', okey, name))
        if okey[0] == 'head' and name == '_time':
            return atom(('attr', okey, '_time'))
        if okey == HEAP and name in ('size', 'array_edges', 'array_times', 'next_time', 'next_node'):
            return Sym(('attr', HEAP, name))
        return None

    def distinct(self, it, a, b):
        ka, kb = key(a), key(b)
        if ka[0] == 'Q' and kb[0] == 'Q':
            return it.distinct(from_key(ka[1]), from_key(kb[1])) if ka != kb else False
        if ka[0] == 'head' and kb[0] == 'head':
            return ka != kb
        return False

    # -- contracts
    def bump(self, it, q):
        n = it.st.counters.get(('ep', q), 0) + 1
        it.st.counters[('ep', q)] = n
        t = atom(('qt', q, n) + tuple(it.cur_ix))
        it.st.attrs[(q, '_time')] = t
        it.assume(t - INF, '<=')
        it.assume(atom(('clock',)) - t, '<=')
        return n

    def kind(self, it, q, node, options=(1, 2)):
        """What the next event of the queue is in its current epoch."""
        k = ('kind', q, it.st.counters.get(('ep', q), 0))
        if k not in it.st.counters:
            it.st.counters[k] = options[it.choose(list(options), node)]
            if it.st.counters[k] == 2 and k[2] == 0 and ('popped', q) in it.st.seen:
                h = ('head', q, 0)
                it.st.attrs[(h, '_time')] = it.st.attrs[(q, '_time')]
            it.st.trace.append(('environment', 'the next event of %s is %s' % (show(q), {
                0: 'nothing', 1: 'an arrival', 2: 'a departure'}[it.st.counters[k]])))
        return it.st.counters[k]

    def call(self, it, f, args, kw, node):
        if isinstance(f, ExtMeth) and isinstance(f.self_, Sym) and f.self_.key == HEAP:
            return self.heap_op(it, f.name, args, kw, node)
        if isinstance(f, Bound) and isinstance(f.self_, Sym):
            s, n = f.self_.key, f.fn.node.name
            if s[0] == 'Q' and len(s) == 2 and n in self.primitives:
                return self.queue_op(it, s, n, args, kw, node)
            if s == NET and n in self.drawing:
                it.event('draw', n, list(args) + list((kw or {}).values()), node)
                return NONE
            if s[0] == 'head' and n == 'desired_destination':
                return self.destination(it, s, args, kw, node)
        if isinstance(f, Ext) and f.name == 'numpy.sum' and args and not kw:
            r = self.total(it, args[0])
            if r is not None:
                return r
        if isinstance(f, ExtMeth) and f.name == 'sum' and not args and not kw:
            r = self.total(it, f.self_)
            if r is not None:
                return r
        if isinstance(f, Ext) and f.name == 'builtins.sum' and len(args) == 1:
            r = self.total(it, args[0])
            if r is not None:
                return r
        return NotImplemented

    def total(self, it, v):
        """Sum of the tally array: what it was plus what was stored since."""
        if not (isinstance(v, Sym) and v.key == NA):
            return None
        if it.st.ver.get(('whole', NA), 0):
            return None
        t = S0
        for k, (idx, val) in it.st.items.get(NA, {}).items():
            n = it.num(val)
            if n is None or isinstance(idx, View):
                return None
            t = t + n - self.total0(it, ('Q', key(idx)))
        return t

    def destination(self, it, agent, args, kw, node):
        src = agent[1]
        if self.alias is True:
            d = from_key(src[1])
        elif self.alias is False:
            d = it.fresh('dest', 'dest')
            it.st.bools[it.bkey(BoolV('==', d, from_key(src[1])))] = False
            self.know(it, qk(d))
        else:
            d = it.fresh('dest', 'dest')
        it.event('route', 'desired_destination', [Sym(agent)] + list(args), node, d, kw=kw)
        return d

    def heap_op(self, it, name, args, kw, node):
        if name == 'pop':
            n = it.st.counters.get('pop', 0)
            it.st.counters['pop'] = n + 1
            if n == 0 and it.choose(['entry', 'none'], node) == 1:
                it.event('pop', 'pop', [], node, NONE)
                it.st.trace.append(('environment', 'nothing is scheduled'))
                return NONE
            k = Sym(('popk', n))
            q = qk(k)
            self.know(it, q)
            t = it.st.attrs[(q, '_time')]
            it.assume(t - INF, '<')
            if n == 0:
                it.assume(atom(('clock',)) - t, '==')       # the earliest scheduled event
            it.st.seen.add(('popped', q))
            r = Tup([t, k])
            it.event('pop', 'pop', [], node, r)
            it.st.attrs[(HEAP, 'size')] = Sym(('heapsize', n))
            return r
        if name == 'push':
            it.event('push', 'push', list(args) + [kw[x] for x in ('t', 'k') if x in kw], node)
            return NONE
        return NotImplemented

    def queue_op(self, it, q, n, args, kw, node):
        st = it.st
        self.know(it, q)
        me = Sym(q)
        ep = st.counters.get(('ep', q), 0)
        if n in ('at_capacity',):
            r = Sym(('cap', q, ep))
            it.event('qop', n, [me] + args, node, r)
            return r
        if n == 'next_event_description':
            d = const(self.kind(it, q, node, (1, 2) if ('popped', q) in st.seen else (0, 1, 2)))
            it.event('qop', n, [me] + args, node, d)
            return d
        if n in ('_current_color', 'number_queued', '__repr__', 'fetch_data'):
            r = Sym(('obs', n, q, ep) + tuple(key(a) for a in args))
            it.event('obs', n, [me] + args, node, r, kw=kw)
            return r
        info = {'total': st.attrs[(q, '_num_total')], 'ep': ep}
        if n == 'next_event':
            added = st.counters.get(('added', q, ep))
            k = 1 if added else self.kind(it, q, node)
            info['kind'] = k
            info['active'] = st.attrs.get((q, '_active'), Sym(('attr', q, '_active')))
            old = it.num(st.attrs[(q, '_num_total')])
            res = NONE
            if k == 2:
                res = Sym(('head', q, ep))
                if (res.key, '_time') not in st.attrs:
                    st.attrs[(res.key, '_time')] = st.attrs[(q, '_time')]
                info['agent_time'] = st.attrs[(res.key, '_time')]
                new = old - const(1)
            else:
                new = atom(('nt', q, ep + 1))
                it.assume(new.scale(-1), '<=')
                act = it.truth(it.getattr(me, '_active', node), node)
                it.assume(new - old - const(1 if act else 0), '<=')
                if not act:
                    pass
            it.event('qop', n, [me] + args, node, res, info=info)
            self.bump(it, q)
            st.attrs[(q, '_num_total')] = new
            return res
        if n == '_add_arrival':
            a = args[0] if args else kw.get('agent')
            if isinstance(a, Sym):
                info['agent_time'] = it.as_data(it.getattr(a, '_time', node))
            it.event('qop', n, [me] + ([a] if a is not None else []), node, info=info)
            old = it.num(st.attrs[(q, '_num_total')])
            e = self.bump(it, q)
            st.counters[('added', q, e)] = 1
            if a is not None:
                st.attrs[(q, '_num_total')] = old + const(1)
            else:
                new = atom(('nt', q, e))
                it.assume(old - new, '<=')
                st.attrs[(q, '_num_total')] = new
            return NONE
        if n == 'delay_service':
            it.event('qop', n, [me] + args, node, info=info, kw=kw)
            self.bump(it, q)
            return NONE
        if n in ('set_active', 'set_inactive', 'clear', 'set_num_servers'):
            it.event('qop', n, [me] + args, node, info=info, kw=kw)
            e = self.bump(it, q)
            if n == 'set_active':
                old = it.num(st.attrs[(q, '_num_total')])
                new = atom(('nt', q, e) + tuple(it.cur_ix))
                it.assume(old - new, '<=')
                it.assume(new - old - const(1), '<=')
                st.attrs[(q, '_num_total')] = new
                st.attrs[(q, '_active')] = TRUE
            elif n == 'set_inactive':
                st.attrs[(q, '_active')] = FALSE
            elif n == 'clear':
                st.attrs[(q, '_num_total')] = const(0)
                st.attrs[(q, '_time')] = INF
                st.attrs[(q, '_active')] = FALSE
            return NONE
        it.event('qop', n, [me] + args, node, info=info, kw=kw)
        self.bump(it, q)
        return it.fresh('qres')


def explore_net(cfg, prog, name, setup=None, mkargs=None):
    it = Interp(prog, cfg)

    def pre(it):
        st = it.st
        for n in ('_t', 'num_events', 'max_agents', '_blocking', '_initialized', '_prev_edge', 'num_agents',
                  'edge2queue', '_fancy_heap', '_route_probs', 'out_edges', 'in_edges', 'nV', 'nE', 'g', 'colors'):
            st.attrs[(NET, n)] = nattr(n)
        it.assume(S0.scale(-1), '<=')
        it.assume(S0 - INF, '<')
        it.assume(atom(('attr', NET, 'num_events')).scale(-1), '<=')
        it.assume(atom(('attr', NET, 'nE')).scale(-1), '<=')
        it.assume(atom(('attr', NET, 'nV')).scale(-1), '<=')
        it.assume(atom(('attr', NET, 'max_agents')) - INF, '<=')
        it.assume(atom(('attr', NET, '_t')) - atom(('clock',)), '<=')
        ctx = {'self': Sym(NET)}
        if setup:
            setup(it, ctx)
        ctx['pre'] = dict(st.attrs)
        return ctx

    def run(it, ctx):
        m = it.getattr(ctx['self'], name, None)
        if isinstance(m, ExtMeth):
            raise AnchorMissing('QueueNetwork.%s' % name)
        args, kw = mkargs(it, ctx) if mkargs else ([], {})
        return it.call(m, args, kw, None)
    it.get_class(NETCLS)
    return it, it.explore(pre, run)
