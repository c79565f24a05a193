"""Rules about one simulation step of the network."""
from .common import *  # noqa
from .netenv import *  # noqa

WHERE = 'queueing_tool/network/queue_network.py'


class Step:
    """One path of _simulate_next_event."""

    def __init__(self, ob, props, it, path, pre, alias):
        self.ob, self.props, self.it, self.p, self.pre, self.alias = ob, props, it, path, pre, alias
        self.v = PV(it, path.st, None, None, path, 'top')
        self.st = path.st
        self.ev = path.st.events
        self.pops = [e for e in self.ev if e.kind == 'pop']
        self.pushes = [e for e in self.ev if e.kind == 'push']
        self.qops = [e for e in self.ev if e.kind == 'qop']
        self.entry = self.default = self.ev[0].loc if self.ev else WHERE
        for e in self.ev:
            if e.loc and e.loc.split(':')[-1] != '?':
                self.default = e.loc
                break

    def c(self, prop, rule, ok, where, msg, sample=None):
        if prop in self.props:
            self.ob.check(prop, rule, ok, where or self.default, msg, self.p, sample)

    def tri(self, ok):
        """A failed obligation counts only where the path is exactly known."""
        return True if ok is True else (ok if ok is None else (False if not self.v.lossy() else None))

    def at(self, name):
        return loc_of(self.ev, name, self.default)

    def ops(self, name, q=None):
        return [e for e in self.qops if e.name == name and (q is None or key(e.args[0]) == q)]

    def run(self):
        if self.p.kind == 'undecided':
            for pr in self.props:
                self.c(pr, 'step', None, None, self.p.value)
            return
        if self.p.kind == 'raise':
            for pr in self.props:
                self.c(pr, 'a step does not fail', self.tri(False), getattr(self.p.value, 'where', None),
                       'a simulation step raises %s' % self.p.value.exc)
            return
        many = [e for e in self.pops if not (isinstance(e.res, Const))]
        none = [e for e in self.pops if isinstance(e.res, Const)]
        self.c('C12', 'one scheduled event is taken per step', self.tri(len(self.pops) == 1 or (
            not self.pops and self.idle_known())),
            self.pops[1].loc if len(self.pops) > 1 else None,
            'a step takes %d entries from the scheduler' % len(self.pops))
        if none or not self.pops:
            self.nothing()
            return
        if len(many) == 1:
            self.step(many[0])

    def idle_known(self):
        """No pop: fine only where the scheduler is known to be empty."""
        s = self.pre.get((HEAP, 'size'), Sym(('attr', HEAP, 'size')))
        return self.v.ent(num(s), '<=') or self.v.truth(s) is False

    def nothing(self):
        bad = [e for e in self.qops if e.name not in ('at_capacity', 'next_event_description')]
        self.c('C12', 'nothing happens when nothing is scheduled', self.tri(not bad and not self.pushes),
               bad[0].loc if bad else None, 'a queue is changed although no event is scheduled')
        n = self.st.attrs.get((NET, 'num_events'))
        self.c('C12', 'only events are counted', self.v.eq(n, self.pre[(NET, 'num_events')]), self.at('num_events'),
               'num_events changes although no event happened')

    def step(self, pop):
        v, st = self.v, self.st
        t, k1 = pop.res.items
        q1 = qk(k1)
        self.c('C12', 'the clock is the time of the event', v.eq(st.attrs.get((NET, '_t')), t), self.at('_t'),
               'after the event the clock shows %s and not the time of the event' % show(key(st.attrs.get((NET, '_t')))))
        n = num(st.attrs.get((NET, 'num_events')))
        self.c('C12', 'every event is counted once', v.eq(n, num(self.pre[(NET, 'num_events')]) + const(1)),
               self.at('num_events'), 'an event changes num_events by %s' % (
                   fmt(n - num(self.pre[(NET, 'num_events')])) if n is not None else '?'))
        kind = st.counters.get(('kind', q1, 0))
        if kind is None:
            self.c('C12', 'the event takes place', self.tri(False), None,
                   'the queue whose event is due is not asked for it')
            return
        routes = [e for e in self.ev if e.kind == 'route']
        k2 = routes[0].res if routes else None
        q2 = qk(k2) if k2 is not None else None
        touched = [q1] + ([q2] if q2 is not None and q2 != q1 else [])
        if kind == 1:
            self.arrival(q1, t)
        else:
            if not routes:
                self.c('C11', 'a departing agent is routed', self.tri(False), None,
                       'no destination is chosen for a departing agent')
                return
            self.c('C15', 'the departing agent chooses its destination', self.tri(
                key(routes[0].args[0]) == ('head', q1, 0) and len(routes) == 1), routes[0].loc,
                'the destination is not chosen (once) by the departing agent')
            self.departure(q1, q2, t, routes)
        self.schedule(q1, q2, touched, kind)
        self.tallies(touched)
        self.capacity(touched)
        if 'C37' in self.props:
            self.colors(touched)

    def colors(self, touched):
        """C37: a drawn step shows what it did."""
        for q in touched:
            ch = [i for i, e in enumerate(self.ev) if e.kind == 'qop' and e.name in ('next_event', '_add_arrival') and
                  key(e.args[0]) == q]
            if not ch:
                continue
            shown, unsure = False, False
            prev = None
            for i, e in enumerate(self.ev):
                if e.kind == 'setattr' and e.name == '_prev_edge':
                    prev = self.edge_of(e.args[-1])
                if e.kind != 'draw' or i < ch[-1]:
                    continue
                if e.name != '_update_graph_colors':
                    unsure = unsure or e.name != '_update_vertex_color'
                    shown = shown or e.name == '_update_all_colors'
                    continue
                own = self.edge_of(e.args[0]) if e.args else None
                shown = shown or q in (own, prev)
                unsure = unsure or own is None
            self.c('C37', 'a drawn step brings the queues it changed up to date', shown or (None if unsure else self.tri(False)),
                   self.ev[ch[-1]].loc, 'the color of %s is not brought up to date after the event' % show(q), 'updated')

    def edge_of(self, x):
        """The queue whose edge it is."""
        if isinstance(x, Tup) and len(x.items) > 2:
            return qk(x.items[2])
        k = key(x)
        if k[:1] == ('edge',) and len(k) == 2:
            return k[1]
        return None

    # -- C11 / C12
    def arrival(self, q1, t):
        ne = self.ops('next_event')
        self.c('C12', 'an arrival event is processed once by its queue',
               self.tri(len(ne) == 1 and key(ne[0].args[0]) == q1),
               ne[-1].loc if ne else None, 'an arrival event leads to %d queue events' % len(ne))
        bad = [e for e in self.qops if e.name not in ('next_event', 'at_capacity', 'next_event_description')]
        self.c('C11', 'an arrival event moves no other agents', self.tri(not bad), bad[0].loc if bad else None,
               'an arrival event also calls %s' % (bad[0].name if bad else ''))

    def departure(self, q1, q2, t, routes):
        v, st = self.v, self.st
        head = ('head', q1, 0)
        cap = st.bools.get(('truth', ('cap', q2, 0)), st.bools.get(('cap', q2, 0)))
        ne, add, delay = self.ops('next_event'), self.ops('_add_arrival'), self.ops('delay_service')
        moved = bool(ne or add)
        loop = q1 == q2
        blocks = [e for e in self.ev if e.kind == 'setattr' and e.name in ('num_blocked', 'blocked')]
        first = (delay or ne or add or [None])[0]
        loc = first.loc if first is not None else None
        if not loop:
            # which of the two happens is decided by the destination being full, and nothing else
            if cap is None:
                self.c('C14', 'fullness of the destination decides', self.tri(False), loc,
                       'whether the agent moves does not depend on its destination being at capacity')
            elif moved and not delay:
                self.c('C14', 'an agent is blocked when its destination is full', self.tri(cap is False), loc,
                       'an agent enters a queue that is at capacity')
            elif delay and not moved:
                self.c('C14', 'an agent is blocked only when its destination is full', self.tri(cap is True), loc,
                       'an agent is blocked although its destination is not at capacity')
            else:
                self.c('C14', 'an agent either moves or is blocked', self.tri(False), loc,
                       'a departing agent is %s' % ('moved and delayed' if moved else 'neither moved nor delayed'))
        else:
            self.c('C14', 'a self-loop never blocks its own agent', self.tri(moved and not delay), loc,
                   'an agent that stays at its queue is blocked by itself')
        if delay:
            self.blocked(q1, q2, head, delay, blocks)
        else:
            self.c('C14', 'only blocked agents are counted as blocked', self.tri(not blocks),
                   blocks[0].loc if blocks else None, 'an agent that moves is counted as blocked')
        if moved:
            self.moved(q1, q2, head, t, ne, add)

    def blocked(self, q1, q2, head, delay, blocks):
        v, st = self.v, self.st
        a = num(st.attrs.get((q2, 'num_blocked'))) or atom(('attr', q2, 'num_blocked'))
        b = num(st.attrs.get((head, 'blocked'))) or atom(('attr', head, 'blocked'))
        self.c('C14', 'the queue counts the agents it blocks', v.eq(a, atom(('attr', q2, 'num_blocked')) + const(1)),
               self.at('num_blocked'), 'num_blocked of the full queue does not grow by one')
        self.c('C14', 'a blocked agent counts its blocks', v.eq(b, atom(('attr', head, 'blocked')) + const(1)),
               self.at('blocked'), 'the blocked agent does not count the block')
        others = [e for e in blocks if key(e.args[0]) not in (q2, head)]
        self.c('C14', 'only the full queue and the agent count the block', self.tri(not others),
               others[0].loc if others else None, 'a block is counted at %s' % (
                   show(key(others[0].args[0])) if others else ''))
        self.c('C14', 'the blocked agent stays at its queue', self.tri(len(delay) == 1 and key(delay[0].args[0]) == q1),
               delay[0].loc, 'a block delays %s' % show(key(delay[0].args[0])))
        mode = v.truth(self.pre[(NET, '_blocking')])
        t = delay[0].args[1] if len(delay[0].args) > 1 else delay[0].kw.get('t', NONE)
        none = isinstance(t, Const) and t.v is None
        if mode is None:
            self.c('C14', 'the blocking discipline decides', self.tri(False), delay[0].loc,
                   'a blocked agent is treated alike under BAS and RS')
        elif mode is False:
            self.c('C14', 'RS: a blocked agent is served again', self.tri(none), delay[0].loc,
                   'under RS the blocked agent is not given another service')
        else:
            d2 = num(st.attrs.get((('head', q2, 0), '_time'))) or atom(('attr', ('head', q2, 0), '_time'))
            l = num(t) if not none else None
            if l is None:
                ok, ok2 = (False if none else None), (False if none else None)
                ok, ok2 = self.tri(ok), self.tri(ok2)
            else:
                ok = self.tri(v.ent(d2 - l, '<')) if not foreign(key(l)) else None
                ok2 = self.tri(v.ent(l - d2 - Lin({}, Fraction(1, 1000)), '<=')) if not foreign(key(l)) else None
            self.c('C14', 'BAS: a blocked agent waits for the next departure of its destination', ok, delay[0].loc,
                   'under BAS the blocked agent is delayed to %s, not until after the next departure of the full '
                   'queue' % show(key(t)))
            self.c('C14', 'BAS: a blocked agent waits no longer than to the next departure', ok2, delay[0].loc,
                   'under BAS the blocked agent is delayed to %s, later than right after the next departure of the '
                   'full queue' % show(key(t)))

    def moved(self, q1, q2, head, t, ne, add):
        v = self.v
        loop = q1 == q2
        want = [q1, q2]
        got = [key(e.args[0]) for e in ne]
        self.c('C11', 'source and destination each process one event', self.tri(got == want),
               ne[-1].loc if ne else None, 'a departure leads to queue events at %s' % ', '.join(map(show, got)))
        ok = len(add) == 1 and key(add[0].args[0]) == q2 and len(add[0].args) > 1 and \
            key(add[0].args[1]) == head
        self.c('C11', 'the departing agent arrives at its destination, once', self.tri(ok),
               add[0].loc if add else (ne[0].loc if ne else None),
               'the departing agent is added %d times, to %s' % (
                   len(add), ', '.join(show(key(e.args[0])) for e in add)))
        if len(add) == 1:
            at_ = add[0].info.get('agent_time')
            self.c('C11', 'the arrival coincides with the departure', v.eq(at_, t), add[0].loc,
                   'the agent arrives at its destination at %s' % (show(key(at_)) if at_ is not None else '?'))
            i = self.ev.index(add[0])
            n1 = [e for e in ne if self.ev.index(e) < i]
            n2 = [e for e in ne if self.ev.index(e) > i]
            self.c('C11', 'departure, then arrival', self.tri(
                [key(e.args[0]) for e in n1] == [q1] and [key(e.args[0]) for e in n2] == [q2]), add[0].loc,
                'the departure, the hand-over and the arrival are out of order')

    def schedule(self, q1, q2, touched, kind):
        v, st = self.v, self.st
        pushed = {}
        for e in self.pushes:
            if len(e.args) != 2:
                self.c('C12', 'what is scheduled', None, e.loc, 'push with %d arguments' % len(e.args))
                continue
            t, k = e.args
            q = qk(k)
            if (q, '_time') not in st.attrs:
                self.c('C12', 'what is scheduled is a queue and its next event time', self.tri(False), e.loc,
                       'an entry for %s is scheduled' % show(key(k)))
                continue
            cur = st.attrs[(q, '_time')]
            ok = v.eq(t, cur)
            self.c('C12', 'what is scheduled is a queue and its next event time', ok, e.loc,
                   'queue %s is scheduled at %s, which is not its next event time' % (show(q), show(key(t))))
            self.c('C12', 'only events that will happen are scheduled', self.tri(v.ent(num(cur) - INF, '<')), e.loc,
                   'a queue without a next event may be scheduled')
            if ok is not False:
                pushed[q] = e
        for q in touched:
            if q in pushed:
                continue
            cur = num(st.attrs[(q, '_time')])
            idle = v.ent(INF - cur, '<=')
            same = q != q1 and v.eq(cur, atom(('qt', q, 0))) is True
            self.c('C12', 'a queue whose next event changed is scheduled again', self.tri(bool(idle or same)), None,
                   'the %s of the event may have a next event that is not scheduled' % (
                       'source' if q == q1 else 'destination'))
        for q in set(pushed) - set(touched):
            self.c('C12', 'only queues that took part are scheduled', None, pushed[q].loc, 'another queue')

    def tallies(self, touched):
        v, st = self.v, self.st
        if 'C11' not in self.props:
            return
        whole = st.ver.get(('whole', NA), 0) or key(st.attrs.get((NET, 'num_agents'))) != NA
        if whole:
            self.c('C11', 'num_agents is the number of agents at each queue', None, None, 'num_agents was replaced')
            return
        ov = st.items.get(NA, {})
        for q in touched:
            cur = st.attrs[(q, '_num_total')]
            val = ov[q[1]][1] if q[1] in ov else atom(('nt', q, 0))
            self.c('C11', 'num_agents is the number of agents at each queue', v.eq(val, cur),
                   next((e.loc for e in reversed(self.ev) if e.kind == 'setitem' and key(e.args[0]) == NA), None),
                   'num_agents of the %s is not its number of agents after the event' % (
                       'source' if q == touched[0] else 'destination'))
        for k, (idx, val) in ov.items():
            if ('Q', k) not in touched:
                self.c('C11', 'num_agents of the other queues is unchanged',
                       v.eq(val, atom(('nt', ('Q', k), 0))), None, 'num_agents of another edge is changed')

    def capacity(self, touched):
        if 'C13' not in self.props:
            return
        v, st = self.v, self.st
        t = S0
        for q in touched:
            t = t + num(st.attrs[(q, '_num_total')]) - atom(('nt', q, 0))
        mx = num(self.pre[(NET, 'max_agents')])
        ok = v.ent(t - mx, '<=', extra=[(S0 - mx, '<=')])
        loc = next((e.loc for e in reversed(self.ev) if e.kind == 'qop' and e.name == 'next_event'), None)
        self.c('C13', 'an event never takes the network above max_agents', self.tri(ok), loc,
               'after the event there may be more than max_agents agents in the network')
        # ... and agents from outside are only refused when the network is full
        for e in self.ev:
            if e.kind == 'setattr' and e.name == '_active' and key(e.args[0])[0] == 'Q':
                if v.truth(e.args[1]) is False:
                    full = v.ent(mx - S0, '<=')
                    self.c('C13', 'a queue is only closed when the network is full', self.tri(full), e.loc,
                           'a queue stops accepting outside arrivals although the network is not full')


def step_task(prog, props, alias, slow, acls='Agent'):
    ob = Obligations()
    cfg = NetCfg(acls, alias)
    it, paths = explore_net(cfg, prog, '_simulate_next_event',
                            mkargs=lambda it, ctx: ([TRUE if slow else FALSE], {}))
    ob.absorb(it, '_simulate_next_event', paths)
    for p in paths:
        Step(ob, props, it, p, (p.extra or {}).get('pre', {}), alias).run()
    return ob
