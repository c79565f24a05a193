"""Obligations on the methods of one queue (QueueServer and its subclasses).

Every rule is a relation between the abstract pre-state of an entry point (see
qenv) and what one of its control-flow paths did: the containers' contents, the
counters, the calls of the caller's functions.  A path on which a relation does
not follow from the branch conditions is a violation, unless a term on it is
something the analysis lost track of (then the case is reported as open).
"""
from .common import *  # noqa
from .qenv import *  # noqa

KNOWN = {'data', 'colors', 'queue', '_arrivals', '_departures', 'net_data', 'edge', 'num_system', '_num_total',
         'num_departures', '_num_arrivals', '_oArrivals', 'num_blocked', '_current_t', '_next_ct', 'active_cap',
         'deactive_t', 'num_servers', '_active', 'collect_data', 'service_f', 'arrival_f', 'AgentFactory',
         '_time', 'buffer', 'max_servers', 'over_max', 'coloring_sensitivity',
         'agent_id', 'blocked', '_has_resource', '_had_resource', 'stats', 'n'}
COUNTERS = ('num_system', '_num_total', 'num_departures', '_num_arrivals', '_oArrivals', 'num_blocked',
            '_current_t', '_next_ct', 'num_servers', '_time', '_active')
LOSS = ('LossQueue', 'InfoQueue', 'ResourceQueue')
XA, XD = ('hd', 'A', 0), ('hd', 'D', 0)
TA, TD = atom(('attr', XA, '_time')), atom(('attr', XD, '_time'))


class QV(PV):
    """A path of a queue method with the queue's containers made accessible."""

    def __init__(self, it, st, start, sig, path, kind, cfg):
        PV.__init__(self, it, st, start, sig, path, kind, KNOWN)
        self.cfg = cfg
        self.ctx = path.extra or {}
        self.pre = self.ctx.get('pre', {})
        self.name = cfg.qname

    def get(self, name):
        return self.st.attrs.get((SELF, name))

    def prev(self, name):
        if self.start is not None:
            return self.start.attrs.get((SELF, name))
        return self.pre.get((SELF, name))

    def cont(self, name, st=None):
        st = st or self.st
        v = st.attrs.get((SELF, name))
        return st.content.get(v.key) if isinstance(v, Sym) else None

    def count(self, name, st=None):
        c = self.cont(name, st)
        real = lambda xs: const(sum(1 for x in xs if not self.sentinel(x)))
        if isinstance(c, Heap):
            return c.n + real(c.known)
        if isinstance(c, Deq):
            return c.n + const(len(c.left) + len(c.right))
        if isinstance(c, LList):
            return real(c.items)
        if isinstance(c, UList):
            return c.n + real(c.suffix)
        return None

    def sentinel(self, x):
        return isinstance(x, Sym) and (x.key == INFTY or
                                       getattr(self.it_class(x), 'qual', None) == 'InftyAgent')

    def it_class(self, x):
        c = self.st.cls.get(x.key)
        if c is not None:
            return c
        t = self.cfg.typeof(self.it, x.key)
        return self.it.get_class(t) if t else None

    def known(self, name, st=None):
        c = self.cont(name, st)
        if isinstance(c, Heap):
            return [x for x in c.known if not self.sentinel(x)]
        if isinstance(c, Deq):
            return list(c.left) + list(c.right)
        if isinstance(c, LList):
            return [x for x in c.items if not self.sentinel(x)]
        if isinstance(c, UList):
            return [x for x in c.suffix if not self.sentinel(x)]
        return None

    def num(self, name):
        v = self.get(name)
        return num(v) if v is not None else None

    def pnum(self, name):
        v = self.prev(name)
        return num(v) if v is not None else None

    def time_of(self, x, st=None):
        st = st or self.st
        if self.sentinel(x):
            return INF
        v = st.attrs.get((x.key, '_time'))
        return num(v) if v is not None else atom(('attr', x.key, '_time'))

    def calls(self, name):
        """Calls of a repository method by its name, once per dynamic call (the most derived entry)."""
        out, depth = [], 0
        stack = []
        for e in self.events:
            if e.kind == 'enter' and e.name.split('.')[-1] == name:
                if not stack:
                    out.append(e)
                stack.append(e)
            elif e.kind == 'exit' and e.name.split('.')[-1] == name and stack:
                stack.pop()
        return out

    def candidates(self, name):
        """(time, present: constraint or None) of every possible head of a heap."""
        c = self.cont(name)
        if isinstance(c, LList):
            c = Heap(None, const(0), known=c.items)
        if not isinstance(c, Heap):
            return None, None
        out = [(self.time_of(x), None) for x in c.known]
        facts = []
        if not self.ent(c.n, '<='):
            s = ('hd', c.base, c.seq)
            t = atom(('attr', s, '_time'))
            v = self.st.attrs.get((s, '_time'))
            if v is not None:
                t = num(v)
            facts.append((t - INF, '<'))
            if c.floor is not None:
                facts.append((c.floor - t, '<='))
            if c.base in ('A', 'D') and c.seq == 0:
                facts.append((at('_current_t') - t, '<='))
            out.append((t, (const(1) - c.n, '<=')))
        return out, facts


def views(it, path, cfg):
    out = [QV(it, path.st, None, None, path, 'top', cfg)]

    def rec(events):
        for e in events:
            if e.kind == 'loop' and e.info and e.info.get('paths'):
                for p in e.info['paths']:
                    out.append(QV(it, p[1], p[2], p[0], path, 'iter', cfg))
                    rec(p[1].events)
    rec(path.st.events)
    return out


# ------------------------------------------------------------------ tasks

def arg_t(it, ctx):
    t = Sym(('arg', 't'))
    it.assume(atom(t.key) - INF, '<')
    it.assume(at('_current_t') - atom(t.key), '<=')
    it.st.bools[('isnone', t.key)] = False
    return [t], {}


def arg_n(it, ctx):
    return [Sym(('arg', 'n'))], {}


def arg_agent(it, ctx):
    a = Sym(('arg', 'agent'))
    it.assume(atom(('attr', a.key, '_time')) - INF, '<')
    it.assume(at('_current_t') - atom(('attr', a.key, '_time')), '<=')
    return [a], {}


def arg_servers_rq(it, ctx):
    n = Sym(('arg', 'n'))
    it.assume(atom(n.key).scale(-1), '<=')
    it.assume(atom(n.key) - INF, '<')
    return [n], {}


METHODS = {
    'next_event': ('next_event', None),
    'add_agent': ('_add_arrival', arg_agent),
    'set_active': ('set_active', None),
    'set_inactive': ('set_inactive', None),
    'delay': ('delay_service', None),
    'delay_t': ('delay_service', arg_t),
    'set_num_servers': ('set_num_servers', arg_n),
    'at_capacity': ('at_capacity', None),
    'describe': ('next_event_description', None),
    'clear': ('clear', None),
    'number_queued': ('number_queued', None),
    '_key': ('_key', None),
}


def run_task(prog, q, a, m, props, fix=None):
    """Analyse one method of one queue class for one agent class."""
    cfg = QueueCfg(q, a, fix)
    name, mk = METHODS[m]
    if m == 'set_num_servers' and q == 'ResourceQueue':
        mk = arg_servers_rq
    it, paths = run_method(cfg, prog, name, mk)
    ob = Obligations()
    label = '%s.%s with %s' % (q, name, a) + (' (given time)' if m == 'delay_t' else '')
    ob.absorb(it, label, paths)
    meth = it.class_attr(it.get_class(CLS[q]), name)
    default = '%s.%s' % (q, name)
    if meth is not None and isinstance(meth[0], Fn):
        default = '%s:%s %s' % (meth[0].mod.rel, meth[0].node.lineno, meth[0].qual)
    ck = Checker(ob, it, cfg, q, a, m, default, props)
    for p in paths:
        ck.path(p)
    for loc, st in sorted(it.stuck.items(), key=lambda x: str(x[0])):
        v = QV(it, st, None, None, Path('stuck', None, st), 'top', cfg)
        for pr in ('C03', 'C05'):
            ck.c(pr, 'an operation on a queue ends', None if v.lossy() else False, loc,
                 'a loop of %s changes nothing and never ends' % name, v)
    return ob


class Checker:
    def __init__(self, ob, it, cfg, q, a, m, default, props):
        self.ob, self.it, self.cfg, self.q, self.a, self.m = ob, it, cfg, q, a, m
        self.default, self.props = default, set(props)
        self.label = '%s/%s' % (q, a)

    def c(self, prop, rule, ok, where, msg, v):
        if prop in self.props:
            self.ob.check(prop, rule, ok, where or self.default, '%s: %s' % (self.label, msg), v.path)

    def at(self, v, name):
        return loc_of(v.path.st.events, name, self.default)

    def imp(self, v, holds):
        """A relation that must follow on the path: False is a violation only on precise paths."""
        if holds:
            return True
        return None if v.lossy() else False

    def path(self, p):
        if p.kind == 'undecided':
            for pr in self.props:
                self.ob.check(pr, 'path', None, self.default, '%s: %s' % (self.label, p.value))
            return
        vs = views(self.it, p, self.cfg)
        top = vs[0]
        if p.kind == 'raise':
            self.raised(top, p.value)
            return
        self.state(top)
        for v in vs:
            self.local(v)
        getattr(self, 'm_' + self.m, lambda v: None)(top)

    # -------------------------------------------------------------- always

    def raised(self, v, e):
        where = e.where or self.default
        if self.m == 'set_num_servers' and e.exc in ('TypeError', 'ValueError'):
            n = atom(('arg', 'n'))
            bad = self.ok_n(v)
            self.c('C32', 'set_num_servers rejects exactly the invalid numbers', None if bad is None else not bad,
                   where, 'set_num_servers raises %s for a valid number of servers' % e.exc, v)
            same = all(self.eqn(v, n_) for n_ in COUNTERS)
            self.c('C32', 'a rejected set_num_servers changes nothing', self.imp(v, same), where,
                   'set_num_servers raised after changing the queue', v)
            return
        ok = None if v.lossy() else False
        for pr in self.props:
            if pr in RAISES.get(self.m, ()):
                self.c(pr, 'the operation completes', ok, where,
                       '%s raises %s on a queue in a regular state' % (METHODS[self.m][0], e.exc), v)

    def eqn(self, v, name):
        a, b = v.num(name), v.pnum(name)
        if a is None or b is None:
            x, y = v.get(name), v.prev(name)
            return x is not None and y is not None and key(x) == key(y) or (
                v.truth(x) is not None and v.truth(x) == v.truth(y))
        return v.ent(a - b, '==')

    def state(self, v):
        """The counters describe the containers."""
        if self.q == 'NullQueue':
            return
        d, q, a = v.count('_departures'), v.count('queue'), v.count('_arrivals')
        if None in (d, q, a):
            self.c('C01', 'counts', None, None, 'a container became opaque', v)
            return
        ns, nt = v.num('num_system'), v.num('_num_total')
        self.c('C01', 'num_system = in service + waiting', v.eq(ns, d + q), self.at(v, 'num_system'),
               'num_system is %s but %s agents are in service or waiting' % (show(key(ns)), fmt(d + q)), v)
        self.c('C01', '_num_total = scheduled to arrive + in system', v.eq(nt, a + d + q),
               self.at(v, '_num_total'),
               '_num_total is %s but %s agents are scheduled or in the system' % (show(key(nt)), fmt(a + d + q)), v)
        if self.m != 'clear':
            na, nd = v.num('_num_arrivals'), v.num('num_departures')
            l = (na - v.pnum('_num_arrivals')) - (nd - v.pnum('num_departures')) - (ns - v.pnum('num_system'))
            self.c('C01', 'admitted - departed = in system', v.eq(l, const(0)), self.at(v, '_num_arrivals'),
                   'arrivals counted minus departures counted does not follow the change of num_system', v)
        for h in ('_arrivals', '_departures'):
            c = v.cont(h)
            ks = c.known if isinstance(c, Heap) else c.items
            n = sum(1 for x in ks if v.sentinel(x))
            self.c('C05', 'both schedules keep their end marker', n == 1 and not (
                isinstance(c, LList) and len(c.items) > 1), self.default,
                '%s has %d end markers' % (h, n), v)
        # published time
        self.published(v)
        # waiting only while the servers are busy
        ns_ = v.num('num_servers')
        ok = v.ent(q, '<=') or v.ent(ns_ - d, '<=', [(const(1) - q, '<=')])
        self.c('C03', 'agents wait only while every server is busy', self.imp(v, ok), self.default,
               'an agent is left waiting while a server is idle (waiting %s, in service %s, servers %s)'
               % (fmt(q), fmt(d), show(key(ns_))), v)
        # nothing overwrites scheduling keys of agents inside a heap, reorders the line, ...
        for f in v.st.flags:
            if f[0] == 'heapkey':
                self.c('C05', 'scheduled times change only outside the schedule', False, f[-1],
                       'the time of an agent inside a schedule is overwritten: the schedule loses its order', v)
            elif f[0] == 'rawheap':
                self.c('C05', 'schedules are changed only by heap operations', False, f[-1],
                       'a schedule is changed by something other than a heap operation', v)
            elif f[0] == 'dequereorder':
                self.c('C02', 'the waiting line is never reordered', False, f[-1], 'the waiting line is reordered', v)

    def published(self, v):
        ca, fa = v.candidates('_arrivals')
        cd, fd = v.candidates('_departures')
        t = v.num('_time')
        if ca is None or cd is None or t is None:
            self.c('C05', 'published next-event time', None, None, 'schedule became opaque', v)
            return
        facts = fa + fd
        cands = ca + cd
        low = all(v.ent(t - x, '<=', facts + ([pres] if pres else [])) for x, pres in cands)
        one = any(v.ent(t - x, '==', facts) and (pres is None or v.ent(*pres)) for x, pres in cands)
        if not one and low:
            # equal to the earlier of several: enough that it is >= each side's minimum in every case
            one = any(v.ent(x - t, '<=', facts) and (pres is None or v.ent(*pres)) for x, pres in cands)
        ok = low and one
        self.c('C05', 'published time = earliest scheduled time', self.imp(v, ok) if not v.precise(t) or ok else False,
               self.at(v, '_time'),
               'after %s the published next-event time is %s, which is not the earliest scheduled time'
               % (METHODS[self.m][0], fmt(t)), v)

    # -------------------------------------------------------------- each path segment

    def local(self, v):
        if self.q == 'NullQueue':
            return
        st0 = v.start
        arr = v.st.attrs.get((SELF, '_arrivals'))
        dep = v.st.attrs.get((SELF, '_departures'))
        que = v.st.attrs.get((SELF, 'queue'))
        ka = [key(x) for x in (arr, dep, que)]
        popped, pushed, line = [], [], []
        for e in v.events:
            if e.kind == 'heappop' and key(e.args[0]) in ka:
                popped.append((e.res, e))
            elif e.kind == 'mutate' and key(e.args[0]) == ka[2] and e.name in ('popleft', 'pop'):
                popped.append((e.res, e))
        if self.m == 'clear':
            return
        # identity: what was taken out is put back exactly once, returned, or is the arrival that is dropped
        where = {}
        for cn in ('_arrivals', '_departures', 'queue'):
            now = v.known(cn)
            if now is None:
                return
            old = [key(x) for x in (v.known(cn, st0) or [])] if st0 is not None else []
            for x in now:
                k = key(x)
                if k in old:
                    old.remove(k)
                    continue
                where.setdefault(k, []).append(cn)
        ret = key(v.path.value) if v.kind == 'top' and isinstance(v.path.value, Sym) else None
        for k, cs in where.items():
            self.c('C01', 'no agent is in two places', len(cs) == 1, self.default,
                   'agent %s is put into %s' % (show(k), ' and '.join(cs)), v)
        seen = set()
        for x, e in popped:
            if not isinstance(x, Sym) or x.key in seen:
                continue
            seen.add(x.key)
            if v.sentinel(x):
                self.c('C05', 'both schedules keep their end marker', False, e.loc,
                       'the end marker is taken out of a schedule', v)
                continue
            homes = len(where.get(x.key, [])) + (1 if ret == x.key else 0)
            dropped = homes == 0 and x.key[:2] == ('hd', 'A') and self.m == 'next_event' and \
                self.q in LOSS
            self.c('C01', 'an agent taken out goes to exactly one place', homes == 1 or dropped, e.loc,
                   'agent %s leaves its container and ends up in %d places' % (show(x.key), homes), v)
        for k, cs in where.items():
            new = k not in seen and not any(e.kind == 'factory' and key(e.res) == k for e in v.events) and \
                k != ('arg', 'agent') and not any(e.kind == 'new' and key(e.res) == k for e in v.events)
            self.c('C01', 'no agent is copied into a second container', not new, self.default,
                   'agent %s is put into %s without being taken out of where it was' % (show(k), cs[0]), v)
        # services
        starts = [e for e in v.events if e.kind == 'heappush' and key(e.args[0]) == ka[1]]
        serv = [e for e in v.events if e.kind == 'callback' and e.name == 'service_f']
        if self.m != 'delay' and self.m != 'delay_t':
            self.c('C07', 'one service time per start of service', len(serv) == len(starts),
                   (serv or starts or [None])[0].loc if serv or starts else None,
                   '%d service times are drawn for %d starts of service' % (len(serv), len(starts)), v)
            for e in serv:
                now = e.watch.get('_current_t')
                one = len(e.args) == 1 and not e.kw
                self.c('C07', 'service time drawn at the time service starts',
                       v.eq(e.args[0], now) if one else False, e.loc,
                       'service_f is called with %s at time %s' % (
                           ', '.join(show(key(x)) for x in e.args), show(key(now)) if now is not None else '?'), v)
        used = []
        for e in starts:
            t = e.info['t'] if e.info else None
            if self.m != 'delay_t':
                src = [s for s in serv if t is not None and key(s.res) == key(t) and s not in used]
                used += src[:1]
                self.c('C07', 'departure time = what service_f returned', bool(src) or (None if t is not None and not
                       v.precise(t) else False), e.loc,
                       'an agent starts service with departure time %s, not the value service_f returned for it'
                       % (show(key(t)) if t is not None else '?'), v)
            x = e.args[1]
            if self.m not in ('delay', 'delay_t'):
                # FIFO and capacity at the start of service
                if isinstance(x, Sym) and x.key[0] == 'hd' and x.key[1] == 'A':
                    q = e.watch.get('Q')
                    self.c('C02', 'an arrival is served at once only if nobody waits',
                           self.imp(v, q is not None and v.ent(q, '<=')), e.loc,
                           'an arriving agent starts service while %s agents wait' % (fmt(q) if q else '?'), v)
                d, ns = e.watch.get('D'), e.watch.get('num_servers')
                if self.m == 'set_num_servers':
                    ns = Sym(('arg', 'n'))
                if d is not None and num(ns) is not None:
                    dd = d - const(1)        # the end marker
                    self.c('C03', 'service starts only on an idle server',
                           self.imp(v, v.ent(dd + const(1) - num(ns), '<=')), e.loc,
                           'an agent starts service while %s agents are in service at %s servers'
                           % (fmt(dd), show(key(ns))), v)
        # the line: leave at the front, join at the back
        c1 = v.cont('queue')
        c0 = v.cont('queue', st0) if st0 is not None else Deq('Q', (), const(0), Q, ())
        if isinstance(c1, Deq) and isinstance(c0, Deq):
            ok = c1.base == c0.base and not c1.left
            added = [key(x) for x in c1.right[len(c0.right):]] if ok else []
            keep = [key(x) for x in c1.right[:len(c0.right)]] == [key(x) for x in c0.right]
            if ok and keep:
                taken = c1.lo - c0.lo
                ok = v.ent(taken + c1.n - c0.n, '==')
                outs = [x.key for x, e in popped if isinstance(x, Sym) and x.key[0] == 'mid']
                nm = [('mid', c0.base, key(c0.lo + const(i))) for i in range(len(outs))]
                ok = ok and v.ent(taken - const(len(outs)), '==') if v.kind == 'iter' or not any(
                    e.kind == 'loop' for e in v.events) else ok
            self.c('C02', 'agents leave the line from the front and join at the back', self.imp(v, ok and keep),
                   self.default, 'the waiting line is not served in order of arrival', v)
            for k in added:
                self.c('C02', 'only the arriving agent joins the line', k[:2] == ('hd', 'A'), self.default,
                       'agent %s is put back into the waiting line' % show(k), v)
            for x, e in popped:
                if isinstance(x, Sym) and x.key[0] == 'mid':
                    self.c('C02', 'an agent leaving the line starts service',
                           where.get(x.key) == ['_departures'], e.loc,
                           'agent %s leaves the waiting line but does not start service' % show(x.key), v)
        elif isinstance(c0, Deq):
            self.c('C02', 'the waiting line stays a queue', None, None, 'line became opaque', v)

    # -------------------------------------------------------------- next_event

    def has_resource(self, v, k):
        a = ('attr', k, '_has_resource')
        for c in (True, False):
            for key in (('==', a, ('c', 'bool', c)), ('==', ('c', 'bool', c), a)):
                b = v.st.bools.get(key)
                if b is not None:
                    return bool(b) == c
        return v.truth(Sym(a))

    def m_next_event(self, v):
        if self.q == 'NullQueue':
            return
        ctx = v.ctx
        ta, td = ctx['ta'], ctx['td']
        ret = v.path.value
        if ta == INF and td == INF:
            for n in COUNTERS:
                self.c('C05', 'no event scheduled: nothing happens', self.imp(v, self.eqn(v, n)), self.at(v, n),
                       'next_event changes %s although nothing is scheduled' % n, v)
            self.c('C05', 'no event scheduled: nothing is returned', isinstance(ret, Const) and ret.v is None,
                   None, 'next_event returns something although nothing is scheduled', v)
            return
        if td != INF and (ta == INF or v.ent(td - ta, '<')):
            self.departure(v)
        elif ta != INF and v.ent(ta - td, '<='):
            self.arrival(v)
        else:
            self.c('C05', 'event selected', None, None, 'order of the two heads not decided', v)

    def departure(self, v):
        where = self.default
        x = XD
        pops = [e for e in v.evs('heappop') if key(e.args[0]) == ('attr', SELF, '_departures')]
        where = pops[0].loc if pops else where
        good = v.path.kind == 'return' and isinstance(v.path.value, Sym) and v.path.value.key == x
        self.c('C05', 'the earliest departure leaves', good and [key(e.res) for e in pops] == [x], where,
               'the next event is the departure of the agent with the earliest departure time, but next_event '
               'does not take out and return that agent', v)
        self.c('C05', 'the clock moves to the event', v.eq(v.num('_current_t'), TD), self.at(v, '_current_t'),
               'after a departure the clock shows %s, not the departure time' % show(key(v.get('_current_t'))), v)
        arr = v.cont('_arrivals')
        same = isinstance(arr, Heap) and arr.base == 'A' and arr.seq == 0 and len(v.known('_arrivals')) == 0
        self.c('C05', 'a departure leaves the arrivals alone', same, where, 'a departure changes the arrivals', v)
        for n, d in (('num_departures', 1), ('num_system', -1), ('_num_total', -1), ('_num_arrivals', 0),
                     ('_oArrivals', 0)):
            if v.num(n) is None:
                continue
            self.c('C01', 'departure: %s' % n, v.eq(v.num(n), v.pnum(n) + const(d)), self.at(v, n),
                   'a departure changes %s by %s instead of %d' % (n, fmt(v.num(n) - v.pnum(n)), d), v)
        if self.q in LOSS:
            self.c('C04', 'only blocked arrivals are counted as blocked',
                   v.eq(v.num('num_blocked'), v.pnum('num_blocked')), self.at(v, 'num_blocked'),
                   'a departure changes num_blocked', v)
        self.no_outside(v)
        self.data_departure(v)
        # callbacks of the agent
        acts = self.actions(v)
        self.c('C36', 'queue_action(2) once at departure', [a for k, a in acts if k == x] == [2], where,
               'the departing agent gets queue_action codes %s instead of [2]' % [a for k, a in acts if k == x], v)
        others = {}
        for k, a in acts:
            if k != x:
                others.setdefault(k, []).append(a)
        served = [e.args[1].key for e in v.evs('heappush') if key(e.args[0]) == ('attr', SELF, '_departures')
                  and isinstance(e.args[1], Sym)]
        self.c('C36', 'queue_action(1) once at the start of service',
               others == {k: [1] for k in served}, where,
               'agents starting service (%d) do not get queue_action(1) exactly once' % len(served), v)
        self.resource(v, x)

    def arrival(self, v):
        x = XA
        pops = [e for e in v.evs('heappop') if key(e.args[0]) == ('attr', SELF, '_arrivals')]
        where = pops[0].loc if pops else self.default
        self.c('C05', 'the earliest arrival is taken', [key(e.res) for e in pops] == [x] and
               isinstance(v.path.value, Const) and v.path.value.v is None, where,
               'the next event is the earliest arrival, but next_event does not take exactly that agent out of the '
               'arrivals (or returns an agent)', v)
        self.c('C05', 'the clock moves to the event', v.eq(v.num('_current_t'), TA), self.at(v, '_current_t'),
               'after an arrival the clock shows %s, not the arrival time' % show(key(v.get('_current_t'))), v)
        dep = v.cont('_departures')
        taken = [e for e in v.evs('heappop') if key(e.args[0]) == ('attr', SELF, '_departures')]
        self.c('C05', 'an arrival leaves the departures alone', isinstance(dep, Heap) and dep.base == 'D' and
               dep.seq == 0 or not taken and any(e.kind == 'loop' for e in v.events), where,
               'an arrival removes something from the departures', v)
        in_d = x in [key(y) for y in v.known('_departures')]
        in_q = x in [key(y) for y in v.known('queue')]
        admitted = in_d or in_q
        absorbed = self.q == 'ResourceQueue' and self.a == 'ResourceAgent' and self.has_resource(v, x) is True
        ns = v.pnum('num_system')
        srv = v.pnum('num_servers')
        adds = [e for e in v.calls('add_loss')]
        mine = [e for e in adds if key(e.args[0]) == x]
        if absorbed:
            self.c('C29', 'an agent bringing a resource is absorbed', not admitted, where,
                   'an agent that returns its resource is kept in the queue', v)
            for n, d in (('num_departures', 0), ('num_system', 0), ('_num_total', -1), ('_num_arrivals', 0),
                         ('num_blocked', 0)):
                self.c('C01', 'returned resource: %s' % n, v.eq(v.num(n), v.pnum(n) + const(d)), self.at(v, n),
                       'an agent returning a resource changes %s' % n, v)
        else:
            if self.q in LOSS:
                cap = srv + at('buffer')
                if admitted:
                    self.c('C04', 'admitted only below capacity', self.imp(v, v.ent(ns - cap, '<')), where,
                           'an arrival is admitted although the queue may already hold num_servers + buffer agents', v)
                else:
                    self.c('C04', 'blocked only at capacity', self.imp(v, v.ent(cap - ns, '<=')), where,
                           'an arrival is turned away although the queue may hold fewer than num_servers + buffer '
                           'agents', v)
                self.c('C04', 'num_blocked counts blocked arrivals',
                       v.eq(v.num('num_blocked'), v.pnum('num_blocked') + const(0 if admitted else 1)),
                       self.at(v, 'num_blocked'), 'num_blocked changes by %s for %s arrival' % (
                           fmt(v.num('num_blocked') - v.pnum('num_blocked')), 'an admitted' if admitted else
                           'a blocked'), v)
                self.c('C04', 'add_loss exactly once for a blocked arrival',
                       len(mine) == (0 if admitted else 1) and len(adds) == len(mine), where,
                       '%d add_loss calls for %s arrival' % (len(adds), 'an admitted' if admitted else 'a blocked'),
                       v)
                for e in mine:
                    ok = len(e.args) >= 2 and v.eq(e.args[1], v.prev('edge') or Tup(
                        [Sym(('edge', 'u')), Sym(('edge', 'v')), Sym(('edge', 'i')), Sym(('edge', 't'))]))
                    self.c('C04', 'add_loss is told the edge', ok, e.loc, 'add_loss is not given the edge', v)
            else:
                self.c('C04', 'an unbounded queue admits every arrival', admitted, where,
                       'an arrival at a queue without capacity limit is not admitted', v)
            for n, d in (('num_departures', 0), ('num_system', 1 if admitted else 0),
                         ('_num_arrivals', 1 if admitted else 0)):
                self.c('C01', 'arrival: %s' % n, v.eq(v.num(n), v.pnum(n) + const(d)), self.at(v, n),
                       '%s arrival changes %s by %s instead of %d' % (
                           'an admitted' if admitted else 'a blocked', n, fmt(v.num(n) - v.pnum(n)), d), v)
            if admitted:
                # straight into service exactly if a server is idle
                if in_q:
                    self.c('C03', 'an arrival waits only if every server is busy',
                           self.imp(v, v.ent(srv - D, '<=')), where,
                           'an arrival is put in line although a server may be idle', v)
        self.outside(v, TA, v.prev('_active'), absorbed)
        self.data_arrival(v, x, in_d, in_q, absorbed)
        acts = [a for k, a in self.actions(v) if k == x]
        want = [0, 1] if in_d else ([0] if in_q else [])
        if absorbed:
            want = acts if acts == [] else want
        self.c('C36', 'queue_action(0) at arrival, (1) at the start of service', acts == want, where,
               '%s gets queue_action codes %s instead of %s' % (
                   'an agent served at once' if in_d else 'an agent put in line' if in_q else 'a blocked agent',
                   acts, want), v)
        rest = [k for k, a in self.actions(v) if k != x]
        started = [e.args[1].key for e in v.evs('heappush') if key(e.args[0]) == ('attr', SELF, '_departures')
                   and isinstance(e.args[1], Sym) and e.args[1].key != x]
        loops = any(e.kind == 'loop' for e in v.events)
        self.c('C36', 'no other agent is called', loops or sorted(map(repr, rest)) == sorted(map(repr, started)),
               where, 'an arrival calls queue_action of other agents', v)
        self.resource(v, x, absorbed)

    def actions(self, v):
        out = []
        for e in v.calls('queue_action'):
            code = e.args[2] if len(e.args) > 2 else None
            if isinstance(code, Lin) and not code.t and len(e.args) >= 2 and key(e.args[1]) == SELF:
                code = int(code.c)
            else:
                code = 'bad'
            out.append((key(e.args[0]), code))
        return out

    # -------------------------------------------------------------- outside arrivals

    def no_outside(self, v):
        calls = [e for e in v.evs('callback') if e.name == 'arrival_f']
        facs = v.evs('factory')
        self.c('C06', 'outside arrivals are generated only with arrivals', not calls and not facs,
               (calls + facs)[0].loc if calls or facs else None,
               'an outside arrival is generated by %s' % METHODS[self.m][0], v)
        for n in ('_oArrivals', '_next_ct', '_active'):
            self.c('C06', '%s unchanged' % n, self.imp(v, self.eqn(v, n)), self.at(v, n),
                   '%s changes %s' % (METHODS[self.m][0], n), v)

    def outside(self, v, T, active, absorbed=False):
        calls = [e for e in v.evs('callback') if e.name == 'arrival_f']
        facs = v.evs('factory')
        oA, cap, nct, dt = v.pnum('_oArrivals'), at('active_cap'), v.pnum('_next_ct'), at('deactive_t')
        act = v.truth(active)
        where = calls[0].loc if calls else (facs[0].loc if facs else self.default)
        r = None
        if len(calls) > 1 or len(facs) > 1:
            self.c('C06', 'one pending outside arrival', False, where,
                   'more than one outside arrival is generated at once', v)
            return
        if calls:
            r = num(calls[0].res)
            self.c('C06', 'only an active queue generates outside arrivals', self.imp(v, act is True), where,
                   'arrival_f is called although the queue may be inactive', v)
            self.c('C06', 'the next outside arrival is drawn only when the previous one is due',
                   self.imp(v, v.ent(nct - T, '<=')), where,
                   'an outside arrival is drawn although another one is still pending', v)
            one = len(calls[0].args) == 1 and not calls[0].kw
            self.c('C07', 'arrival time drawn at the current time', v.eq(calls[0].args[0], T) if one else False,
                   where, 'arrival_f is called with %s at time %s' % (
                       ', '.join(show(key(a)) for a in calls[0].args), fmt(T)), v)
            self.c('C06', 'the drawn time is the next outside arrival', v.eq(v.num('_next_ct'), r),
                   self.at(v, '_next_ct'), 'the time of the next outside arrival is not the one arrival_f returned', v)
        else:
            if not absorbed:
                ok = act is False or v.ent(T - nct, '<') or v.ent(cap - oA, '<=')
                self.c('C06', 'an active queue keeps drawing outside arrivals',
                       self.imp(v, ok), where,
                       'the outside arrival stream stops: the queue may be active with no pending outside arrival '
                       'and below its cap, but none is generated', v)
            self.c('C06', 'the next outside arrival is kept', self.imp(v, self.eqn(v, '_next_ct')),
                   self.at(v, '_next_ct'), '_next_ct changes without a draw', v)
        if facs:
            f = facs[0]
            if not calls:
                self.c('C06', 'outside arrivals come from arrival_f', False, f.loc,
                       'an outside agent is created without a time from arrival_f', v)
                return
            self.c('C06', 'no outside arrival at or after deactive_t', self.imp(v, v.ent(r - dt, '<')), f.loc,
                   'an outside agent is created although its arrival time may be at or after deactive_t', v)
            self.c('C06', 'no outside arrival beyond active_cap', self.imp(v, v.ent(oA - cap, '<')), f.loc,
                   'an outside agent is created although active_cap agents may already have been', v)
            k = key(f.res)
            here = [y for y in v.known('_arrivals') if key(y) == k]
            t = v.time_of(f.res)
            self.c('C06', 'the outside agent is scheduled at the drawn time',
                   len(here) == 1 and v.eq(t, r), f.loc,
                   'the new outside agent is not scheduled at the time arrival_f returned', v)
            self.c('C06', 'outside arrivals are counted', v.eq(v.num('_oArrivals'), oA + const(1)),
                   self.at(v, '_oArrivals'), 'the number of outside arrivals is not incremented', v)
            idv = f.args[0] if f.args else f.kw.get('agent_id')
            want = Tup([Sym(('edge', 'i')), oA])
            got = v.st.attrs.get((k, 'agent_id'))
            self.c('C06', 'outside agents get unique ids', v.eq(got, want) if got is not None else
                   (v.eq(idv, want) if idv is not None else False), f.loc,
                   'the id of a new agent is %s, not (edge index, running number)' % (
                       show(key(idv)) if idv is not None else '?'), v)
            if self.q == 'InfoQueue' and len(f.args) > 1:
                pass
        else:
            self.c('C06', 'outside arrivals are counted', self.imp(v, self.eqn(v, '_oArrivals')),
                   self.at(v, '_oArrivals'), 'the outside arrival counter changes without an outside arrival', v)
            if calls:
                self.c('C06', 'a drawn arrival before deactive_t is scheduled',
                       self.imp(v, v.ent(dt - r, '<=') or v.ent(cap - oA, '<=')), where,
                       'arrival_f returned a time before deactive_t but no agent is scheduled', v)
        # active flag afterwards
        post = v.truth(v.get('_active'))
        if absorbed and not calls:
            return
        if act is False:
            self.c('C06', 'an inactive queue stays inactive', self.imp(v, post is False), self.at(v, '_active'),
                   'an inactive queue becomes active', v)
        elif act is True:
            o1 = v.num('_oArrivals')
            if facs:
                if post is True:
                    ok = v.ent(o1 - cap, '<')
                elif post is False:
                    ok = v.ent(cap - o1, '<=')
                else:
                    ok = False
                msg = 'after the outside arrival the queue is %s although %s' % (
                    'active' if post else 'inactive', 'active_cap may be reached' if post else
                    'active_cap may not be reached')
            elif calls:
                ok = post is False
                msg = 'the queue stays active after the stopping time'
            else:
                ok = post is True or post is False and v.ent(cap - oA, '<=')
                msg = 'the queue is deactivated for no reason'
            self.c('C06', 'active exactly until active_cap or deactive_t', self.imp(v, ok), self.at(v, '_active'),
                   msg, v)

    def m_set_active(self, v):
        if self.q == 'NullQueue':
            return
        act = v.truth(v.prev('_active'))
        if act is True:
            self.no_outside(v)
        elif act is False:
            self.outside(v, v.pnum('_current_t'), TRUE)
        else:
            self.c('C06', 'set_active', None, None, 'activity not consulted', v)
        for n in ('num_system', 'num_departures', '_num_arrivals', '_current_t', 'num_servers'):
            self.c('C06', 'set_active changes only the outside arrivals', self.imp(v, self.eqn(v, n)),
                   self.at(v, n), 'set_active changes %s' % n, v)

    def m_set_inactive(self, v):
        self.c('C06', 'set_inactive stops outside arrivals', v.truth(v.get('_active')) is False, None,
               'set_inactive leaves the queue active', v)
        for n in ('num_system', '_num_total', 'num_departures', '_num_arrivals', '_current_t', 'num_servers',
                  '_oArrivals'):
            self.c('C06', 'set_inactive changes nothing else', self.imp(v, self.eqn(v, n)),
                   self.at(v, n), 'set_inactive changes %s' % n, v)

    def m_add_agent(self, v):
        if self.q == 'NullQueue':
            self.null_add(v)
            return
        k = ('arg', 'agent')
        n = [key(y) for y in v.known('_arrivals')].count(k)
        self.c('C01', 'an agent handed over is scheduled to arrive', n == 1 and not
               [y for y in v.known('_departures') + v.known('queue')], None,
               'an agent handed to _add_arrival is scheduled %d times' % n, v)
        for nm in ('num_system', 'num_departures', '_num_arrivals', '_current_t', 'num_servers', '_oArrivals',
                   '_next_ct', '_active'):
            self.c('C01', 'handing over an agent changes only the schedule', self.imp(v, self.eqn(v, nm)),
                   self.at(v, nm), '_add_arrival(agent) changes %s' % nm, v)
        self.no_outside(v)
        t = v.st.attrs.get((k, '_time'))
        self.c('C05', 'the arrival time of an agent is kept', t is None or
               v.eq(t, atom(('attr', k, '_time'))), None, '_add_arrival changes the arrival time of the agent', v)

    # -------------------------------------------------------------- delay, servers

    def m_delay(self, v):
        if self.q == 'NullQueue':
            return
        serv = [e for e in v.evs('callback') if e.name == 'service_f']
        self.delay(v)
        if v.ctx['td'] != INF:
            self.c('C07', 'delay_service adds one service time', len(serv) == 1, serv[0].loc if serv else None,
                   'delay_service draws %d service times' % len(serv), v)
            for e in serv:
                self.c('C07', 'the extra service starts at the planned departure',
                       v.eq(e.args[0], TD) if len(e.args) == 1 else False, e.loc,
                       'the extra service time is drawn from %s, not from the planned departure'
                       % show(key(e.args[0])), v)
                self.c('C07', 'the departure moves to the drawn time',
                       v.eq(v.time_of(Sym(XD)), num(e.res)), e.loc,
                       'the delayed agent does not depart at the drawn time', v)

    def m_delay_t(self, v):
        if self.q == 'NullQueue':
            return
        self.delay(v)
        serv = [e for e in v.evs('callback') if e.name == 'service_f']
        self.c('C07', 'a given delay draws no service time', not serv, None, 'service_f is called', v)
        if v.ctx['td'] != INF:
            self.c('C07', 'the departure moves to the given time', v.eq(v.time_of(Sym(XD)), atom(('arg', 't'))),
                   None, 'the delayed agent does not depart at the given time', v)

    def delay(self, v):
        for n in COUNTERS:
            if n == '_time':
                continue
            self.c('C07', 'a delay changes only a departure time', self.imp(v, self.eqn(v, n)), self.at(v, n),
                   'delay_service changes %s' % n, v)
        c = v.cont('_departures')
        if v.ctx['td'] == INF:
            return
        ks = [key(y) for y in v.known('_departures')]
        self.c('C07', 'the next departing agent is delayed', ks == [XD] and c.seq == 1, None,
               'delay_service does not reschedule exactly the agent due to depart next', v)

    def ok_n(self, v):
        """Is the argument a valid number of servers on this path?"""
        n = atom(('arg', 'n'))
        integral = v.st.bools.get(('isinst', ('arg', 'n'), ('ext', 'numbers.Integral')))
        inf = v.ent(n - INF, '==')
        if inf:
            return True
        if integral is True:
            if v.ent(n, '<='):
                return False
            if v.ent(n.scale(-1), '<'):
                return True
            return None
        if integral is False:
            return False
        return None

    def m_set_num_servers(self, v):
        if self.q == 'NullQueue':
            return
        n = Sym(('arg', 'n'))
        if self.q != 'ResourceQueue':
            ok = self.ok_n(v)
            self.c('C32', 'set_num_servers rejects exactly the invalid numbers', self.imp(v, ok is True), None,
                   'set_num_servers accepts something that may not be a positive integer or infinity', v)
        self.c('C03', 'set_num_servers sets the number of servers', v.eq(v.get('num_servers'), n),
               self.at(v, 'num_servers'), 'set_num_servers leaves num_servers at %s'
               % show(key(v.get('num_servers'))), v)
        for nm in ('num_system', '_num_total', 'num_departures', '_num_arrivals', '_oArrivals', '_current_t',
                   '_active', '_next_ct'):
            self.c('C03', 'set_num_servers changes only services', self.imp(v, self.eqn(v, nm)), self.at(v, nm),
                   'set_num_servers changes %s' % nm, v)
        d = v.count('_departures')
        if d is not None:
            nn = atom(n.key)
            ok = v.ent(d - nn, '<=') or v.ent(d - D, '<=')
            self.c('C03', 'set_num_servers starts no more services than servers', self.imp(v, ok), None,
                   'after set_num_servers(n) %s agents are in service' % fmt(d), v)
        if self.q == 'ResourceQueue':
            ok = v.num('over_max')
            mx = at('max_servers')
            o0 = at('over_max')
            over = v.ent(mx - atom(n.key), '<')
            under = v.ent(atom(n.key) - mx, '<=')
            if over or under:
                got = v.get('over_max')
                got = num(got) if got is not None else o0
                self.c('C29', 'over_max counts deposits beyond max_servers',
                       v.eq(got, o0 + const(1 if over else 0)), self.at(v, 'over_max'),
                       'over_max changes by %s' % fmt(got - o0), v)
            else:
                self.c('C29', 'over_max counts deposits beyond max_servers', self.imp(v, False), None,
                       'max_servers is not consulted', v)

    # -------------------------------------------------------------- queries

    def pure(self, v, prop):
        ok = not [e for e in v.events if e.kind in ('setattr', 'setitem', 'delitem', 'heappush', 'heappop',
                                                    'callback', 'factory', 'random')
                  or e.kind == 'mutate']
        self.c(prop, '%s has no side effect' % METHODS[self.m][0], ok, None,
               '%s changes the queue' % METHODS[self.m][0], v)

    def m_at_capacity(self, v):
        self.pure(v, 'C04')
        r = v.truth(v.path.value) if not isinstance(v.path.value, BoolV) else None
        if self.q in LOSS:
            l = at('num_servers') + at('buffer') - (D + Q)
            if isinstance(v.path.value, BoolV):
                b = v.path.value
                x, y = num(b.a) if b.a is not None else None, num(b.b) if b.b is not None else None
                ok = b.op in ('<=', '<') and x is not None and y is not None and \
                    v.it.dom.entails(list(v.st.lin) + [(x - y, b.op)], (l, '<=')) and \
                    v.it.dom.entails(list(v.st.lin) + [(y - x, '<' if b.op == '<=' else '<=')],
                                     (l.scale(-1), '<'))
                if b.op == '==' and x is not None and y is not None:
                    ok = self.imp(v, not (v.feas((l, '<='), (x - y, '<')) or v.feas((l, '<='), (y - x, '<')) or
                                          v.feas((l.scale(-1), '<'), (x - y, '=='))))
                elif b.op not in ('<=', '<'):
                    ok = None
                self.c('C04', 'at_capacity = num_system >= num_servers + buffer', ok, None,
                       'at_capacity returns %s' % show(key(b)), v)
            elif r is True:
                self.c('C04', 'at_capacity = num_system >= num_servers + buffer', self.imp(v, v.ent(l, '<=')), None,
                       'at_capacity is True although the queue may not be full', v)
            elif r is False:
                self.c('C04', 'at_capacity = num_system >= num_servers + buffer',
                       self.imp(v, v.ent(l.scale(-1), '<')), None,
                       'at_capacity is False although the queue may be full', v)
            else:
                self.c('C04', 'at_capacity = num_system >= num_servers + buffer', None, None,
                       'result not decided: %s' % show(key(v.path.value)), v)
        else:
            self.c('C04', 'a queue without capacity limit is never at capacity', r is False, None,
                   'at_capacity is not False', v)

    def m_describe(self, v):
        self.pure(v, 'C05')
        r = v.path.value
        if self.q == 'NullQueue':
            self.c('C31', 'a terminal queue has no events', isinstance(r, Lin) and r == const(0), None,
                   'next_event_description of a terminal queue is not 0', v)
            return
        ta, td = v.ctx['ta'], v.ctx['td']
        if ta == INF and td == INF:
            want = 0
        elif td != INF and (ta == INF or v.ent(td - ta, '<')):
            want = 2
        else:
            want = 1
        ok = isinstance(r, Lin) and r == const(want)
        self.c('C05', 'the description announces what next_event does', ok if ok or isinstance(r, (Lin, Const))
               and not (isinstance(r, Lin) and r.t) else None, None,
               'next_event_description returns %s where next_event performs %s' % (
                   show(key(r)), {0: 'nothing', 1: 'an arrival', 2: 'a departure'}[want]), v)

    def m_clear(self, v):
        if self.q == 'NullQueue':
            return
        for n in ('num_system', '_num_total', 'num_departures', '_num_arrivals', '_oArrivals', '_current_t',
                  '_next_ct') + (('num_blocked',) if self.q in LOSS else ()) + (
                      ('over_max',) if self.q == 'ResourceQueue' else ()):
            self.c('C09', 'clear resets %s' % n, v.eq(v.num(n), const(0)) if v.num(n) is not None else False,
                   self.at(v, n), 'after clear() %s is %s' % (n, show(key(v.get(n)))), v)
        self.c('C09', 'clear resets _time', v.eq(v.num('_time'), INF), self.at(v, '_time'),
               'after clear() the queue still publishes a next event', v)
        self.c('C09', 'clear stops outside arrivals', v.truth(v.get('_active')) is False, self.at(v, '_active'),
               'after clear() the queue is still active', v)
        for n in ('_arrivals', '_departures', 'queue'):
            c = v.count(n)
            self.c('C09', 'clear empties %s' % n, v.eq(c, const(0)) if c is not None else None, None,
                   'after clear() %s still holds agents' % n, v)
        d = v.cont('data')
        self.c('C09', 'clear drops the data', isinstance(d, DDict) and d.base is None and not d.items or
               (None if v.get('data') is not None and key(v.get('data')) != ('attr', SELF, 'data') else False),
               self.at(v, 'data'), 'after clear() collected data is still there', v)
        for n in ('service_f', 'arrival_f', 'AgentFactory', 'active_cap', 'deactive_t', 'edge', 'colors', 'buffer',
                  'collect_data', 'max_servers') + (() if self.q == 'ResourceQueue' else ('num_servers',)):
            if v.get(n) is None or v.prev(n) is None:
                continue
            self.c('C09', 'clear keeps the parameters', key(v.get(n)) == key(v.prev(n)), self.at(v, n),
                   'clear() changes the parameter %s' % n, v)
        if self.q == 'InfoQueue':
            x = v.get('net_data')
            self.c('C09', 'clear forgets the information gathered', x is not None and
                   key(x) != ('attr', SELF, 'net_data'), None, 'clear() keeps the gathered information', v)

    def m_number_queued(self, v):
        self.pure(v, 'C01')
        r = v.path.value
        want = const(0) if self.q == 'NullQueue' else Q
        self.c('C01' if self.q != 'NullQueue' else 'C31', 'number_queued = agents waiting', v.eq(r, want), None,
               'number_queued returns %s' % show(key(r)), v)

    def m__key(self, v):
        r = v.path.value
        ok = isinstance(r, Tup) and len(r.items) == 2 and v.eq(num(r.items[0]) if num(r.items[0]) is not None
                                                                else r.items[0], v.pnum('_time')) is True \
            and key(r.items[1]) == ('edge', 'i')
        self.c('C12', 'a queue is scheduled under its next event time and edge index', ok, None,
               '_key returns %s' % show(key(r)), v)

    # -------------------------------------------------------------- data

    def rows(self, v):
        """(agent key, row items, 'new'|'append', event) of every row added to data, and the other stores."""
        out, sets, bad = [], [], []
        d0 = ('attr', SELF, 'data')
        for e in v.events:
            if e.kind == 'setitem':
                b = key(e.args[0])
                if b == d0:
                    k = key(e.args[1])
                    if k[0] == 'attr' and k[2] == 'agent_id':
                        c = v.st.content.get(key(e.args[2]))
                        items = c.items if isinstance(c, LList) else None
                        if items is not None and len(items) == 0:
                            sets.append(('fresh', k[1], key(e.args[2]), e))
                            continue
                        if items is not None and len(items) == 1:
                            out.append((k[1], self.row(v, items[0]), 'new', e))
                        else:
                            bad.append(e)
                    else:
                        bad.append(e)
                elif self.in_data(v, b):
                    sets.append(('cell', self.owner(b), e))
            elif e.kind == 'mutate':
                b = key(e.args[0])
                if b == d0:
                    if e.name == 'setdefault':
                        continue
                    bad.append(e)
                elif self.in_data(v, b) or any(s[0] == 'fresh' and s[2] == b for s in sets):
                    if e.name == 'append':
                        out.append((self.owner(b) if self.in_data(v, b) else
                                    [s[1] for s in sets if s[0] == 'fresh' and s[2] == b][0],
                                    self.row(v, e.args[1]), 'append', e))
                    else:
                        bad.append(e)
            elif e.kind == 'delitem' and self.in_data(v, key(e.args[0])):
                bad.append(e)
        return out, [s for s in sets if s[0] == 'cell'], bad

    def in_data(self, v, k):
        return mentions(k, lambda x: x == ('attr', SELF, 'data'))

    def owner(self, k):
        r = []

        def f(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and x[2] == 'agent_id':
                r.append(x[1])
            elif isinstance(x, tuple):
                for y in x:
                    f(y)
        f(k)
        return r[0] if r else None

    def row(self, v, x):
        c = v.st.content.get(key(x)) if isinstance(x, Sym) else None
        if isinstance(c, LList):
            return list(c.items)
        if isinstance(x, Tup):
            return list(x.items)
        return None

    def data_departure(self, v):
        if 'C08' not in self.props:
            return
        x = XD
        collect = v.truth(v.pre.get((SELF, 'collect_data')))
        rows, sets, bad = self.rows(v)
        for e in bad:
            self.c('C08', 'collected data is only extended', False, e.loc, 'collected data is overwritten', v)
        for r in rows:
            self.c('C08', 'a departure adds no record', False, r[3].loc, 'a departure adds a record', v)
        has = v.st.bools.get(('in', ('attr', x, 'agent_id'), ('attr', SELF, 'data')))
        mine = [s for s in sets if s[1] == x]
        others = [s for s in sets if s[1] != x]
        if collect is False:
            self.c('C08', 'nothing is recorded unless data is collected', not sets and not rows, sets[0][2].loc if
                   sets else None, 'data is written although collect_data is off', v)
            return
        if collect is None:
            self.c('C08', 'collect_data decides what is recorded', self.imp(v, False), None,
                   'a departure does not consult collect_data', v)
            return
        if has is not False:
            self.c('C08', 'the departure time is recorded', has is True and len(mine) == 1 and
                   self.cell(v, mine[0], 2, v.num('_current_t')), mine[0][2].loc if mine else None,
                   'the departure time is not stored as the third entry of the last record of the agent', v)
        else:
            self.c('C08', 'agents without a record stay without', not mine, None, 'record written for unknown agent',
                   v)
        self.started_cells(v, others)

    def started_cells(self, v, cells):
        """Service starts of waiting agents."""
        started = [e for e in v.evs('heappush') if key(e.args[0]) == ('attr', SELF, '_departures') and
                   isinstance(e.args[1], Sym) and e.args[1].key[0] == 'mid']
        for e in started:
            k = e.args[1].key
            has = v.st.bools.get(('in', ('attr', k, 'agent_id'), ('attr', SELF, 'data')))
            mine = [s for s in cells if s[1] == k]
            if has is False:
                continue
            self.c('C08', 'the start of service is recorded', has is True and len(mine) == 1 and
                   self.cell(v, mine[0], 1, e.watch.get('_current_t')), e.loc,
                   'the service start of an agent from the line is not stored as the second entry of its record', v)
        ks = [e.args[1].key for e in started]
        for s in cells:
            if s[1] not in ks:
                self.c('C08', 'only the records of the agents concerned change', False, s[2].loc,
                       'the record of another agent is changed', v)

    def cell(self, v, s, i, val):
        e = s[2]
        b = key(e.args[0])
        last = b[0] == 'item' and b[-1] == ('c', -1)
        if not last:
            # another record: the first, second, ... of a list that may hold any number of them
            wrong = b[0] == 'item' and isinstance(b[-1], tuple) and len(b[-1]) == 2 and b[-1][0] == 'c'
            last = self.imp(v, False) if wrong else None
            if last is False:
                return False
        ok = isinstance(e.args[1], Lin) and e.args[1] == const(i) and v.eq(e.args[2], val)
        if ok is True and last is None:
            return None
        return ok

    def data_arrival(self, v, x, in_d, in_q, absorbed):
        if 'C08' not in self.props:
            return
        collect = v.truth(v.pre.get((SELF, 'collect_data')))
        rows, sets, bad = self.rows(v)
        for e in bad:
            self.c('C08', 'collected data is only extended', False, e.loc, 'collected data is overwritten', v)
        if collect is False:
            self.c('C08', 'nothing is recorded unless data is collected', not rows and not sets,
                   rows[0][3].loc if rows else (sets[0][2].loc if sets else None),
                   'data is written although collect_data is off', v)
            return
        if collect is None:
            self.c('C08', 'collect_data decides what is recorded', self.imp(v, False), None,
                   'an arrival does not consult collect_data', v)
            return
        mine = [r for r in rows if r[0] == x]
        self.c('C08', 'one record per arrival', len(mine) == 1 and len(rows) == 1, mine[0][3].loc if mine else None,
               '%d records are added for one arrival' % len(rows), v)
        if len(mine) != 1:
            return
        k, items, how, e = mine[0]
        has = v.st.bools.get(('in', ('attr', x, 'agent_id'), ('attr', SELF, 'data')))
        if has is not None and how == 'new':
            self.c('C08', 'earlier records of the agent are kept', has is False, e.loc,
                   'the earlier records of a returning agent are discarded', v)
        if items is None or len(items) != 5:
            self.c('C08', 'a record has five entries', False if items is not None else None, e.loc,
                   'a record does not have the five documented entries', v)
            return
        # the service start may be stored into the record afterwards
        vals = list(items)
        for s in sets:
            if s[1] == x and isinstance(s[2].args[1], Lin) and not s[2].args[1].t:
                i = int(s[2].args[1].c)
                if 0 <= i < 5:
                    vals[i] = s[2].args[2]
        ns = v.pnum('num_system')
        zero = const(0)
        if absorbed:
            want = [TA, TA, TA, Q, ns]
        elif in_d:
            want = [TA, TA, zero, Q, ns + const(1)]
        elif in_q:
            want = [TA, zero, zero, Q + const(1), ns + const(1)]
        else:
            want = [TA, zero, zero, Q, ns]
        names = ['arrival time', 'service start', 'departure', 'number queued', 'number in system']
        for i in range(5):
            if absorbed and i == 3:
                nq = v.count('queue')           # before or after the waiting agents it frees started
                if nq is not None and v.eq(num(vals[i]), nq) is True:
                    continue
            self.c('C08', 'recorded %s' % names[i], v.eq(num(vals[i]) if num(vals[i]) is not None else vals[i],
                                                         want[i]), e.loc,
                   'the recorded %s of %s arrival is %s instead of %s' % (
                       names[i], 'a blocked' if not (in_d or in_q) else 'an', show(key(vals[i])), fmt(want[i])), v)
        for s in sets:
            if s[1] != x:
                self.started_cells(v, [s])

    # -------------------------------------------------------------- resources

    def resource(self, v, x, absorbed=False):
        if self.q != 'ResourceQueue' or 'C29' not in self.props:
            return
        n0, n1 = v.pnum('num_servers'), v.num('num_servers')
        if self.a != 'ResourceAgent':
            self.c('C29', 'other agents move no resources', v.eq(n1, n0), self.at(v, 'num_servers'),
                   'an ordinary agent changes the number of servers', v)
            return
        has1 = v.st.attrs.get((x, '_has_resource'))
        dep = x == XD
        if dep:
            h1 = v.truth(has1) if has1 is not None else False
            if h1 is True:
                self.c('C29', 'a departing agent takes one resource', v.eq(n1, n0 - const(1)),
                       self.at(v, 'num_servers'),
                       'an agent leaves with a resource but the number of servers changes by %s' % fmt(n1 - n0), v)
                self.c('C29', 'a resource is taken only where there is one', self.imp(v, v.ent(n1.scale(-1), '<=')),
                       self.at(v, 'num_servers'), 'the number of servers may become negative', v)
            else:
                self.c('C29', 'no resource disappears', v.eq(n1, n0), self.at(v, 'num_servers'),
                       'the number of servers changes by %s although the departing agent takes no resource'
                       % fmt(n1 - n0), v)
                self.c('C29', 'an agent takes a resource if there is one', self.imp(v, v.ent(n0, '<=')),
                       None, 'a departing agent takes no resource although there may be one', v)
        elif not absorbed and self.has_resource(v, x) is None and not any(
                '_has_resource' in repr(b) for b in v.st.bools):
            self.c('C29', 'an agent bringing a resource is absorbed', self.imp(v, False), None,
                   'an arriving agent is never asked whether it brings a resource', v)
        elif absorbed:
            self.c('C29', 'a returned resource is added', v.eq(n1, n0 + const(1)), self.at(v, 'num_servers'),
                   'a returned resource changes the number of servers by %s' % fmt(n1 - n0), v)
        else:
            h1 = v.truth(has1) if has1 is not None else False
            same = v.eq(n1, n0)
            self.c('C29', 'an arrival without a resource moves none',
                   None if same is None or same and h1 is None else bool(same and h1 is False), self.at(v, 'num_servers'),
                   'the arrival of an agent without resource changes the number of servers by %s' % fmt(n1 - n0), v)

    # -------------------------------------------------------------- terminal queue

    def null_add(self, v):
        if 'C31' not in self.props:
            return
        x = ('arg', 'agent')
        for n in COUNTERS:
            self.c('C31', 'a terminal queue keeps no agents', self.imp(v, self.eqn(v, n)), self.at(v, n),
                   'a terminal queue changes %s on arrival' % n, v)
        put = [e for e in v.evs('heappush')] + [e for e in v.evs('mutate') if key(e.args[0]) == ('attr', SELF, 'queue')]
        self.c('C31', 'a terminal queue keeps no agents', not put, put[0].loc if put else None,
               'a terminal queue stores the arriving agent', v)
        collect = v.truth(v.pre.get((SELF, 'collect_data')))
        rows, sets, bad = self.rows(v)
        if collect is False:
            self.c('C31', 'nothing is recorded unless data is collected', not rows and not sets and not bad, None,
                   'a terminal queue records data although collect_data is off', v)
        elif collect is True:
            ok = len(rows) == 1 and rows[0][0] == x and not bad
            self.c('C31', 'an arrival at a terminal queue is recorded', ok, rows[0][3].loc if rows else None,
                   '%d records for an arrival at a terminal queue' % len(rows), v)
            if ok:
                items = rows[0][1]
                want = [atom(('attr', x, '_time'))] + [const(0)] * 4
                good = None if items is None else len(items) == 5 and all(
                    v.eq(num(a), b) is True for a, b in zip(items, want) if num(a) is not None)
                self.c('C31', 'the arrival time is recorded', good, rows[0][3].loc,
                       'the record of an arrival at a terminal queue is not [arrival time, 0, 0, 0, 0]', v)
                has = v.st.bools.get(('in', ('attr', x, 'agent_id'), ('attr', SELF, 'data')))
                if has is not None and rows[0][2] == 'new':
                    self.c('C31', 'earlier records are kept', has is False, rows[0][3].loc,
                           'earlier records of a returning agent are discarded', v)
        else:
            self.c('C31', 'collect_data decides what is recorded', self.imp(v, False), None,
                   'collect_data is not consulted', v)


RAISES = {'next_event': ('C05', 'C01', 'C06', 'C04', 'C08', 'C02', 'C03', 'C07', 'C29', 'C36'),
          'add_agent': ('C01', 'C05', 'C06', 'C31'),
          'set_active': ('C06', 'C05'), 'set_inactive': ('C06',), 'delay': ('C07', 'C05'), 'delay_t': ('C07', 'C05'),
          'set_num_servers': ('C03', 'C01'), 'at_capacity': ('C04',), 'describe': ('C05', 'C31'),
          'clear': ('C09',), 'number_queued': ('C01', 'C31'), '_key': ('C12',)}
