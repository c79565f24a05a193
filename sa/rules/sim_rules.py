"""Stopping rules of the simulate methods: the event step is a primitive, what is
decided is when it is invoked."""
from .common import *  # noqa
from .qenv import CLS, SELF
from .netenv import NETCLS

CALLS = (SELF, '#calls')


class SimCfg(Config):
    def __init__(self, cls, step, clock):
        self.cls, self.step, self.clock = cls, step, clock

    def typeof(self, it, k):
        return self.cls if k == SELF else None

    def is_int(self, a):
        if a in (('arg', 'n'), ('arg', 'nA'), ('arg', 'nD')):
            return True
        return Config.is_int(self, a)

    def init_attr(self, it, okey, name):
        if okey == SELF:
            return Sym(('attr', SELF, name))
        return None

    def loopvar(self, it, loc, v):
        if loc == ('attr', (SELF, '_time')):
            it.assume(atom(v.key) - INF, '<=')

    def call(self, it, f, args, kw, node):
        if isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key == SELF and \
                f.fn.node.name == self.step:
            st = it.st
            info = {'lin': list(st.lin), 'bools': dict(st.bools)}
            for n in (self.clock, '_time', 'num_departures', '_oArrivals'):
                info[n] = st.attrs[(SELF, n)]
            it.event('step', self.step, args, node, info=info)
            st.attrs[CALLS] = it.num(st.attrs[CALLS]) + const(1)
            for n, top in ((self.clock, None), ('num_departures', 1), ('_oArrivals', 1), ('num_events', 1),
                           ('_time', 0), ('num_system', 0), ('_num_total', 0), ('_num_arrivals', 1)):
                old = st.attrs.get((SELF, n), Sym(('attr', SELF, n)))
                new = it.fresh('after.' + n)
                st.attrs[(SELF, n)] = new
                if n == '_time':
                    it.assume(atom(new.key) - INF, '<=')
                elif top != 0:
                    it.assume(it.num(old) - atom(new.key), '<=')
                    if top:
                        it.assume(atom(new.key) - it.num(old) - const(top), '<=')
            return NONE
        if isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key == SELF and \
                f.fn.node.name.startswith('_update_'):
            return NONE
        return NotImplemented


def sim_task(prog, props, what, case):
    """what: a queue class or 'network'; case: n, t, nD, nA."""
    ob = Obligations()
    net = what == 'network'
    cls = NETCLS if net else CLS[what]
    clock = '_t' if net else '_current_t'
    cfg = SimCfg(cls, '_simulate_next_event' if net else 'next_event', clock)
    it = Interp(prog, cfg)
    A = lambda n: Sym(('arg', n))

    def setup(it):
        st = it.st
        for n in (clock, '_time', 'num_departures', '_oArrivals', 'num_events', '_initialized', '_num_arrivals'):
            st.attrs[(SELF, n)] = Sym(('attr', SELF, n))
        st.attrs[CALLS] = const(0)
        it.assume(atom(('attr', SELF, '_time')) - INF, '<=')
        for n in ('n', 't', 'nD', 'nA'):
            st.bools[('isnone', ('arg', n))] = False
        if net:
            st.attrs[(SELF, '_initialized')] = TRUE
            st.attrs[(SELF, '_time')] = Sym(('attr', SELF, '_time'))
        return {'pre': dict(st.attrs)}

    def run(it, ctx):
        m = it.getattr(Sym(SELF), 'simulate', None)
        if isinstance(m, ExtMeth):
            raise AnchorMissing('simulate')
        kw = {case: A(case)}
        return it.call(m, [], kw, None)
    it.get_class(cls)
    paths = it.explore(setup, run)
    ob.absorb(it, '%s.simulate(%s=)' % (what, case), paths)
    m = it.class_attr(it.get_class(cls), 'simulate')
    default = '%s:%s %s' % (m[0].mod.rel, m[0].node.lineno, m[0].qual)
    P = 'C10'
    counter = {'t': clock, 'nD': 'num_departures', 'nA': '_oArrivals'}.get(case)
    for p in paths:
        if p.kind == 'undecided':
            ob.check(P, 'path', None, default, p.value)
            continue
        v = PV(it, p.st, None, None, p, 'top')
        segs = segments(it, p)
        steps = [(s, e) for s in segs for e in s.events if e.kind == 'step']
        lossy = lambda s: any(foreign(a) and not sure(a) for l, _ in s.st.lin for a in l.t)
        sure = lambda a: isinstance(a, tuple) and a[0] == 'lv' and isinstance(a[2], tuple) and a[2][0] == SELF

        def lost(ls):
            return any(unsure(a) for l, _ in ls for a in l.t)

        def unsure(a):
            """lost values: loop-carried locals (fields are re-read, so any value is possible)"""
            if not isinstance(a, tuple) or not a:
                return False
            if a[0] == 'lv':
                return not (isinstance(a[2], tuple) and a[2] and a[2][0] == SELF)
            return any(unsure(x) for x in a)

        def tri(ok, ls):
            return True if ok else (None if lost(ls) else False)

        if p.kind == 'raise':
            ob.check(P, 'simulate does not fail', tri(False, p.st.lin), p.value.where or default,
                     '%s.simulate(%s=...) raises %s' % (what, case, p.value.exc), p)
            continue
        calls = num(p.st.attrs[CALLS])
        time_ = num(p.st.attrs[(SELF, '_time')])
        idle = (not net) and v.ent(INF - time_, '<=')
        if case == 'n':
            n = atom(('arg', 'n'))
            ok = v.ent(calls - n, '==') or idle or (v.ent(n, '<=') and v.ent(calls, '=='))
            ob.check(P, 'exactly n events are simulated', tri(ok, list(p.st.lin) + [(calls, '==')]), default,
                     '%s.simulate(n) simulates %s events' % (what, fmt(calls)), p)
            continue
        target = atom(('attr', SELF, counter)) + atom(('arg', case))
        cur = num(p.st.attrs[(SELF, counter)])
        ok = v.ent(target - cur, '<=') or idle
        name = {'t': 'simulation time', 'nD': 'departures', 'nA': 'arrivals'}[case]
        ob.check(P, 'simulation goes on until the requested amount is reached', tri(ok, p.st.lin), default,
                 '%s.simulate(%s=...) may stop before %s additional %s' % (what, case, case, name), p)
        for s, e in steps:
            lin = e.info['lin']
            before = num(e.info[counter])
            ok = it.dom.entails(lin, (before - target, '<'))
            ob.check(P, 'no event is simulated once the requested amount is reached', tri(ok, lin), e.loc,
                     '%s.simulate(%s=...) may simulate an event after %s additional %s' % (what, case, case, name), p)
            if not net:
                tb = num(e.info['_time'])
                ob.check(P, 'no event is simulated when nothing is scheduled',
                         tri(it.dom.entails(lin, (tb - INF, '<')), lin), e.loc,
                         '%s.simulate(%s=...) does not stop when nothing is scheduled' % (what, case), p)
    if net and case == 't':
        exhausted(prog, ob, it, paths, default)
    return ob


def exhausted(prog, ob, it, paths, default):
    """simulate(t) of a network without events: either it asks whether there are any or a step without one ends the clock."""
    from .netenv import NetCfg, explore_net, HEAP, NET
    P, R = 'C10', 'simulating an amount of time ends when nothing is scheduled'
    asked = False
    known = {('attr', SELF, '_t'), ('arg', 't'), ('INF',)}
    for p in paths:
        for s in segments(it, p):
            for e in s.events:
                if e.kind != 'step':
                    continue
                odd = [k for k, b in e.info['bools'].items() if k[:1] not in (('isnone',), ('isinst',))]
                odd += [a for l, op in e.info['lin'] for a in l.t if a not in known and not (
                    a[:1] in (('lv',), ('new',), ('ix',)) or 'after' in repr(a)
                    or a == ('attr', SELF, '_time') and (('INF',) not in l.t or op == '<='))]
                lv = [a for a in odd if not mentions(a, lambda x: x == ('truth', ('attr', SELF, '_initialized')))]
                asked = asked or bool(lv)
    cfg = NetCfg('Agent', False)
    it2, ps = explore_net(cfg, prog, '_simulate_next_event', mkargs=lambda it, ctx: ([FALSE], {}))
    for p in ps:
        if p.kind != 'return':
            continue
        v = PV(it2, p.st, None, None, p, 'top')
        pops = [e for e in p.st.events if e.kind == 'pop']
        if any(not isinstance(e.res, Const) for e in pops):
            continue
        if any(e.kind == 'qop' for e in p.st.events):
            continue
        t = num(p.st.attrs.get((NET, '_t'), Sym(('attr', NET, '_t'))))
        ends = v.ent(INF - t, '<=')
        ob.check(P, R, True if ends or asked and v.lossy() else (None if asked or v.lossy() else False), default,
                 'simulate(t=...) never ends once nothing is scheduled: a step without an event leaves the clock at %s' % fmt(t), p,
                 sample='the clock is ended')
