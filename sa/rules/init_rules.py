"""New queues and agents (C32) and what they share with others (C25)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from .qenv import CLS, INFTY
from .union_rules import unver, walk, nested
from ..core.frontend import AnchorMissing

P = 'C32'
ME = ('nq',)
N = ('arg', 'num_servers')
GIVEN = {'arrival_f': 'arrival_f', 'service_f': 'service_f', 'edge': 'edge', 'AgentFactory': 'AgentFactory',
         'collect_data': 'collect_data', 'active_cap': 'active_cap', 'deactive_t': 'deactive_t',
         'coloring_sensitivity': 'coloring_sensitivity'}
ZERO = ('num_departures', 'num_system', '_num_arrivals', '_oArrivals', '_num_total', '_current_t', '_next_ct')
EXTRA = {'LossQueue': ('num_blocked',), 'ResourceQueue': ('num_blocked', 'over_max'), 'InfoQueue': ('num_blocked',)}
DEFAULTS = {'edge': ('tup', ('c', 0), ('c', 0), ('c', 0), ('c', 1)), 'collect_data': ('c', 'bool', False),
            'active_cap': key(INF), 'deactive_t': key(INF), 'coloring_sensitivity': ('c', 2), 'num_servers': ('c', 1)}
FACTORY = {'ResourceQueue': 'ResourceAgent', 'InfoQueue': 'InfoAgent'}
LIMITS = {'active_cap', 'deactive_t'}


class InitCfg(GraphCfg):
    cls = None
    case = 'int'

    def typeof(self, it, k):
        return CLS[self.cls] if k == ME else None

    def is_int(self, a):
        return (self.case == 'int' and a == N) or GraphCfg.is_int(self, a)

    def isinst(self, it, k, n):
        if k == N:
            if self.case == 'int':
                return {'numbers.Integral': True, 'int': None, 'numbers.Number': True, 'numbers.Real': True}.get(n)
            return {'numbers.Integral': False, 'int': False}.get(n)
        return None


def explore(prog, cls, kw, case='int', pos=()):
    cfg = InitCfg()
    cfg.cls, cfg.case = cls, case
    it = Interp(prog, cfg)
    ctx = {'where': '?'}

    def pre(it):
        for n in list(kw) + ['seed']:
            if n != 'colors' or kw.get('colors') is not None:
                it.st.bools[('isnone', ('arg', n))] = False
        it.assume(const(1) - INF, '<')
        if 'num_servers' in kw and case in ('int', 'other'):
            it.assume(atom(N) - INF, '<')
        return ctx

    def run(it, _):
        m = it.class_attr(it.get_class(CLS[cls]), '__init__')
        if not m or not isinstance(m[0], Fn):
            raise AnchorMissing('%s.__init__' % cls)
        ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
        return it.call(Bound(Sym(ME), m[0]), list(pos), dict(kw), None)
    return it, it.explore(pre, run), ctx


def origin(st, k):
    """'new', 'old' (there before the call) or None."""
    from .color_rules import rooted
    k = unver(k)
    if k[:1] in (('list',), ('dict',), ('set',), ('tup',), ('dictcopy',), ('mapdict',), ('map',), ('listcopy',)):
        return 'new'
    if k[:1] == ('call',):
        return 'new'
    r = rooted(k)
    if r is None and k[:1] in (('nq',), ('arg',)):
        return 'old'
    return r


def ctor_task(prog, cls):
    ob = Obligations()
    R1, R2, R3, R4 = ('a new queue is empty and inactive', 'a new queue has the given parameters',
                      'only positive integers and infinity are numbers of servers', 'defaults are the documented ones')
    null = cls == 'NullQueue'
    full = {n: Sym(('arg', n)) for n in GIVEN}
    full['num_servers'] = Sym(N)
    full['colors'] = Sym(('arg', 'colors'))
    if cls in ('LossQueue', 'ResourceQueue', 'InfoQueue'):
        full['qbuffer'] = Sym(('arg', 'qbuffer'))
    for case in ('int', 'inf', 'other', 'default'):
        kw = dict(full)
        if case == 'inf':
            kw['num_servers'] = INF
        if case == 'default':
            kw = {}
        it, ps, ctx = explore(prog, cls, kw, case)
        where = ctx['where']
        ob.absorb(it, '%s(%s)' % (cls, {'int': 'an integer', 'inf': 'infinity', 'other': 'neither', 'default': ''}[case]), ps)
        for p in ps:
            it.st = st = p.st
            v = PV(it, st, None, None, p, 'top')
            n = atom(N)
            if p.kind == 'raise':
                exc = p.value.exc if hasattr(p.value, 'exc') else (p.value[0] if isinstance(p.value, tuple) else None)
                if exc not in ('TypeError', 'ValueError'):
                    continue        # a given dict of colors may be anything
                if case in ('inf', 'default'):
                    ok = False if all(b[0] == 'isnone' for b in st.bools) else None
                elif case == 'int':
                    ok = True if v.ent(n, '<=') and exc == 'ValueError' else (False if v.feas((const(1) - n, '<=')) else None)
                else:
                    ok = exc == 'TypeError'
                ob.check(P, R3, ok, where, '%s with a valid number of servers' % exc if case != 'other' else exc, p, 'rejected')
                continue
            if p.kind != 'return':
                ob.check(P, R3, None, where, '%s' % (p.value,), p)
                continue
            if case == 'other':
                ob.check(P, R3, False, where, 'accepts a number of servers that is neither an integer nor infinity', p)
                continue
            if case == 'int':
                ok = v.ent(const(1) - n, '<=')
                if not ok:
                    ok = False if v.feas((n, '<=')) else None
                ob.check(P, R3, ok, where, 'accepts a number of servers that is not positive', p, 'positive')
            at = {nm: val for (o, nm), val in st.attrs.items() if o == ME}

            def term(nm):
                return unver(it.deep(at[nm])) if nm in at else None
            # the empty state
            for nm in ZERO + EXTRA.get(cls, ()):
                k = term(nm)
                ob.check(P, R1, k == ('c', 0) if k is not None and not soft(k) else (None if k is not None else False), where,
                         '%s is %s' % (nm, show(k) if k is not None else 'not set'), p, '%s = 0' % nm)
            k = term('_time')
            ob.check(P, R1, k == key(INF) if k is not None and not soft(k) else (None if k is not None else False), where,
                     'the next event is at %s' % (show(k) if k else 'no time'), p, '_time')
            k = term('_active')
            ob.check(P, R1, k == ('c', 'bool', False) if k is not None and not soft(k) else (None if k is not None else False), where,
                     '_active is %s' % (show(k) if k else 'not set'), p, 'inactive')
            for nm in ('data', 'queue', '_arrivals', '_departures'):
                k = at.get(nm)
                c = st.content.get(key(k)) if k is not None else None
                items = getattr(c, 'items', None)
                if k is None:
                    ok = False
                elif c is None:
                    ok = None
                elif nm in ('data', 'queue'):
                    ok = not items and getattr(c, 'base', None) is None and not getattr(c, 'segs', None)
                    if items is None and not hasattr(c, 'segs'):
                        ok = True if nm == 'queue' and type(c).__name__ == 'Deq' and key(k)[:1] == ('new',) else None
                else:
                    ok = None
                    if items is not None:
                        cs = [key(x) for x in items]
                        ok = len(cs) == 1 and cs[0][:2] == ('new', 'InftyAgent')
                ob.check(P, R1, ok, where, '%s is not empty' % nm, p, nm)
            # the parameters
            if case == 'default':
                for nm, want in DEFAULTS.items():
                    if null and nm in ('edge', 'num_servers') or nm == 'num_servers' and cls == 'ResourceQueue':
                        continue
                    k = term(nm)
                    ob.check(P, R4, k == want if k is not None and not soft(k) else (None if k is not None else False), where,
                             '%s is %s by default' % (nm, show(k) if k is not None else 'not set'), p, nm)
                k = term('AgentFactory')
                want = FACTORY.get(cls, 'Agent')
                ob.check(P, R4, k == ('cls', want) if k and k[:1] == ('cls',) else None, where, 'agents are %s by default' % (
                    show(k) if k else None), p, want)
                for nm, mean in (('arrival_f', 1), ('service_f', '0.9')):
                    drawn(ob, it, p, at.get(nm), nm, mean, R4, where)
                if cls == 'LossQueue':
                    ob.check(P, R4, term('buffer') == ('c', 0), where, 'the buffer is %s' % show(term('buffer') or ()), p, 'buffer')
                continue
            for nm, a in list(GIVEN.items()) + [('num_servers', 'num_servers')] + (
                    [('buffer', 'qbuffer')] if 'qbuffer' in kw else []):
                if null and nm == 'num_servers':
                    continue
                want = key(kw[a])
                k = term(nm)
                ok = k == want if k is not None else False
                if not ok and k is not None and (soft(k) or want in walk(k)):
                    ok = None if want in walk(k) and soft(k) else (False if not soft(k) else None)
                ob.check(P, R2, ok, where, '%s is %s' % (nm, show(k) if k is not None else 'not set'), p, nm)
            k = term('colors')
            src = ('arg', 'colors')
            ob.check(P, R2, True if k is not None and src in walk(origin_of(it, st, at.get('colors'))) else None, where,
                     'colors are %s' % (show(k) if k else None), p, 'colors')
    return ob


def origin_of(it, st, v):
    if v is None:
        return ()
    k = unver(it.deep(v))
    o = st.origin.get(key(v)) or st.origin.get(k) or st.origin.get(unver(key(v)))
    return (k, o or ())


def soft(k):
    return any(x[:1] in (('call',), ('mcall',), ('fresh',), ('mres',), ('lv',), ('res',), ('bin',)) for x in walk(k))


def drawn(ob, it, p, f, nm, mean, rule, where):
    """A default time function adds an exponential draw of the documented mean."""
    if not isinstance(f, Fn):
        ob.check(P, rule, None if f is not None else False, where, '%s is %s by default' % (nm, f and show(key(f))), p)
        return
    t = ('arg', 't')
    st0 = it.st
    it.st = p.st
    n0 = len(p.st.events)
    try:
        r = it.call(f, [Sym(t)], {}, None)
        d = it.num(r) - atom(t)
    except Exception:      # noqa  (more than one path)
        ob.check(P, rule, None, where, nm, p)
        return
    finally:
        it.st = st0
    draws = [e for e in p.st.events[n0:] if e.kind == 'random']
    at = list(d.t.items())
    ok = len(at) == 1 and at[0][1] == 1 and d.c == 0 and at[0][0][:1] == ('rnd',)
    ob.check(P, rule, ok, where, '%s(t) is t + %s' % (nm, fmt(d)), p, 't plus a draw')
    if ok and len(draws) == 1:
        e = draws[0]
        a = list(e.args) + [x for x in (e.kw or {}).values()]
        good = str(e.name).endswith('exponential') and len(a) == 1
        got = it.num(a[0]) if a else const(1)
        ok = str(e.name).endswith('exponential') and not got.t and abs(float(got.c) - float(mean)) < 1e-9
        ob.check(P, rule, ok if len(a) <= 1 else None, where, '%s draws from %s(%s)' % (nm, e.name, ', '.join(
            show(key(x)) for x in a)), p, 'exponential(%s)' % mean)


def agent_task(prog, cls):
    """A new agent carries its id, was never blocked and holds nothing."""
    ob = Obligations()
    rule = 'a new agent starts afresh'
    for given in (True, False):
        cfg = InitCfg()
        it = Interp(prog, cfg)
        me = ('na',)
        cfg.typeof = lambda it, k: CLS[cls] if k == me else None
        ctx = {}

        def run(it, _):
            m = it.class_attr(it.get_class(CLS[cls]), '__init__')
            if not m or not isinstance(m[0], Fn):
                raise AnchorMissing('%s.__init__' % cls)
            ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
            return it.call(Bound(Sym(me), m[0]), [Sym(('arg', 'agent_id'))] if given else [], {}, None)
        ps = it.explore(lambda it: None, run)
        ob.absorb(it, '%s(%s)' % (cls, 'agent_id' if given else ''), ps)
        for p in ps:
            it.st = st = p.st
            if p.kind != 'return':
                ob.check(P, rule, None if p.kind != 'raise' or st.bools or st.lin else False, ctx['where'],
                         'a new agent raises %s' % (p.value,), p)
                continue
            at = {nm: unver(it.deep(val)) for (o, nm), val in st.attrs.items() if o == me}
            want = {'agent_id': ('arg', 'agent_id') if given else ('tup', ('c', 0), ('c', 0)), 'blocked': ('c', 0),
                    '_time': ('c', 0)}
            if cls == 'ResourceAgent':
                want.update(_has_resource=('c', 'bool', False), _had_resource=('c', 'bool', False))
            for nm, w in want.items():
                k = at.get(nm)
                ok = k == w if k is not None else False
                if not ok and k is not None and soft(k):
                    ok = None
                ob.check(P, rule, ok, ctx['where'], '%s of a new agent is %s' % (nm, show(k) if k is not None else 'not set'),
                         p, nm)
    return ob


def loss_task(prog, cls):
    """A blocked agent counts one block more, whatever the edge."""
    P, rule = 'C04', 'a blocked agent counts the block'
    ob = Obligations()
    cfg = InitCfg()
    it = Interp(prog, cfg)
    me = ('na',)
    cfg.typeof = lambda it, k: CLS[cls] if k == me else None
    ctx = {}

    def run(it, _):
        m = it.class_attr(it.get_class(CLS[cls]), 'add_loss')
        if not m or not isinstance(m[0], Fn):
            raise AnchorMissing('%s.add_loss' % cls)
        ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
        return it.call(Bound(Sym(me), m[0]), [Sym(('arg', 'edge'))], {}, None)
    ps = it.explore(lambda it: None, run)
    ob.absorb(it, '%s.add_loss' % cls, ps)
    b0 = ('attr', me, 'blocked')
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, rule, None, ctx['where'], 'add_loss: %s' % (p.value,), p)
            continue
        v = PV(it, p.st, None, None, p, 'top')
        x = p.st.attrs.get((me, 'blocked'))
        n = num(x) if x is not None else atom(b0)
        d = None if n is None else n - atom(b0)
        ok = d is not None and v.ent(d - const(1), '<=') and v.ent(const(1) - d, '<=')
        if not ok and (d is None or set(d.t) - {b0} or v.lossy()):
            ok = None
        ob.check(P, rule, ok, ctx['where'], 'blocked of %s changes by %s when it is blocked' % (
            'an ' + cls, fmt(d) if d is not None else '?'), p, 'blocked + 1')
    return ob
