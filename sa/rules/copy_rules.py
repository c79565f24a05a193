"""copy(): the copy has the whole state and shares none of it (C19)."""
import ast
from .common import *  # noqa
from .graphenv import *  # noqa
from .life_rules import LifeCfg, sizes, finite
from .qenv import CLS

IMMUTABLE = {'nV', 'nE', 'max_agents', 'num_events', '_t', '_initialized', '_blocking', '_prev_edge'}
# attributes that operations of the network change in place
STATE = {'g', 'num_agents', 'edge2queue', '_route_probs', '_fancy_heap'}
COPIED = ('elem', ('attr', NET, 'edge2queue'))


class CopyCfg(LifeCfg):
    case = 'none'

    def typeof(self, it, k):
        if isinstance(k, tuple) and k[:1] == ('elem',) and len(k) == 3 and self.is_copy(it, k[1]) == E2Q:
            return CLS['QueueServer']
        return LifeCfg.typeof(self, it, k)

    def is_copy(self, it, k):
        o = it.st.origin.get(k)
        if isinstance(o, tuple) and o[:1] == ('deepcopy',):
            return o[1]
        if isinstance(k, tuple) and k[:1] == ('deepcopy',):
            return k[1]
        return None


def attributes(it, cls):
    """Instance attributes that some method of the class reads."""
    names, stored = set(), set()
    for c in it.mro(cls):
        node = getattr(c, 'node', None)
        if node is None:
            continue
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                (names if isinstance(n.ctx, ast.Load) else stored).add(n.attr)
    return sorted(a for a in names if it.class_attr(cls, a) is None)


def net_task(prog, init):
    P = 'C19'
    ob = Obligations()
    cfg = CopyCfg()

    def setup(it, ctx):
        sizes(it, ctx)
        it.st.attrs[(NET, '_initialized')] = TRUE if init else FALSE
    it, paths = explore_net(cfg, prog, 'copy', setup)
    ob.absorb(it, 'QueueNetwork.copy', paths)
    cls = it.get_class(NETCLS)
    m = it.class_attr(cls, 'copy')
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    names = attributes(it, cls)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        it.st = p.st
        if p.kind != 'return' or not isinstance(p.value, Sym):
            ob.check(P, 'a copy is returned', None if p.kind == 'undecided' or v.lossy() else False, where,
                     'copy gives %s' % (p.value,), p)
            continue
        bad = [e for e in p.st.events if e.kind in ('setattr', 'setitem', 'mutate', 'qop', 'gset', 'push', 'pop')
               and own(key(e.args[0]))]
        ob.check(P, 'copying changes nothing', not bad, bad[0].loc if bad else where,
                 'copy changes %s' % (show(key(bad[0].args[0])) if bad else ''), p, 'no effect on the original')
        net = p.value.key
        if net == NET:
            ob.check(P, 'a copy is returned', False, where, 'copy returns the network itself', p)
            continue
        if cfg.is_copy(it, net) == NET or net not in p.st.cls:
            ob.check(P, 'the copy has every part of the state', None, where, 'copied as a whole', p)
            continue
        c = p.st.cls[net]
        ob.check(P, 'a copy is returned', getattr(c, 'qual', None) == cls.qual or None, where, 'copy is a %s' % c.qual, p,
                 'a network of the same class')
        hk = hooked(it, CLS['QueueServer'])
        for a in names:
            r, msg = part(cfg, it, p, v, net, a, init)
            if hk and r is True and a in ('g', 'edge2queue'):
                r, msg = None, '%s decides what is copied' % hk
            ob.check(P, 'the copy has every part of the state and shares none of it', r,
                     loc_in(p.st.events, net, a) or where, msg, p, 'network: %s' % a)
    return ob


def own(k):
    return k == NET or isinstance(k, tuple) and k[:1] == ('attr',) and len(k) == 3 and own(k[1]) or \
        isinstance(k, tuple) and k[:1] in (('Q',), ('item',), ('elem',)) and (k[0] == 'Q' or own(k[1]))


def loc_in(events, o, name):
    for e in reversed(events):
        if e.kind == 'setattr' and e.name == name and key(e.args[0]) == o:
            return e.loc
    return None


HOOKS = ('__deepcopy__', '__copy__', '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__getnewargs__')


def hooked(it, q):
    """Does a class whose instances are copied redefine how that is done?"""
    for n in [GCLS, q] + [c for c in CLS.values()]:
        c = it.get_class(n)
        for h in HOOKS:
            m = it.class_attr(c, h)
            if m and not isinstance(m[0], Ext):
                return '%s.%s' % (c.qual, h)
    return None


def part(cfg, it, p, v, net, a, init):
    x = p.st.attrs.get((net, a))
    if x is None:
        return (None if v.lossy() else False), 'the copy has no %s' % a
    mine = p.st.attrs.get((NET, a), nattr(a))
    src = ('attr', NET, a)
    if a == '_fancy_heap':
        if not init:
            return (False if key(x) == src else True), 'the copy shares the schedule'
        return heap(cfg, it, p, v, x, net)
    k = key(x)
    d = cfg.is_copy(it, k)
    if d is not None:
        if d in (src, key(mine)):
            return True, 'copied'
        return (None if foreign(d) else False), '%s of the copy is %s' % (a, show(d))
    if a in IMMUTABLE:
        r = v.eq(x, mine)
        if r is None and a == '_initialized':
            r = v.truth(x) is init
        if r is None and not foreign(k):
            r = False
        if r is False and isinstance(x, Sym) and x.key[:1] in (('call',), ('new',)):
            r = None
        return r, '%s of the copy is %s' % (a, show(k))
    if k == src or k == key(mine):
        return (False if a in STATE else None), 'the copy shares %s' % a
    o = p.st.origin.get(k)
    dk = it.deep(x)
    for t in (o, dk):
        if isinstance(t, tuple) and a == 'num_agents' and (
                t[:1] == ('call',) and t[1] in ('numpy.array', 'numpy.copy') and t[2] == src or
                t[:1] == ('mcall',) and t[1] == src and t[2] in ('copy', '__copy__')):
            return True, 'copied'
        if isinstance(t, tuple) and a in ('edge2queue', '_route_probs', 'g') and (
                t in (src, ('shallowcopy', src), ('call', 'copy.copy', src), ('call', 'builtins.list', src),
                      ('slice', src, key(NONE), key(NONE), key(NONE)))):
            return False, 'the copy shares the elements of %s' % a
        if isinstance(t, tuple) and t[:1] == ('map',) and len(t) == 5 and t[1] == src and not t[3] and not t[4]:
            b = ('bound',)
            if isinstance(t[2], tuple) and t[2][:1] == ('deepcopy',) or cfg.is_copy(it, t[2]):
                return None, 'copied element by element'
            if a in STATE and t[2] in (('Q', b), ('rp', b), ('elem', src, b), ('item', src, b)):
                return False, 'the copy shares the elements of %s' % a
            return None, '%s of the copy is %s' % (a, show(dk))
    if dk == ('list',) and any(e.kind == 'loop0' and e.info and e.info.get('iter') == src for e in p.st.events):
        return True, 'nothing to copy'
    if not mentions(dk, lambda z: z == src) and not foreign(dk) and (o is None or not mentions(o, lambda z: z == src)):
        return (False if isinstance(x, (Const, Lin)) or dk[:1] in (('list',), ('dict',)) or
                dk[:2] in (('call', 'numpy.zeros'), ('call', 'numpy.ones'), ('call', 'numpy.empty')) else None), \
            '%s of the copy is %s' % (a, show(dk))
    return None, '%s of the copy is %s' % (a, show(dk))


def heap(cfg, it, p, v, x, net):
    if key(x) == HEAP:
        return False, 'the copy shares the schedule'
    if cfg.is_copy(it, key(x)) == HEAP:
        return None, 'the schedule is copied'
    mk = [e for e in p.st.events if e.kind == 'heapnew' and e.res is not None and key(e.res) == key(x)]
    if not mk:
        return None, 'the schedule is %s' % show(key(x))
    e = mk[-1]
    if any(o.kind == 'heapop' and key(o.args[0]) == key(x) for s in segments(it, p) for o in s.events):
        return None, 'the schedule is filled one by one'
    args, kw = list(e.args), dict(e.kw or {})
    keys = args[0] if args else kw.get('keys')
    if keys is None:
        return False, 'nothing is scheduled in the copy'
    k = e.deep[0] if args else it.deep(keys)
    if k == ('list',):
        # nothing is due
        for y in p.st.events:
            if y.kind in ('loop0', 'loop') and y.info and walks(cfg, it, y.info.get('iter')):
                return True, 'nothing is due'
        return False, 'nothing is scheduled in the copy'
    while isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ('builtins.list', 'builtins.sorted') and len(k) == 3:
        k = k[2]
    if not (isinstance(k, tuple) and k[:1] == ('map',) and len(k) == 5):
        return None, 'scheduled from %s' % show(k)
    if not walks(cfg, it, k[1]):
        return None, 'scheduled from %s' % show(k[1])
    el = k[2]
    if not (isinstance(el, tuple) and el[:1] == ('tup',) and len(el) == 3):
        return None, 'scheduled as %s' % show(el)
    b = ('bound',)

    def time(t):
        return t == ('qt', ('Q', b), 0) or isinstance(t, tuple) and t[:1] == ('attr',) and t[2] == '_time' and \
            isinstance(t[1], tuple) and t[1][:1] == ('elem',) and walks(cfg, it, t[1][1]) and t[1][2] == b
    if not time(el[1]):
        return (None if foreign(el[1]) else False), 'queues of the copy are scheduled at %s' % show(el[1])
    idx = el[2]
    if not (idx == b or isinstance(idx, tuple) and idx[:1] in (('item',), ('elem',)) and idx[2] in (
            ('c', 2), key(const(2))) and isinstance(idx[1], tuple) and idx[1][:1] == ('attr',) and idx[1][2] == 'edge'):
        return (None if foreign(idx) or idx[:1] not in (('item',), ('c',)) else False), \
            'queues of the copy are scheduled under %s' % show(idx)
    return True, ''


def walks(cfg, it, k):
    return k == E2Q or cfg.is_copy(it, k) == E2Q


def queue_copy_task(prog, q):
    P = 'C19'
    ob = Obligations()
    from .qenv import SELF
    cfg = Config()
    cfg.typeof = lambda it, k: CLS[q] if k == SELF else None
    cfg.init_attr = lambda it, o, n: Sym(('attr', SELF, n)) if o == SELF else None
    it = Interp(prog, cfg)
    cls = it.get_class(CLS[q])

    def run(it, ctx):
        m = it.getattr(Sym(SELF), 'copy', None)
        if isinstance(m, ExtMeth):
            raise AnchorMissing('copy')
        return it.call(m, [], {}, None)
    paths = it.explore(lambda it: {}, run)
    ob.absorb(it, '%s.copy' % q, paths)
    m = it.class_attr(cls, 'copy')
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        it.st = p.st
        if p.kind != 'return' or not isinstance(p.value, Sym):
            ob.check(P, 'a copy is returned', None if p.kind == 'undecided' else False, where, '%s' % (p.value,), p)
            continue
        o = p.st.origin.get(p.value.key)
        if o is None:
            o = it.deep(p.value)
        if o == ('deepcopy', SELF):
            r = True
        elif p.value.key == SELF or o in (('shallowcopy', SELF), ('call', 'copy.copy', SELF)):
            r = False
        else:
            r = None
        if r and hooked(it, CLS[q]):
            r = None
        ob.check(P, 'a copy of a queue is a deep copy', r, where, '%s.copy returns %s' % (q, show(o)), p)
        bad = [e for e in p.st.events if e.kind in ('setattr', 'setitem', 'mutate')]
        ob.check(P, 'copying changes nothing', not bad, where, 'copy changes the queue', p)
    return ob
