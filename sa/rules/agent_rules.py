"""Rules about how agents choose where to go next."""
from .common import *  # noqa
from .netenv import *  # noqa
from .qenv import CLS

AG = ('agent',)
U01 = {'numpy.random.uniform', 'numpy.random.random', 'numpy.random.rand', 'numpy.random.random_sample',
       'numpy.random.ranf', 'numpy.random.sample', 'random.random'}


class RouteCfg(NetCfg):
    def typeof(self, it, k):
        if k == AG:
            return CLS[self.acls]
        return NetCfg.typeof(self, it, k)

    def is_int(self, a):
        if isinstance(a, tuple) and a and a[0] in ('e', 'choice', 'argmin'):
            return True
        return NetCfg.is_int(self, a)

    def call(self, it, f, args, kw, node):
        if isinstance(f, Fn) and f.node.name in ('_choice', '_argmin') and f.mod.is_cy:
            names = [a.arg for a in f.node.args.args]
            vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
            if f.node.name == '_choice':
                n = it.st.counters.get('choice', 0)
                it.st.counters['choice'] = n + 1
                r = Sym(('choice', n))
                it.assume(atom(r.key).scale(-1), '<=')
                m = it.num(vals[2]) if len(vals) > 2 else None
                if m is not None:
                    it.assume(atom(r.key) - m + const(1), '<=')
            else:
                r = Sym(('argmin', it.deep(vals[0])))
                it.assume(atom(r.key).scale(-1), '<=')
                it.assume(atom(r.key) - it.length(vals[0]) + const(1), '<=')
            it.event('pick', f.node.name, vals, node, r)
            return r
        return NetCfg.call(self, it, f, args, kw, node)


def evl(k, Q, env):
    """Value of a term about the queue Q when q agents wait, d are in service, ns servers there and
    `extra` more agents on their way; None if the term is about anything else."""
    if isinstance(k, Lin):
        k = key(k)
    q, d, ns, extra = env
    if k[:1] == ('c',):
        return k[1] if len(k) == 2 else (k[2] if k[1] in ('bool', 'int') else None)
    if k[:1] == ('lin',):
        r = k[2]
        for a, c in k[1]:
            x = evl(a, Q, env)
            if x is None:
                return None
            r += c * x
        return r
    if k[:3] == ('obs', 'number_queued', Q):
        return q
    if k[:1] == ('len',):
        return {('attr', Q, 'queue'): q, ('attr', Q, '_departures'): d + 1}.get(k[1])
    if k[:2] == ('attr', Q):
        return {'num_system': q + d, 'num_servers': ns, '_num_total': q + d + extra}.get(k[2])
    if k[:2] == ('nt', Q):
        return q + d + extra
    return None


GRID = [(q, d, ns, x) for q in (0, 1, 2, 3, 5, 150) for d in (0, 1, 2, 4, 200) for ns in (1, 2, 3) for x in (0, 1)
        if q == 0 or d >= ns]


def aligned(src, OE):
    """Is it the list of out edges, or a list with one entry per out edge, in order?"""
    return src == OE or src[:1] == ('map',) and len(src) == 5 and src[3:] == ((), ()) and aligned(src[1], OE)


FACTS = ('INF', 'qt', 'clock')      # times of queues: not related to how many agents wait


def shortest(alts, Q):
    """Do the alternatives (term, conditions, decisions) always give the number of agents waiting at Q?"""
    unknown = False
    for k, lins, bools in alts:
        for env in GRID:
            hold = True
            for l, op in lins:
                if all(a[0] in FACTS for a in l.t):
                    continue
                x = evl(l, Q, env)
                if x is None:
                    unknown, hold = True, None
                    break
                if not {'<=': x <= 0, '<': x < 0, '==': x == 0}[op]:
                    hold = False
                    break
            if hold is None:
                break
            if not hold:
                continue
            x = evl(k, Q, env)
            if x is None or bools:
                if k[:3] == ('obs', 'number_queued', Q):
                    continue
                unknown = True
                break
            if x != env[0]:
                return False
    return None if unknown else True


def shortest_loop(it, p, lst, OE):
    """The list was filled by a loop over the out edges with several ways through its body."""
    for e in p.st.events:
        if e.kind != 'loop' or not e.info or not e.info.get('complete') or not aligned(it.deep(e.info['iterv']), OE):
            continue
        Q = ('Q', ('elem', OE, e.info['ix']))
        alts = []
        for sig, st, start, newlin, newbools in e.info['paths']:
            c = st.content.get(lst)
            if not isinstance(c, (UList, LList)):
                break
            xs = c.suffix if isinstance(c, UList) else c.items
            c0 = start.content.get(lst)
            n0 = len(c0.suffix if isinstance(c0, UList) else c0.items) if isinstance(c0, (UList, LList)) else None
            if n0 is None or len(xs) != n0 + 1:
                break
            alts.append((key(xs[-1]), list(newlin), dict(newbools) if not isinstance(newbools, (int, bool)) else {}))
        if alts and len(alts) == len(e.info['paths']):
            return shortest(alts, Q)
    return None


def route_task(prog, acls):
    ob = Obligations()
    cfg = RouteCfg(acls)
    it = Interp(prog, cfg)
    edge = Tup([Sym(('e', i)) for i in range(4)])

    def setup(it):
        st = it.st
        for n in ('_route_probs', 'out_edges', 'in_edges', 'edge2queue', 'num_agents', '_fancy_heap', 'g'):
            st.attrs[(NET, n)] = nattr(n)
        return {}

    def run(it, ctx):
        m = it.getattr(Sym(AG), 'desired_destination', None)
        if isinstance(m, ExtMeth):
            raise AnchorMissing('%s.desired_destination' % acls)
        return it.call(m, [Sym(NET), edge], {}, None)
    m = it.class_attr(it.get_class(CLS[acls]), 'desired_destination')
    if m is None:
        raise AnchorMissing('%s.desired_destination' % acls)
    it2 = it
    paths = it2.explore(setup, run)
    ob.absorb(it, '%s.desired_destination' % acls, paths)
    default = '%s:%s %s' % (m[0].mod.rel, m[0].node.lineno, m[0].qual)
    P = 'C15'
    OE = ('item', ('attr', NET, 'out_edges'), ('e', 1))
    PR = ('item', ('attr', NET, '_route_probs'), ('e', 1))
    N = atom(('len', OE))
    for p in paths:
        if p.kind == 'undecided':
            ob.check(P, 'path', None, default, p.value)
            continue
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            # without any out edge there is nowhere to go
            ok = v.ent(N, '<=')
            ob.check(P, 'choosing a destination does not fail', True if ok else (None if v.lossy() else False),
                     p.value.where or default, 'choosing a destination raises %s' % p.value.exc, p)
            continue
        r = key(p.value)
        writes = [e for s in segments(it, p) for e in s.events if e.kind in (
            'setattr', 'setitem', 'mutate', 'delitem', 'setclsattr', 'setglobal', 'push', 'pop') and not (
            e.kind in ('mutate', 'setitem') and key(e.args[0])[:1] == ('new',)) or e.kind == 'qop']
        ob.check(P, 'choosing a destination changes nothing', not writes, writes[0].loc if writes else default,
                 'choosing a destination changes %s' % (writes[0].name if writes else ''), p)
        picks = [e for e in p.st.events if e.kind == 'pick']
        draws = [e for s in segments(it, p) for e in s.events if e.kind == 'random']
        where = picks[-1].loc if picks else default
        base = r[1] if r[:1] == ('item',) and len(r) == 3 else None
        ok = base == OE
        lost = mentions(r, lambda k: isinstance(k, tuple) and k[:1] in (('lv',), ('bin',), ('mcall',), ('call',)))
        if acls == 'GreedyAgent' and r[:2] == ('call', 'builtins.min'):
            want = ('kw', 'key', ('obs', 'number_queued', ('Q', ('elem', OE, ('bound',))), 0))
            ob.check(P, 'the destination is the first shortest line among the out edges', r[2] == OE and
                     r[3:] == (want,), where, 'a GreedyAgent goes to %s' % show(r), p)
            continue
        ob.check(P, 'the destination is an out edge of the vertex the agent is at', ok if ok or not lost or base is not None
                 and base[:1] == ('item',) else None, where,
                 'the destination %s is not an out edge of the target of the edge' % show(r), p)
        if not ok:
            continue
        idx = r[2]
        if acls == 'GreedyAgent':
            if idx[:1] != ('argmin',):
                ok = v.ent(N - const(1), '<=') and idx == ('c', Fraction(0))
                ob.check(P, 'the destination is the first shortest line among the out edges',
                         True if ok else (None if lost and not mentions(idx, lambda k: k[:1] == ('argmin',)) else False),
                         where, 'a GreedyAgent takes out edge %s' % show(idx), p)
                continue
            c = it.content(picks[-1].args[0])
            st = p.st.content.get(key(picks[-1].args[0])) if c is None else c
            ok = None
            if isinstance(st, MapSeq):
                full = not st.guard and not st.lin and not st.pre
                ok = full and aligned(st.src, OE)
                if not full:
                    ok = False
                elif ok:
                    ok = shortest([(key(st.elem), [], {})], ('Q', ('elem', OE, st.idx)))
            elif isinstance(st, UList) and len(st.suffix) == 0:
                ok = shortest_loop(it, p, key(picks[-1].args[0]), OE)
            elif isinstance(st, LList) and len(st.items) == 0:
                ok = v.ent(N, '<=')
            ob.check(P, 'the destination is the first shortest line among the out edges', ok, where,
                     'a GreedyAgent minimises something else than the number queued at each out edge', p)
            continue
        # Jackson routing
        if idx[:1] != ('choice',):
            only = v.ent(N - const(1), '<=')
            ok = True if only and idx == ('c', Fraction(0)) else False
            if ok is False and mentions(idx, lambda k: isinstance(k, tuple) and k[:1] in (('call',), ('mcall',), ('rnd',),
                                                                                  ('lv',))):
                ok = None
            ob.check(P, 'the destination is drawn from the transition probabilities', ok, where,
                     'out edge %s is taken without a draw although there may be several' % show(idx), p)
            ob.check(P, 'no draw without a choice', not draws or None, draws[0].loc if draws else default, 'a draw')
            continue
        e = [x for x in picks if key(x.res) == idx][0]
        a = e.args
        ok = len(a) == 3 and key(a[0]) == PR
        ob.check(P, 'the probabilities are those of the vertex the agent is at', ok, e.loc,
                 'the draw uses %s' % (show(key(a[0])) if a else '?'), p)
        ok = len(a) == 3 and key(a[1])[:1] == ('rnd',) and len(draws) == 1 and draws[0].name in U01
        if ok:
            d = draws[0]
            lo = d.args[0] if d.args else d.kw.get('low', const(0))
            hi = d.args[1] if len(d.args) > 1 else d.kw.get('high', const(1))
            if d.name.endswith('uniform'):
                ok = lo == const(0) and hi == const(1) and 'size' not in d.kw
            else:
                ok = not d.args and not d.kw
        ob.check(P, 'one uniform draw decides', ok, e.loc, 'the destination is decided by %s' % (
            show(key(a[1])) if len(a) > 1 else '?'), p)
        ob.check(P, 'every out edge can be drawn', v.eq(a[2] if len(a) > 2 else None, N), e.loc,
                 'the draw is among %s out edges' % (show(key(a[2])) if len(a) > 2 else '?'), p)
    return ob
