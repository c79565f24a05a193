"""initialize and clear: which queues become active, what is scheduled, what is reset (C17)."""
import ast
from .common import *  # noqa
from .graphenv import *  # noqa
from .select_rules import SelCfg, case_args, all_effects, queue_index, judge, is_all, WORDS, AQ, AE

PQ = 'queueing_tool.network.priority_queue.PriorityQueue'
NACT = ('arg', 'nActive')
INITCASES = ('random', 'fraction', 'small', 'qint', 'qlist', 'edge', 'edges', 'tint', 'titer')
BND = ('bound',)


SAME = ('builtins.sorted', 'numpy.sort', 'builtins.set', 'builtins.frozenset')


class LifeCfg(SelCfg):
    def wrapped(self, k):
        """The sequence whose elements a conversion or a reordering has."""
        while isinstance(k, tuple):
            if len(k) > 2 and k[0] == 'call' and k[1] in SAME:
                k = k[2]
            elif k[:1] == ('setof',):
                k = k[1]
            elif k[:1] == ('mcall',) and len(k) == 3 and k[2] in ('tolist', 'copy'):
                k = k[1]
            else:
                w = SelCfg.wrapped(self, k)
                if w is k:
                    break
                k = w
        return k

    def is_int(self, a):
        if a == NACT:
            return self.case != 'fraction'
        return SelCfg.is_int(self, a)

    def call(self, it, f, args, kw, node):
        if isinstance(f, ClassV) and f.qual == 'PriorityQueue':
            o = it.new('heap')
            it.event('heapnew', 'PriorityQueue', list(args), node, o, kw=kw)
            return o
        if isinstance(f, ExtMeth) and isinstance(f.self_, Sym) and f.self_.key[:2] == ('new', 'heap'):
            it.event('heapop', f.name, [f.self_] + list(args), node, kw=kw)
            return it.fresh('heapres')
        if isinstance(f, Ext) and f.name == 'numpy.random.choice' and not self.inner:
            self.inner = True
            r = it.call(f, args, kw, node)
            self.inner = False
            n = it.num(kw.get('size', args[1] if len(args) > 1 else NONE))
            if n is not None and isinstance(r, Sym):
                it.st.counters[('rndlen', r.key)] = n
            return r
        return SelCfg.call(self, it, f, args, kw, node)

    inner = False

    def elem(self, it, v, i):
        if isinstance(v, Sym) and it.content(v) is None:
            k = it.deep(v)
            if prefix(k):
                return it.elem(Sym(k[1]), i)
        return SelCfg.elem(self, it, v, i)

    def length(self, it, v):
        if isinstance(v, Sym) and ('rndlen', v.key) in it.st.counters:
            return it.st.counters[('rndlen', v.key)]
        if isinstance(v, Sym) and it.content(v) is None:
            k = self.wrapped(it.deep(v))
            if ('rndlen', k) in it.st.counters:
                return it.st.counters[('rndlen', k)]
        return SelCfg.length(self, it, v)


def prefix(k):
    return isinstance(k, tuple) and k[:1] == ('slice',) and len(k) == 5 and k[4] == key(NONE) and \
        k[2] in (key(NONE), key(const(0)))


def init_args(it, case):
    st = it.st
    if case in ('random', 'fraction', 'small'):
        st.bools[('isnone', NACT)] = False
        st.bools[('isinst', NACT, ('ext', 'numbers.Integral'))] = case != 'fraction'
        n = atom(NACT)
        if case == 'random':
            it.assume(const(1) - n, '<=')
        elif case == 'small':
            it.assume(n, '<=')
        return {'nActive': Sym(NACT)}
    kw = case_args(it, case)
    if 'edge' in kw:
        kw['edges'] = kw.pop('edge')
    return kw


def sizes(it, ctx):
    it.st.attrs[(NET, 'nV')] = nV(NG)
    it.st.attrs[(NET, 'nE')] = nE(NG)


def activated(e, st):
    if e.kind == 'qop' and e.name == 'set_active':
        return queue_index(e.args[0])


def resolve(cfg, k, ix):
    """What a (filtered, converted) sequence walks over: (base, element at ix, [guards], truncations)."""
    k = cfg.wrapped(k)
    if isinstance(k, tuple) and k[:1] == ('slice',) and len(k) == 5:
        b, e, g, t = resolve(cfg, k[1], ix)
        return b, e, g, t + [k[2:]]
    if isinstance(k, tuple) and k[:1] == ('map',) and len(k) == 5:
        g = []
        if k[3] or k[4]:
            own = [(k[3], k[4])]
        else:
            own = []
        b, e, gi, t = resolve(cfg, k[1], BND)
        return b, (k[2] if e is None else k[2]), gi + own, t
    return k, None, [], []


def etype_keys(idx):
    r = {('etype', ('Q', idx))}
    if isinstance(idx, tuple) and idx[:1] == ('eidx',):
        r.add(('ep', idx[1], 'edge_type', idx[2], idx[3]))
    return r


def nonnull(bools, lins, ets):
    """Do the facts say that the type of the queue is not 0: True, False (it is 0), None (nothing)."""
    for k, b in bools:
        if isinstance(k, tuple) and k[:1] == ('==',) and len(k) == 3:
            a, c = k[1:]
            if a in ets and c in (('c', 0), ('lin', (), 0)) or c in ets and a in (('c', 0), ('lin', (), 0)):
                return not b
            for x, y in ((a, c), (c, a)):
                if x in ets and key(const(0)) == y:
                    return not b
        if isinstance(k, tuple) and k[:1] == ('truth',) and k[1] in ets:
            return b
    for l, kd in lins:
        if kd == '==' and set(l.t) <= ets and len(l.t) == 1 and not l.c:
            return False
        if kd == '<' and len(l.t) == 1 and set(l.t) <= ets and not l.c:
            return True
        if kd == '<=' and len(l.t) == 1 and set(l.t) <= ets and l.c == 1 and list(l.t.values()) == [-1]:
            return True
    return None


def tolin(l):
    v = from_key(l) if not isinstance(l, Lin) else l
    return v if isinstance(v, Lin) else atom(l)


def is_total(k):
    """A sum over the tally array."""
    while isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ('builtins.int', 'builtins.float') and len(k) == 3:
        k = k[2]
    if isinstance(k, tuple) and k[:1] == ('call',) and len(k) == 3 and k[1] in ('numpy.sum', 'builtins.sum'):
        k = k[2]
    elif isinstance(k, tuple) and k[:1] == ('mcall',) and len(k) == 3 and k[2] == 'sum':
        k = k[1]
    else:
        return False
    if isinstance(k, tuple) and k[:1] == ('at',):
        k = k[1]
    return k == NA


def full(pv, k):
    """Is the network known to hold max_agents agents (True), fewer (False), or neither?"""
    mx = atom(('attr', NET, 'max_agents'))
    r = None
    for t in [atom(a) for a in {a for l, _ in pv.st.lin for a in l.t if is_total(a)}] + [S0]:
        if pv.ent(mx - t - const(1), '<') or pv.ent(mx - t, '<='):
            return True
        if pv.ent(t - mx + const(1), '<=') or pv.ent(t - mx, '<'):
            r = False
    return r


def is_active(pv, k):
    for a, b in pv.st.bools.items():
        if isinstance(a, tuple) and a[0] == 'truth':
            a = a[1]
        if a == ('attr', ('Q', k), '_active') or isinstance(a, tuple) and a[:1] == ('lv',) and \
                a[2] == (('Q', k), '_active'):
            return b
    return None


def init_task(prog, case):
    P = 'C17'
    ob = Obligations()
    cfg = LifeCfg()
    cfg.case = 'none' if case in ('random', 'fraction', 'small') else case
    if case == 'fraction':
        cfg.case = 'fraction'
    it, paths = explore_net(cfg, prog, 'initialize', sizes, mkargs=lambda it, ctx: ([], init_args(it, case)))
    ob.absorb(it, 'initialize(%s)' % case, paths)
    m = it.class_attr(it.get_class(NETCLS), 'initialize')
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    words = {'random': 'nActive=n', 'fraction': 'nActive not an integer', 'small': 'nActive < 1'}.get(case) or \
        WORDS[case].replace('edge=', 'edges=')
    R = 'exactly the selected queues with a non-null edge type are activated'

    def say(rule, ok, loc, msg, p, sample=None):
        ob.check(P, rule, ok, loc or where, 'initialize(%s): %s' % (words, msg), p, sample)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        it.st = p.st
        if p.kind == 'undecided':
            say(R, None, None, p.value, p)
            continue
        tops, loops, deep = all_effects(p.st, activated)
        eff = [l for l in loops if l[1] is not None]
        if p.kind == 'raise':
            loc = p.value.where
            rule = 'a rejected initialize leaves the network as it was'
            ch = [e for e in p.st.events if e.kind == 'setattr' and key(e.args[0]) == NET]
            say(rule, not (tops or eff or ch), loc, 'something is changed before %s is raised' % p.value.exc, p,
                '%s before any change' % p.value.exc)
            want = {'fraction': 'TypeError', 'small': 'ValueError'}.get(case, 'QueueingToolError')
            rule = 'initialize fails exactly as documented'
            if p.value.exc != want:
                say(rule, None if v.lossy() or p.value.exc == '<ext>' or p.value.node is None else False, loc,
                    'raises %s' % p.value.exc, p)
                continue
            if want == 'QueueingToolError':
                say(rule, nothing_selected(it, cfg, v, p, case), loc, 'raises %s although queues are selected'
                    % p.value.exc, p, 'no queue is left')
            else:
                say(rule, True, loc, 'raises %s' % p.value.exc, p)
            continue
        if case in ('fraction', 'small'):
            say('initialize fails exactly as documented', None if v.lossy() else False, None, 'is accepted', p)
            continue
        # -- scheduling and the flag
        flag = v.attr(NET, '_initialized')
        t = v.truth(flag) if flag is not None else None
        say('initialize makes the network ready to simulate', True if t else (
            None if flag is not None and foreign(key(flag)) else False), None, 'the network may not be ready', p)
        last = -1
        for i, e in enumerate(p.st.events):
            if e.kind == 'qop' and e.name in ('set_active',) or any(e is l[0] for l in eff):
                last = i
        r, msg, loc = scheduled(it, p, v, last)
        say('every queue with an event due is scheduled after activation', r, loc, msg, p, 'heap built from every queue')
        # -- selection
        if deep:
            say(R, None, None, 'activation in inner loops', p)
            continue
        if nothing_selected(it, cfg, v, p, case, True) is True:
            say('initialize fails exactly as documented', False if not v.lossy() else None, None,
                'is accepted although no queue is selected', p)
            continue
        for ok, msg, loc, rule in judge_selection(it, cfg, p, v, case, tops, loops, eff):
            say(rule or R, ok, loc, msg, p, msg)
    return ob


def nothing_selected(it, cfg, v, p, case, top=False):
    """Is the (filtered) selection known to be empty on the path?"""
    def sel(k):
        b, e, g, t = resolve(cfg, k, BND)
        return b is not None
    cands = set()
    for k, b in p.st.bools.items():
        if isinstance(k, tuple) and k[:1] == ('==',):
            for x in k[1:]:
                if isinstance(x, tuple) and x[:1] == ('len',):
                    cands.add(x)
    for l, kd in p.st.lin:
        for a in l.t:
            if isinstance(a, tuple) and a[:1] == ('len',) and isinstance(a[1], tuple) and \
                    a[1][0] in ('map', 'rnd', 'arg', 'call'):
                cands.add(a)
    for a in cands:
        k = a[1]
        b, e, g, t = resolve(cfg, k, BND)
        if k[0] in ('map', 'slice') and g and not t and v.ent(atom(a), '<=') and selection_filter(it, cfg, p, k, case)[0] is True:
            return True
        z = v.st.bools.get(('==', ('c', 0), a), v.st.bools.get(('==', a, ('c', 0)), v.st.bools.get(
            ('==', key(const(0)), a))))
        if z and g and selection_filter(it, cfg, p, k, case)[0] is True:
            return True
    # a walk over an empty selection or over nothing
    for e in p.st.events:
        if e.kind == 'loop0' and e.info and e.info.get('iter') is not None:
            b, el, g, t = resolve(cfg, e.info['iter'], BND)
            if not t and (b in (AQ, AE) or b == ('edges', NG) or b[0] == 'rnd') and not any(
                    x.kind == 'loop' and resolve(cfg, x.info.get('iter'), BND)[0] == b for x in p.st.events):
                return True
            if not t and b[0] != 'rnd' and g and selection_filter(it, cfg, p, e.info['iter'], case)[0] in (True, 'null'):
                return True
    # a known selection of null queues only
    if case in ('qint', 'edge', 'edges2'):
        ks = targets(case)
        rs = [nonnull(list(p.st.bools.items()), list(p.st.lin), etype_keys(k)) for k in ks]
        if all(r is False for r in rs):
            return True
    if case == 'random':
        for e in p.st.events:
            if e.kind == 'loop0' and resolve(cfg, e.info.get('iter'), BND)[0] in (E2Q,):
                return True
        if pool_empty(it, v, p) and not (top and any(e.kind == 'loop' for e in p.st.events)):
            return True
    if top:
        return None
    return None


def pool_empty(it, v, p):
    for l, kd in p.st.lin:
        for a in l.t:
            if isinstance(a, tuple) and a[:1] == ('len',) and isinstance(a[1], tuple) and a[1][:1] == ('map',) and \
                    v.ent(atom(a), '<='):
                return True
    return None


def targets(case):
    from .select_rules import AU, AV
    return {'qint': [AQ], 'edge': [('eidx', NG, AU, AV)],
            'edges2': [('eidx', NG, ('pu', ('c', i)), ('pv', ('c', i))) for i in range(2)]}[case]


def selection_filter(it, cfg, p, k, case):
    """Does the sequence hold exactly the selected queues of non-null type?"""
    b, el, g, t = resolve(cfg, k, BND)
    return check_base(it, cfg, p, b, k, BND, case, final=True)


def element(cfg, k, ix):
    """Key of the element at ix of a nested sequence, as a term over its innermost base."""
    k = cfg.wrapped(k)
    if k[:1] == ('slice',) and len(k) == 5:
        return element(cfg, k[1], ix)
    if k[:1] == ('map',) and len(k) == 5:
        s = ('sel', k, ix) if k[3] or k[4] else ix
        return subkey(k[2], {BND: s})
    return None


def guards(cfg, k):
    k = cfg.wrapped(k)
    out = []
    while isinstance(k, tuple) and k[:1] in (('map',), ('slice',)):
        if k[0] == 'slice':
            k = cfg.wrapped(k[1])
            continue
        if k[3] or k[4]:
            out.append(k)
        k = cfg.wrapped(k[1])
    return out


def base_elem(b, i, case):
    """Edge index of the i-th element of an unfiltered selection."""
    if b == AQ:
        return [('elem', AQ, i)]
    if b == AE:
        return [('eidx', NG, ('pu', i), ('pv', i))]
    if b == ('edges', NG):
        return [('eidx', NG, ('eu', NG, i), ('ev', NG, i))]
    if b == SORTED + (('edges', NG),):
        return [('eidx', NG, ('su', NG, i), ('sv', NG, i))]
    if b == E2Q or is_all(b):
        return [i]
    if isinstance(b, tuple) and b[0] == 'rnd':
        return [('elem', b, i)]
    return None


def plain_test(alts, idx, ets):
    """A filter of nothing but the edge of a queue: True if it takes exactly the types that are not 0, False if it takes
    others, None if it is not so plain."""
    own = {('esrc', ('Q', idx)), ('etgt', ('Q', idx)), idx}
    atoms = set()
    tests = []
    for bs, ls, w in alts:
        t = []
        for k, b in bs:
            if not isinstance(k, tuple):
                return None
            if k[:1] == ('truth',) and k[1] in own | ets:
                t.append((atom(k[1]), '==', not b))
            elif k[:1] == ('==',) and len(k) == 3:
                t.append((tolin(k[1]) - tolin(k[2]), '==', b))
            else:
                return None
        qt, nt, inf, now = ('qt', ('Q', idx), 0), ('nt', ('Q', idx), 0), ('INF',), ('clock',)
        always = [({qt: 1, inf: -1}, 0), ({now: 1, qt: -1}, 0), ({nt: -1}, 0)]
        t += [(l, kd, True) for l, kd in ls if not (kd == '<=' and (dict(l.t), l.c) in always)]
        tests.append((t, w))
        for l, kd, b in t:
            atoms |= set(l.t)
    if not atoms or not atoms <= own | ets:
        return None
    if atoms & own:
        return False
    for n in range(6):
        got = set()
        for t, w in tests:
            holds = True
            for l, kd, b in t:
                x = l.c + sum(c * n for c in l.t.values())
                holds = holds and {'==': x == 0, '<': x < 0, '<=': x <= 0}[kd] == b
            if holds:
                got.add(w)
        if len(tests) == 1:
            got = got or {not tests[0][1]}
        if len(got) != 1:
            return None
        if got != {n != 0}:
            return False
    return True


def check_base(it, cfg, p, b, k, ix, case, final):
    """(ok, msg): the filters of the nested sequence k select exactly the wanted queues."""
    got_type = case not in ('tint', 'titer')
    got_null = False
    gs = guards(cfg, k)
    # innermost first
    for m in reversed(gs):
        inner = m[1]
        i = BND
        if guards(cfg, inner):
            i = ('sel', cfg.wrapped(inner), BND)
        idx = None
        be = base_elem(resolve(cfg, inner, BND)[0], i, case)
        if be is None:
            return None, 'filtered from %s' % show(inner)
        idx = be[0]
        ets = etype_keys(idx)
        if len(m[3]) == 1 and not m[4] and m[3][0][0][0] == 'guard' and len(m[3][0][0]) == 4:
            _, _, yes, no = m[3][0][0]
            alts = [(bs, [(tolin(l), kd) for l, kd in ls], w) for al, w in ((yes, True), (no, False)) for bs, ls in al]
        else:
            alts = [(m[3], [(tolin(l), kd) for l, kd in m[4]], True)]
        nn = [nonnull(bs, ls, ets) for bs, ls, w in alts]
        if not got_null and any(x is not None for x in nn):
            if all(x is w for x, (_, _, w) in zip(nn, alts)):
                got_null = True
                continue
            if all(x is (not w) for x, (_, _, w) in zip(nn, alts)):
                return False, 'queues whose edge type is not 0 are sifted out'
            return None, 'filtered by %s' % show(m[3])
        if not got_type:
            ok = True
            for bs, ls, w in alts:
                ms = [judge(bs, ls, e, idx, i, case) for e in sorted(ets, key=repr)]
                mm = [r for r, x in ms if r is not None]
                if not mm:
                    ok = None
                elif mm[0] is not w:
                    return False, 'edges are selected by the wrong type'
            if ok:
                got_type = True
                continue
        t = plain_test(alts, idx, ets)
        if t is not None and case not in ('tint', 'titer'):
            if t and not got_null:
                got_null = True
                continue
            return False, 'filtered by %s' % show(m[3] or tuple(key(tolin(l)) for l, kd in m[4]))
        return None, 'filtered by %s' % show(m[3])
    if not got_type:
        return False, 'queues are activated whatever their edge type'
    if not got_null:
        return ('null', 'queues with edge type 0 are not sifted out')
    return True, ''


def limited(it, p, v, k):
    """The truncations of a sequence: those to max_agents lose nothing but agents that would not fit."""
    for t in k:
        a, b, c = t
        none = (NONE.key if hasattr(NONE, 'key') else key(NONE))
        if a not in (key(NONE), key(const(0)), ('c', 0)) or c != key(NONE):
            return None, 'part of the selection is dropped'
        if b != ('attr', NET, 'max_agents'):
            return (None if foreign(b) else False), 'the selection is cut to %s' % show(b)
    return True, ''


def shuffled(p, b, trunc):
    """The first ones of a random order are a draw: (that cut, the other truncations)."""
    if trunc and isinstance(b, tuple) and b[:2] == ('rnd', 'numpy.random.permutation'):
        return trunc[0], trunc[1:]
    return None, trunc


def judge_selection(it, cfg, p, v, case, tops, loops, eff):
    R2 = 'no queue is activated that the network has no room for'
    if case in ('qint', 'edge', 'edges2'):
        if eff:
            yield None, 'not decided', None, None
            return
        want = targets(case)
        bl, ll = list(p.st.bools.items()), list(p.st.lin)
        got = [k for k, _ in tops]
        for k, e in tops:
            if k not in want:
                yield (None if foreign(k) or v.lossy() else False), 'activates %s' % show(k), e.loc, None
                continue
            nn = nonnull(bl, ll, etype_keys(k))
            yield (True if nn else (None if v.lossy() and nn is None else False)), \
                'activates a queue %s' % ('of a non-null type' if nn else 'with edge type 0'), e.loc, None
        for k in want:
            if k in got:
                yield tally(it, p, v, k)
                continue
            nn = nonnull(bl, ll, etype_keys(k))
            if nn is False:
                yield True, 'null queue is left out', None, None
                continue
            yield excuse(it, v, k)
        return
    if tops:
        yield None, 'activates single queues', tops[0][1].loc, None
        return
    if not eff:
        # the selection is non-empty, but nothing is activated
        cut = [l[0] for l in loops if l[1] is None and resolve(cfg, l[0].info.get('iter'), BND)[3]]
        if cut:
            b, _, _, trunc = resolve(cfg, cut[0].info['iter'], BND)
            ok, msg = limited(it, p, v, shuffled(p, b, trunc)[1])
            yield ok, msg or 'nothing fits', cut[0].loc, None
            return
        yield None, 'no queue is activated', None, None
        return
    if len(eff) > 1:
        yield None, 'several loops', None, None
        return
    e, its = eff[0]
    src = e.info.get('iter')
    if not e.info.get('complete'):
        yield None, 'the loop over the selected queues ends early', e.loc, None
        return
    b, el, g, trunc = resolve(cfg, src, BND)
    cut, trunc = shuffled(p, b, trunc)
    ok, msg = limited(it, p, v, trunc)
    if ok is not True:
        yield ok, msg, e.loc, None
    want_base = {'qlist': (AQ,), 'edges': (AE,), 'tint': 'edges', 'titer': 'edges', 'random': 'rnd'}[case]
    if want_base == 'rnd':
        if not (isinstance(b, tuple) and b[0] == 'rnd'):
            if b == E2Q or is_all(b) or b == ('edges', NG):
                yield None, 'chosen from %s' % show(src), e.loc, None
            else:
                yield None, 'chosen from %s' % show(src), e.loc, None
            return
        yield random_pool(it, cfg, p, v, b, cut)
    elif want_base == 'edges':
        if not (is_all(b) or b == E2Q):
            yield None, 'selects from %s' % show(b), e.loc, None
            return
    elif b not in want_base:
        yield (False if is_all(b) and not guards(cfg, src) else None), 'activates %s instead of the selected queues' % show(b), e.loc, None
        return
    r, msg = check_base(it, cfg, p, b, src, e.info['ix'], case, True)
    needs_null = r == 'null' and not (want_base == 'rnd')
    if r == 'null':
        r = True
    if r is not True:
        yield r, msg, e.loc, None
        return
    ix = e.info['ix']
    s = ix
    if guards(cfg, src):
        k = src
        while isinstance(cfg.wrapped(k), tuple) and cfg.wrapped(k)[0] == 'slice':
            k = cfg.wrapped(k)[1]
        s = ('sel', cfg.wrapped(k), ix)
    want = element(cfg, src, ix)
    base = base_elem(b, ix, case)
    good = [(q, ks) for q, ks in its if q[0] is None or q[0][0] == 'continue']
    for q, ks in good:
        pv = PV(it, q[1], q[2], q[0], None, 'iter')
        it.st = q[1]
        idx = want if want is not None else (base[0] if base else None)
        if ks:
            if len({k for k, _ in ks}) > 1:
                yield None, 'activates several queues', ks[0][1].loc, None
                continue
            k, ev = ks[0]
            if k != idx:
                yield (None if foreign(k) or pv.lossy() else False), 'activates %s instead of %s' % (show(k), show(idx)), ev.loc, None
                continue
            if needs_null:
                nn = nonnull(list(q[4]), list(q[3]), etype_keys(k))
                if nn is not True:
                    yield (None if nn is None and pv.lossy() else False), msg, ev.loc, None
                    continue
            f = full_at(it, pv, k)
            yield (True if f is False else (None if f is None else False)), 'activates a queue although the network is full', ev.loc, R2
            yield tally(it, q, pv, k)
            yield True, 'activates each selected queue', ev.loc, None
        else:
            nn = nonnull(list(q[4]), list(q[3]), etype_keys(idx))
            if needs_null and nn is False:
                yield True, 'null queue is left out', None, None
                continue
            yield excuse(it, pv, idx, e.loc)


def full_at(it, pv, k):
    """Full before the queue was activated?"""
    if is_active(pv, k):
        return False
    f = full(pv, k)
    if f is None:
        if any(is_total(a) for l, _ in pv.st.lin for a in l.t):
            return True         # what is compared does not leave room
        if not any(isinstance(a, tuple) and a[:1] == ('lv',) for l, _ in pv.st.lin for a in l.t):
            return True
    return f


def excuse(it, v, k, loc=None):
    """A selected queue that is not activated: it is active already or the network is full."""
    if is_active(v, k):
        return True, 'already active', loc, None
    f = full(v, k)
    if f:
        return True, 'the network is full', loc, None
    return (None if v.lossy() and f is None else False), 'a selected queue is not activated', loc, None


def tally(it, p, v, k):
    R3 = 'the tally of agents includes the arrivals activation schedules'
    st = v.st
    it.st = st
    q = ('Q', k)
    cur = st.attrs.get((q, '_num_total'))
    if st.ver.get(('whole', NA), 0) and not st.items.get(NA):
        return None, 'the tally is replaced', None, R3
    ent = [val for i, (idx, val) in st.items.get(NA, {}).items() if key(idx) == k]
    if not ent:
        return (None if v.lossy() else False), 'the tally of the activated queue is not brought up to date', None, R3
    r = v.eq(ent[-1], cur)
    return r, 'the tally of the activated queue is %s' % show(key(ent[-1])), None, R3


def small(k, pool):
    """A quantity made of the number asked for and the number of queues."""
    return k in (NACT, ('len', pool)) or isinstance(k, tuple) and k[:1] == ('fdiv',) and all(
        not isinstance(x, tuple) or small(x, pool) or x[:1] == ('c',) for x in k[1:])


def random_pool(it, cfg, p, v, b, cut=None):
    """nActive queues drawn without replacement from those of non-null type."""
    ev = [e for e in p.st.events if e.res is not None and isinstance(e.res, Sym) and e.res.key == b]
    if not ev:
        return None, 'drawn by something unknown', None, None
    e = ev[0]
    kw = dict(e.kw or {})
    if e.name == 'numpy.random.permutation' and cut is not None and cut[0] in (
            key(NONE), ('c', 0)) and cut[2] == key(NONE) and e.args:
        kw = {'a': e.args[0], 'size': from_key(cut[1]), 'replace': FALSE}
    elif e.name != 'numpy.random.choice':
        return None, 'drawn by %s' % e.name, e.loc, None
    names = ['a', 'size', 'replace', 'p']
    for n, a in zip(names, e.args):
        kw[n] = a
    pool = it.deep(kw['a']) if 'a' in kw else None
    if e.args and e.deep:
        pool = e.deep[0]
    rp = kw.get('replace', TRUE)
    if isinstance(rp, BoolV):
        x = v.truth(rp)
        a, b_ = num(rp.a), num(rp.b) if rp.b is not None else None
        if x is not None:
            rp = Const(x)
        elif rp.op in ('<', '<=', '==') and a is not None and b_ is not None and all(
                small(k, pool) for k in (a - b_).t) and v.feas((a - b_, rp.op)):
            rp = TRUE                   # for some number asked for and some number of queues
    if not isinstance(rp, Const):
        return None, 'drawn with replace=%s' % show(key(rp)), e.loc, None
    if rp.v:
        return False, 'drawn with replacement: fewer queues than asked for may be activated', e.loc, None
    if 'p' in kw:
        return None, 'drawn with given probabilities', e.loc, None
    b0, el, g, t = resolve(cfg, pool, BND)
    if t:
        return None, 'drawn from part of the queues', e.loc, None
    if is_all(b0) or b0 == E2Q:
        r, msg = check_base(it, cfg, p, b0, pool, BND, 'random', True)
        if r == 'null':
            return False, 'queues with edge type 0 may be drawn, so that fewer than nActive are activated', e.loc, None
        if r is not True:
            return r, msg, e.loc, None
        i = BND
        want = base_elem(b0, BND, 'random')
        k = cfg.wrapped(pool)
        if k[0] != 'map' or k[2] not in want:
            return (None if foreign(k) else False), 'draws %s' % show(k[2]), e.loc, None
    else:
        return None, 'drawn from %s' % show(pool), e.loc, None
    size = it.num(kw['size']) if 'size' in kw else None
    if size is None:
        return None, 'drawn %s' % show(key(kw.get('size', NONE))), e.loc, None
    n, L = atom(NACT), atom(('len', pool))
    if v.ent(size - n, '==') and (v.ent(n - L, '<=') or cut is not None) or v.ent(size - L, '==') and v.ent(L - n, '<='):
        return True, 'min(nActive, number of non-null queues) are drawn', e.loc, None
    return (None if v.lossy() or foreign(key(size)) or any(a not in (NACT, ('len', pool)) for a in size.t) else False), \
        'draws %s queues' % fmt(size), e.loc, None


def finite(bools, lins, i):
    """Do the facts say the queue has an event due: True / False / None; and nothing else?"""
    T = ('qt', ('Q', i), 0)
    r, extra = None, False
    for l, kd in lins:
        ts = [a for a in l.t if isinstance(a, tuple) and a[0] == 'qt']
        if not ts:
            if mentions(key(l), lambda x: x == i):
                if not all(isinstance(a, tuple) and a[0] in ('nt', 'clock') for a in l.t):
                    extra = True
            continue
        d = dict(l.t)
        q = ts[0]
        if q[1] != ('Q', i):
            extra = True
            continue
        rest = {a: c for a, c in d.items() if a != q}
        if rest == {('INF',): -1} or rest == {('INF',): 1}:
            if kd == '<' and d[q] == 1:
                r = True
            elif kd == '==' or kd == '<=' and d[q] == -1:
                r = False
        elif all(isinstance(a, tuple) and a[0] in ('clock',) for a in rest):
            pass
        else:
            extra = True
    for k, b in bools:
        if isinstance(k, tuple) and mentions(k, lambda x: x == i):
            kk = k[1] if k[0] == 'truth' else k
            if kk[:2] == ('call', 'numpy.isinf') and b is False or kk[:2] == ('call', 'numpy.isfinite') and b:
                r = True
            elif kk[:2] == ('call', 'numpy.isinf') or kk[:2] == ('call', 'numpy.isfinite'):
                r = False
            elif k[0] == '==' and mentions(k, lambda x: x == INF_KEY):
                r = not b
            else:
                extra = True
    return r, extra


INF_KEY = list(INF.t)[0]


def sifts(it):
    """Does the schedule drop entries it is given?"""
    c = it.get_class('queueing_tool.network.priority_queue.PriorityQueue')
    m = it.class_attr(c, '__init__') if c is not None else None
    if not m or not isinstance(m[0], Fn):
        return True
    return any(isinstance(x, ast.comprehension) and x.ifs or isinstance(x, (ast.While, ast.Continue)) or isinstance(
        x, ast.Name) and x.id == 'filter' for x in ast.walk(m[0].node)) or any(
            isinstance(y, ast.If) for x in ast.walk(m[0].node) if isinstance(x, ast.For) for y in ast.walk(x))


def scheduled(it, p, v, last):
    heap = v.attr(NET, '_fancy_heap')
    mk = [(i, e) for i, e in enumerate(p.st.events) if e.kind == 'heapnew' and e.res is not None and
          heap is not None and key(e.res) == key(heap)]
    if not mk:
        old = heap is None or key(heap) == HEAP
        return (False if old and not v.lossy() and not any(
            e.kind == 'push' for e in p.st.events) else None), 'no new schedule is made', None
    i, e = mk[0]
    args = list(e.args)
    kw = dict(e.kw or {})
    keys = args[0] if args else kw.get('keys')
    pushes = [x for x in p.st.events if x.kind == 'loop' and x.info and x.info.get('paths') and any(
        y.kind == 'heapop' and y.name == 'push' for q in x.info['paths'] for y in q[1].events)]
    deepk = e.deep[0] if args else (it.deep(keys) if keys is not None else None)
    if deepk in (('list',), None) or deepk == key(NONE):
        empty = [x for x in p.st.events[:i] if x.kind == 'loop0' and x.info.get('iter') == E2Q]
        if empty:
            return True, '', e.loc
        # built by pushing, or nothing is due
        for x in pushes:
            if p.st.events.index(x) < last:
                return False, 'queues are scheduled before they are activated', x.loc
            j = x.info['ix']
            if x.info['iter'] != E2Q and not is_all(x.info['iter']) or not x.info.get('complete'):
                return None, 'scheduled in a walk over %s' % show(x.info['iter']), x.loc
            for q in x.info['paths']:
                if q[0] is not None and q[0][0] != 'continue':
                    continue
                f, extra = finite(q[4], q[3], j)
                ps = [y for y in q[1].events if y.kind == 'heapop' and y.name == 'push']
                if extra or f is None and ps:
                    return None, 'scheduled under a condition', x.loc
                if bool(ps) is not bool(f):
                    return (None if f is None else False), 'a queue with an event due is not scheduled', x.loc
                if ps and [key(a) for a in ps[0].args[1:]] != [key(Sym(('qt', ('Q', j), 0))), j] and \
                        [key(a) for a in ps[0].args[1:]] != [key(atom(('qt', ('Q', j), 0))), j]:
                    return None, 'pushes %s' % show(key(ps[0].args[1])), ps[0].loc
            return True, '', x.loc
        if any(x.kind == 'loop0' and is_all(x.info.get('iter')) for x in p.st.events):
            return True, '', e.loc
        # a comprehension whose every iteration was filtered out
        for x in p.st.events[:i]:
            if x.kind == 'loop' and x.info.get('iter') == E2Q and x.info.get('complete'):
                fs = [finite(q[4], q[3], x.info['ix']) for q in x.info['paths'] if q[0] is None or q[0][0] == 'continue']
                if fs and all(f is False for f, _ in fs):
                    return True, '', e.loc
        return (False if deepk == ('list',) or keys is None else None), 'nothing is scheduled', e.loc
    if i < last:
        return False, 'the schedule is made before the queues are activated', e.loc
    k = deepk
    while isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ('builtins.list', 'builtins.sorted', 'builtins.tuple') and len(k) == 3:
        k = k[2]
    if not (isinstance(k, tuple) and k[:1] == ('map',) and len(k) == 5):
        return None, 'scheduled from %s' % show(k), e.loc
    if k[1] == E2Q or is_all(k[1]):
        T, I = ('qt', ('Q', BND), 0), BND
        if k[1] != E2Q and k[1][0] != 'view':
            return None, 'scheduled from %s' % show(k[1]), e.loc
    else:
        return (None if foreign(k[1]) or not (isinstance(k[1], tuple) and k[1][0] in ('map', 'slice', 'arg', 'rnd'))
                else False), 'only some queues are scheduled: %s' % show(k[1]), e.loc
    el = k[2]
    if el not in (('tup', T, I), ('list', T, I)):
        bad = foreign(el) or el[:1] not in (('tup',), ('list',))
        return (None if bad else False), 'scheduled as %s' % show(el), e.loc
    if len(k[3]) == 1 and not k[4] and k[3][0][0][0] == 'guard' and len(k[3][0][0]) == 4:
        _, _, yes, no = k[3][0][0]
        alts = [(bs, [(tolin(l), kd) for l, kd in ls], w) for al, w in ((yes, True), (no, False)) for bs, ls in al]
    else:
        alts = [(k[3], [(tolin(l), kd) for l, kd in k[4]], True)]
    for bs, ls, w in alts:
        f, extra = finite(bs, ls, BND)
        if extra:
            return None, 'scheduled under a further condition', e.loc
        if f is None and not k[3] and not k[4]:
            return (None if sifts(it) else False), 'queues without an event are scheduled too', e.loc
        if f is not None and f is not w:
            return False, 'the queues without an event due are scheduled', e.loc
        if f is None:
            return None, 'scheduled under an unknown condition', e.loc
    if len(args) > 1 or 'size' in kw:
        n = it.num(args[1] if len(args) > 1 else kw['size'])
        if n is not None and not (v.ent(n - nE(NG), '==') or v.ent(n - atom(('attr', NET, 'nE')), '==')):
            return None, 'the scheduler is made for %s queues' % fmt(n), e.loc
    return True, '', e.loc


def clear_task(prog):
    P = 'C17'
    ob = Obligations()
    cfg = LifeCfg()
    cfg.case = 'none'
    it, paths = explore_net(cfg, prog, 'clear', sizes)
    ob.absorb(it, 'clear', paths)
    m = it.class_attr(it.get_class(NETCLS), 'clear')
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, 'clear resets the network', None if p.kind == 'undecided' or v.lossy() else False, where,
                     'clear does not complete: %s' % (p.value,), p)
            continue
        for n, want, what in (('_t', const(0), 'the time'), ('num_events', const(0), 'the number of events')):
            x = v.attr(NET, n)
            if isinstance(x, Const) and not isinstance(x.v, bool) and x.v == 0:
                r = True
            else:
                r = v.eq(x, want)
            ob.check(P, 'clear resets the network', r, loc_of(p.st.events, n, where), '%s is not set to zero' % what, p)
        x = v.attr(NET, '_initialized')
        t = v.truth(x) if x is not None else None
        ob.check(P, 'clear resets the network', True if t is False else (None if t is None and v.lossy() else False),
                 loc_of(p.st.events, '_initialized', where), 'the network can be simulated without initialize', p)
        r, msg = zero_tally(it, p, v)
        ob.check(P, 'clear resets the network', r, loc_of(p.st.events, 'num_agents', where), msg, p)
        r, msg, loc = all_cleared(cfg, it, p, v)
        ob.check(P, 'clear clears every queue', r, loc or where, msg, p)
    return ob


def zero_tally(it, p, v):
    x = v.attr(NET, 'num_agents')
    if x is None or key(x) == NA:
        for e in p.st.events:
            if e.kind == 'setitem' and key(e.args[0]) == NA and isinstance(e.args[1], View):
                z = e.args[2]
                if isinstance(z, Const) and z.v == 0 or isinstance(z, Lin) and not z.t and not z.c:
                    return True, ''
            if e.kind == 'mutate' and key(e.args[0]) == NA and e.name == 'fill':
                return True, ''
        for e in p.st.events:
            if e.kind in ('loop', 'loop0') and any(y.kind == 'setitem' and key(y.args[0]) == NA
                                                  for q in (e.info.get('paths') or []) for y in q[1].events):
                return None, 'the tallies are stored one by one'
        return (None if v.lossy() else False), 'the tallies of agents are not reset'
    ev = [e for e in p.st.events if e.kind == 'ext' and e.res is not None and key(e.res) == key(x)]
    if ev and ev[0].name in ('numpy.zeros', 'numpy.zeros_like'):
        a = ev[0].args[0]
        if ev[0].name == 'numpy.zeros_like':
            return (True if key(a) == NA else None), 'the tallies have another size'
        n = it.num(a) if not isinstance(a, Tup) else it.num(a.items[0])
        ok = n is not None and (v.ent(n - nE(NG), '==') or v.ent(n - atom(('attr', NET, 'nE')), '=='))
        return (True if ok else (None if n is None or foreign(key(n)) else False)), 'the tallies have another size'
    if ev and ev[0].name in ('numpy.ones', 'numpy.arange'):
        return False, 'the tallies are not zero'
    return None, 'the tallies are %s' % show(it.deep(x))


def all_cleared(cfg, it, p, v):
    def pick(e, st):
        if e.kind == 'qop' and e.name == 'clear':
            return queue_index(e.args[0])
    tops, loops, deep = all_effects(p.st, pick)
    eff = [l for l in loops if l[1] is not None]
    if not eff and not tops:
        for l in loops:
            if is_all(l[0].info.get('iter')) or l[0].info.get('iter') == E2Q:
                return True, '', None
        return (None if v.lossy() or deep else False), 'no queue is cleared', None
    if len(eff) != 1 or tops or deep:
        return None, 'queues are cleared in several places', None
    e, its = eff[0]
    src = cfg.wrapped(e.info['iter'])
    if not (is_all(src) or src == E2Q):
        return None, 'the queues cleared are %s' % show(src), e.loc
    if not e.info.get('complete'):
        return False, 'not every queue is cleared', e.loc
    ix = e.info['ix']
    want = base_elem(src, ix, 'random')
    for q, ks in its:
        if q[0] is not None and q[0][0] != 'continue':
            continue
        pv = PV(it, q[1], q[2], q[0], None, 'iter')
        if not ks:
            return (None if pv.lossy() else False), 'some queues are not cleared', e.loc
        if ks[0][0] not in want:
            return (None if pv.lossy() or foreign(ks[0][0]) else False), 'clears %s' % show(ks[0][0]), e.loc
    return True, '', e.loc


def gate_task(prog, name):
    """simulate and animate of a network that is not initialized."""
    P = 'C17'
    ob = Obligations()
    cfg = LifeCfg()
    cfg.case = 'none'

    def setup(it, ctx):
        sizes(it, ctx)
        it.st.attrs[(NET, '_initialized')] = FALSE
    it, paths = explore_net(cfg, prog, name, setup=setup)
    ob.absorb(it, name, paths)
    m = it.class_attr(it.get_class(NETCLS), name)
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'undecided':
            ob.check(P, 'only an initialized network can be simulated', None, where, p.value, p)
            continue
        ok = p.kind == 'raise' and p.value.exc == 'QueueingToolError'
        bad = [e for e in p.st.events if e.kind in ('qop', 'push', 'pop', 'setattr', 'setitem')]
        ob.check(P, 'only an initialized network can be simulated', (not bad) if ok else (None if v.lossy() else False),
                 bad[0].loc if bad else where, '%s of a network that is not initialized %s' % (
                     name, 'changes it' if ok else 'is accepted'), p, 'raises QueueingToolError')
    return ob
