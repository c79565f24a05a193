"""Which queues the selection parameters (queues, edge, edge_type) pick: C18."""
from .common import *  # noqa
from .graphenv import *  # noqa

AQ, AE, AT = ('arg', 'queues'), ('arg', 'edges'), ('arg', 'types')
AU, AV, AT1 = ('arg', 'u'), ('arg', 'v'), ('arg', 'type')
WRAP = ('numpy.array', 'numpy.asarray', 'builtins.list', 'builtins.tuple', 'numpy.unique')


class SelCfg(GraphCfg):
    def is_int(self, a):
        if isinstance(a, tuple) and a and (a[0] in ('pu', 'pv') or a in (AU, AV, AT1) or
                                           a == AQ and self.case == 'qint'):
            return True
        return GraphCfg.is_int(self, a)

    def wrapped(self, k):
        while isinstance(k, tuple) and len(k) > 2 and k[0] == 'call' and k[1] in WRAP:
            k = k[2]
        return k

    def elem(self, it, v, i):
        k = self.wrapped(it.deep(v))
        if k == AE:
            return Tup([Sym(('pu', key(i))), Sym(('pv', key(i)))])
        if k == AQ:
            return Sym(('elem', AQ, key(i)))
        if isinstance(k, tuple) and k and k[0] == 'map' and len(k) == 5 and isinstance(v, Sym) and \
                it.content(v) is None:
            s = ('sel', k, key(i)) if k[3] or k[4] else key(i)
            for gk, gb in k[3]:
                it.st.bools.setdefault(subkey(gk, {('bound',): s}), gb)
            for lk, kd in k[4]:
                l = from_key(subkey(lk, {('bound',): s}))
                it.assume(l if isinstance(l, Lin) else atom(key(l)), kd)
            r = from_key(subkey(k[2], {('bound',): s}))
            return r
        return GraphCfg.elem(self, it, v, i)

    def length(self, it, v):
        k0 = it.deep(v)
        k = self.wrapped(k0)
        if k in (AE, AQ):
            return self.pos(it, atom(('len', k)))
        if k is not k0 and isinstance(k, tuple) and k[:1] == ('list',):
            return const(len(k) - 1)
        if k is not k0 and isinstance(v, Sym) and it.content(v) is None:
            if isinstance(k, tuple) and k and k[0] == 'map' and not k[3] and not k[4] and len(k) == 5:
                n = self.length(it, Sym(k[1]))
                if n is not None:
                    return n
            return self.pos(it, atom(('len', k)))
        return GraphCfg.length(self, it, v)

    def norm_item(self, it, base, idx):
        if isinstance(base, Sym):
            if base.key == AE and isinstance(idx, Lin):
                return Tup([Sym(('pu', key(idx))), Sym(('pv', key(idx)))])
            if base.key[0] == 'eindex' and isinstance(idx, Sym) and isinstance(it.content(idx), (LList, UList, MapSeq)):
                raise PyRaise('TypeError', None, ('unhashable',))
        return GraphCfg.norm_item(self, it, base, idx)


def case_args(it, case):
    st = it.st

    def known(k, integral):
        st.bools[('isnone', k)] = False
        st.bools[('isinst', k, ('ext', 'numbers.Integral'))] = integral
        st.bools[('isinst', k, ('ext', 'collections.abc.Iterable'))] = not integral
        if not integral:
            st.bools[('isinst', k, ('ext', 'str'))] = False
            st.bools[('isinst', k, ('ext', 'dict'))] = False
        return Sym(k)
    if case == 'none':
        return {}
    if case == 'qint':
        return {'queues': known(AQ, True)}
    if case == 'qlist':
        return {'queues': known(AQ, False)}
    if case == 'edge':
        return {'edge': Tup([known(AU, True), known(AV, True)])}
    if case == 'edgelist':
        return {'edge': it.mklist([known(AU, True), known(AV, True)])}
    if case == 'edges':
        return {'edge': known(AE, False)}
    pairs = [Tup([Sym(('pu', ('c', i))), Sym(('pv', ('c', i)))]) for i in range(2)]
    if case == 'edges2':
        return {'edge': it.mklist(pairs)}
    if case == 'edgestup':
        return {'edge': Tup(pairs)}
    if case == 'edgelists':
        return {'edge': it.mklist([it.mklist(list(p.items)) for p in pairs])}
    if case == 'tint':
        return {'edge_type': known(AT1, True)}
    if case == 'titer':
        return {'edge_type': known(AT, False)}
    raise ValueError(case)


CASES = ('none', 'qint', 'qlist', 'edge', 'edges', 'edges2', 'edgestup', 'edgelists', 'tint', 'titer')


def queue_index(v):
    """k of a value that is the queue with edge index k."""
    if isinstance(v, Sym) and v.key[0] == 'Q' and len(v.key) == 2:
        return v.key[1]
    return None


def data_queue(v):
    """k if v is the data of queue k."""
    if isinstance(v, Sym):
        k = v.key
        if k[0] == 'at':
            k = k[1]
        if k[0] == 'attr' and len(k) == 3 and k[2] == 'data' and k[1][0] == 'Q' and len(k[1]) == 2:
            return k[1][1]
    return None


def effect(method):
    """What using a queue means for this method: event, path state -> edge index or None."""
    def flag(val):
        def f(e, st):
            if e.kind == 'setattr' and e.name == 'collect_data' and isinstance(e.args[1], Const) and \
                    bool(e.args[1].v) is val:
                return queue_index(e.args[0])
        return f

    def cleared(e, st):
        if e.kind == 'setattr' and e.name == 'data' and queue_index(e.args[0]) is not None:
            c = st.content.get(key(e.args[1]))
            if isinstance(c, DDict) and not c.items and c.base is None and key(e.args[1])[0] == 'new':
                return queue_index(e.args[0])
        if e.kind == 'mutate' and e.name == 'clear':
            return data_queue(e.args[0])

    def fetched(e, st):
        if e.kind == 'obs' and e.name == 'fetch_data':
            return queue_index(e.args[0])

    def read(e, st):
        if e.kind in ('loop', 'loop0') and e.info:
            k = e.info.get('iter')
            if isinstance(k, tuple) and k[:1] == ('view',) and len(k) == 3:
                return data_queue(Sym(k[2]))
            return data_queue(Sym(k)) if isinstance(k, tuple) else None
    return {'start_collecting_data': flag(True), 'stop_collecting_data': flag(False), 'clear_data': cleared,
            'get_queue_data': fetched, 'get_agent_data': read}[method]


def all_effects(path_st, pick):
    """([(k, event)] outside loops, [(loop event, [(iteration path, [(k, event)])])], effects in inner loops?)"""
    tops, loops, deep = [], [], False
    for e in path_st.events:
        k = pick(e, path_st)
        if k is not None:
            tops.append((k, e))
        elif e.kind == 'loop' and e.info and e.info.get('paths') is not None:
            its, any_ = [], False
            for p in e.info['paths']:
                ks, l3, d3 = all_effects(p[1], pick)
                deep |= d3 or any(x is not None for _, x in l3)
                any_ |= bool(ks)
                its.append((p, ks))
            if any_:
                loops.append((e, its))
        elif e.kind == 'loop0' and e.info:
            loops.append((e, None))
    return tops, loops, deep


def match_literal(k, b, ep, case):
    """Truth that the condition says the edge type is one of those asked for, or None."""
    if not isinstance(k, tuple):
        return None
    if case == 'titer':
        if k[0] == 'in' and k[1] == ep and (k[2] == AT or k[2] in (('setof', AT), ('call', 'builtins.frozenset', AT))
                                            or is_copy(k[2], AT)):
            return b
    if case == 'tint':
        if k[0] == '==' and {k[1], k[2]} == {ep, AT1}:
            return b
        if k[0] == 'in' and k[1] == ep and k[2] in (('setof', AT1),):
            return b
    return None


def is_copy(k, what):
    while isinstance(k, tuple) and len(k) >= 3 and k[0] == 'call' and k[1] in (
            'builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.frozenset', 'numpy.array', 'numpy.unique'):
        k = k[2]
    return k == what or k == ('setof', what)


def judge(bools, lins, ep, idx, s, case):
    """(is the edge type asked for on this path, are there further conditions)."""
    m, extra = None, False
    for k, b in bools:
        r = match_literal(k, b, ep, case)
        if r is not None:
            m = r
        elif isinstance(k, tuple) and mentions(k, lambda x: x in (ep, idx)):
            extra = True
    facts = [(atom(idx).scale(-1), '<='), (atom(idx) - nE(NG) + const(1), '<='), (atom(s).scale(-1), '<='),
             (atom(s) - nE(NG) + const(1), '<=')]
    dom = Domain(lambda a: True)
    for l, kd in lins:
        if case == 'tint' and set(l.t) == {ep, AT1} and not l.c:
            if kd == '==':
                m = True if m is None else m
            continue
        if all(isinstance(a, tuple) and a[0] in ('qt', 'nt', 'clock', 'INF') for a in l.t):
            continue            # what is known of every queue
        if not dom.entails(facts, (l, kd)):
            if any(mentions(a, lambda x: x in (ep, idx)) for a in l.t):
                extra = True
    return m, extra


def select_task(prog, method, case):
    P = 'C18'
    ob = Obligations()
    cfg = SelCfg()
    cfg.case = case
    it, paths = explore_net(cfg, prog, method, mkargs=lambda it, ctx: ([], case_args(it, case)))
    ob.absorb(it, '%s(%s)' % (method, case), paths)
    m = it.class_attr(it.get_class(NETCLS), method)
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    pick = effect(method)
    rule = 'exactly the selected queues are used'
    one = {'qint': [AQ], 'edge': [('eidx', NG, AU, AV)], 'edgelist': [('eidx', NG, AU, AV)]}
    for c in ('edges2', 'edgestup', 'edgelists'):
        one[c] = [('eidx', NG, ('pu', ('c', i)), ('pv', ('c', i))) for i in range(2)]

    def say(ok, loc, msg, p):
        ob.check(P, rule, ok, loc or where, '%s, %s: %s' % (method, WORDS[case], msg), p)
    for p in paths:
        if p.kind == 'undecided':
            say(None, None, p.value, p)
            continue
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            lossy = v.lossy() or p.value.exc in ('<ext>',)
            say(None if lossy else False, p.value.where, 'raises %s' % p.value.exc, p)
            continue
        tops, loops, deep = all_effects(p.st, pick)
        if deep:
            say(None, None, 'effects in inner loops', p)
            continue
        eff = [l for l in loops if l[1] is not None]
        if case in one:
            want = one[case]
            if eff:
                # a loop over one or two known elements that was not unrolled
                ks = [k for _, its in eff for q, ks in its for k, _ in ks]
                say(None, None, 'not decided', p)
                continue
            got = [k for k, _ in tops]
            # two edges may be the same one
            ok = sorted(set(map(repr, got))) == sorted(set(map(repr, want)))
            if ok:
                say(True, tops[0][1].loc if tops else None, 'uses %s' % ', '.join(show(k) for k in got), p)
            else:
                say(None if v.lossy() or any(foreign(k) for k in got) else False, tops[0][1].loc if tops else None,
                    'uses %s' % (', '.join(show(k) for k in got) or 'no queue'), p)
            continue
        if tops:
            say(False, tops[0][1].loc, 'uses %s' % show(tops[0][0]), p)
            continue
        if not eff:
            # nothing to use: the sequence was empty
            empt = [l[0] for l in loops if l[1] is None]
            ok = any(empty_ok(cfg, it, e.info.get('iter'), case) for e in empt)
            say(True if ok else (None if v.lossy() else False), empt[-1].loc if empt else None, 'no queue is used', p)
            continue
        if len(eff) > 1:
            say(None, None, 'several loops', p)
            continue
        e, its = eff[0]
        ok, msg, loc = check_loop(cfg, it, e, its, case)
        say(ok, loc or e.loc, msg, p)
    return ob


WORDS = {'none': 'no selection', 'qint': 'queues=k', 'qlist': 'queues=[...]', 'edge': 'edge=(u, v)',
         'edgelist': 'edge=[u, v]', 'edges': 'edge=[(u, v), ...]', 'edges2': 'edge=[(u, v), (x, y)]',
         'edgestup': 'edge=((u, v), (x, y))', 'edgelists': 'edge=[[u, v], [x, y]]', 'tint': 'edge_type=t',
         'titer': 'edge_type=[...]'}


def empty_ok(cfg, it, k, case):
    k = cfg.wrapped(k)
    if case == 'qlist':
        return k == AQ
    if case == 'edges':
        return k == AE or isinstance(k, tuple) and k[0] == 'map' and k[1] == AE and not k[3] and not k[4]
    if case == 'none':
        return k == E2Q or is_all(k)
    if k == ('edges', NG):
        return True
    return isinstance(k, tuple) and k[:1] == ('map',) and map_ok(k, case)[0] is True


def is_all(k):
    return k in (('edges', NG), E2Q, SORTED + (('edges', NG),)) or (
        isinstance(k, tuple) and k[:2] == ('view', 'range') and k[2] == ('c', 0) and k[3] == ('nE', NG) and
        k[4] == ('c', 1))


def tolin(l):
    v = from_key(l)
    return v if isinstance(v, Lin) else atom(l)


def map_ok(k, case):
    """A filtered list of edge indices: does it hold exactly those of the asked types?"""
    b = ('bound',)
    if k[1] != ('edges', NG) and k[1] != SORTED + (('edges', NG),):
        return None, 'selected from %s' % show(k[1])
    a, c = ('su', 'sv') if k[1][0] == 'call' else ('eu', 'ev')
    u, w = (a, NG, b), (c, NG, b)
    idx, ep = ('eidx', NG, u, w), ('ep', NG, 'edge_type', u, w)
    if k[2] not in (idx, ('tup', u, w)):
        return (None if foreign(k[2]) else False), 'selects %s' % show(k[2])
    if len(k[3]) == 1 and not k[4] and k[3][0][0][0] == 'guard' and len(k[3][0][0]) == 4:
        _, _, yes, no = k[3][0][0]
        for alts, want in ((yes, True), (no, False)):
            for bools, ls in alts:
                m, _ = judge(bools, [(tolin(l), kd) for l, kd in ls], ep, idx, b, case)
                if m is None:
                    return None, 'edges are selected by more than their type'
                if m is not want:
                    return False, 'edges are %s' % ('not selected although their type is asked for' if m else
                                                    'selected although their type is not asked for')
        return True, 'edges of the types asked for are selected'
    lins = [(tolin(l), kd) for l, kd in k[4]]
    m, extra = judge(k[3], lins, ep, idx, b, case)
    if extra:
        return None, 'edges are selected by more than their type'
    if m is None:
        return False, 'edges are selected whatever their type'
    return m is True, 'edges are selected when their type is not asked for'


def everything(it, e, good, ix, src):
    """All queues are walked through: are they used without looking at the selection?"""
    for p, ks in good:
        for k, b in p[4]:
            if mentions(k, lambda x: x in (AQ, AE)):
                return None, 'the selection is looked up', e.loc
    if all(ks for _, ks in good):
        return False, 'uses every queue instead of the selected ones', e.loc
    return None, 'uses some of the queues', e.loc


def check_loop(cfg, it, e, its, case):
    ix = e.info['ix']
    src = cfg.wrapped(e.info['iter']) if e.info.get('iter') is not None else None
    good = [(p, ks) for p, ks in its if p[0] is None or p[0][0] == 'continue']
    if not e.info.get('complete'):
        return False, 'the loop over the selected queues ends early', e.loc
    root = src
    while True:
        root = cfg.wrapped(root)
        if isinstance(root, tuple) and root[:1] == ('map',) and len(root) == 5 and not root[3] and not root[4]:
            root = root[1]
        else:
            break
    EI = ('eindex', NG)
    whole = is_all(root) or root in (EI, ('view', 'values', EI), ('view', 'keys', EI), ('view', 'items', EI))
    if case in ('none', 'qlist', 'edges'):
        if case == 'none':
            if not whole:
                return (None if foreign(root) or not (isinstance(root, tuple) and root[:2] == ('view', 'range'))
                        else False), 'uses the queues %s' % show(src), e.loc
            dk = ('dkey', EI, ix)
            want = [ix] if root == E2Q or root[:2] == ('view', 'range') else \
                [('eidx', NG, (a, NG, ix), (b, NG, ix)) for a, b in (('eu', 'ev'), ('su', 'sv'))] + \
                [('eidx', NG, ('item', dk, ('c', 0)), ('item', dk, ('c', 1)))]
        elif whole:
            return everything(it, e, good, ix, src)
        elif case == 'qlist':
            want = [('elem', AQ, ix)]
            if root != AQ:
                return None, 'uses %s' % show(src), e.loc
        else:
            want = [('eidx', NG, ('pu', ix), ('pv', ix))]
            if root != AE:
                return None, 'uses %s' % show(src), e.loc
        for p, ks in good:
            got = {k for k, _ in ks}
            if len(got) == 1 and list(got)[0] in want:
                continue
            v = PV(it, p[1], p[2], p[0], None, 'iter')
            bad = [k for k in got if k not in want]
            return (None if v.lossy() or any(foreign(k) for k in got) else False), 'uses %s instead of %s' % (
                ', '.join(map(show, got)) or 'nothing', show(want[0])), ks[0][1].loc if ks else None
        return True, 'uses every queue selected', None
    # by type
    if isinstance(src, tuple) and src[:1] == ('map',):
        r, msg = map_ok(src, case)
        if r is not True:
            return r, msg, e.loc
        s = ('sel', src, ix) if src[3] or src[4] else ix
        a, c = ('su', 'sv') if src[1][0] == 'call' else ('eu', 'ev')
        idx = ('eidx', NG, (a, NG, s), (c, NG, s))
        for p, ks in good:
            if {k for k, _ in ks} != {idx}:
                v = PV(it, p[1], p[2], p[0], None, 'iter')
                return (None if v.lossy() else False), 'uses %s' % (', '.join(show(k) for k, _ in ks) or 'nothing'), \
                    ks[0][1].loc if ks else None
        return True, 'uses the queues of the types asked for', None
    if src in (('edges', NG), SORTED + (('edges', NG),), E2Q) or is_all(src):
        if src == E2Q or src[0] == 'view':
            idx = ix
            ep = ('etype', ('Q', ix))
        else:
            a, c = ('su', 'sv') if src[0] == 'call' else ('eu', 'ev')
            idx = ('eidx', NG, (a, NG, ix), (c, NG, ix))
            ep = ('ep', NG, 'edge_type', idx[2], idx[3])
        for p, ks in good:
            m, extra = judge(p[4], p[3], ep, idx, ix, case)
            got = {k for k, _ in ks}
            if extra:
                return None, 'more than the type decides', e.loc
            if m is None:
                return False, 'a queue is used whatever its type', ks[0][1].loc if ks else e.loc
            if got != ({idx} if m else set()):
                return False, 'a queue is %s' % ('not used although its type is asked for' if m else
                                                 'used although its type is not asked for'), e.loc
        return True, 'uses the queues of the types asked for', None
    return None, 'uses %s' % show(src), e.loc


SELECT_METHODS = ('start_collecting_data', 'stop_collecting_data', 'clear_data', 'get_queue_data', 'get_agent_data')
