"""Routing probabilities: set_transitions and transitions (C16)."""
from .common import *  # noqa
from .graphenv import *  # noqa

MAT = ('arg', 'mat')
COPIES = ('builtins.list', 'builtins.tuple', 'numpy.array', 'numpy.asarray', 'builtins.sorted', 'numpy.fromiter',
          'array.array')


class RouteCfg(GraphCfg):
    def is_int(self, a):
        if isinstance(a, tuple) and a[:2] == ('dkey', MAT):
            return False
        return GraphCfg.is_int(self, a)

    def dict_get(self, it, o, args, node):
        k = o.key
        if k[:2] == ('item', MAT) and len(args) == 2 and isinstance(args[1], Lin) and not args[1].t and \
                not args[1].c:
            return Sym(('get', k, key(args[0])))
        return GraphCfg.dict_get(self, it, o, args, node)


def prob(k, row, t, vkey, nd):
    """Is the term the given probability of going to t (zero if not given)?"""
    if nd:
        return k in (('item', MAT, ('tup', vkey, t)), ('item', ('item', MAT, vkey), t))
    return k == ('get', row, t)


def edge_targets(src, v, b=('bound',)):
    """What the element of a walk over the out edges of v has as its target, or None."""
    G = NG
    if src == ('oe', G, v) or src == ('succ', G, v):
        return ('ot', G, v, b)
    if src in (SORTED + (('oe', G, v),), SORTED + (('succ', G, v),)):
        return ('st', G, v, b)
    if isinstance(src, tuple) and src[:1] == ('nout',) and src[1] == v:
        return ('st', G, v, b)
    if isinstance(src, tuple) and src[:2] == ('view', 'enumerate') and len(src) == 4 and src[3] == ('c', 0):
        return edge_targets(src[2], v, b)
    return None


def strip(k):
    while isinstance(k, tuple) and len(k) >= 3 and k[0] == 'call' and k[1] in COPIES:
        k = k[3] if k[1] == 'array.array' and len(k) > 3 else k[2]
    return k


def edge_probs(k, row, v, nd):
    """True: the sequence of the given probabilities of the out edges of v; False: the
    probabilities of something else; None: not recognised."""
    k = strip(k)
    if k == ('view', 'values', row) or k == row:
        return False
    if isinstance(k, tuple) and k[:1] == ('map',) and len(k) == 5:
        if k[1] in (('view', 'values', row), ('view', 'items', row), row):
            return False
        t = edge_targets(k[1], v)
        if t is not None and not k[3] and not k[4]:
            return True if prob(k[2], row, t, v, nd) else (None if foreign(k[2]) else False)
        # entries of the row that are there: the missing ones are zero
        if t is not None and not nd and k[2] == ('item', row, t) and k[3] == ((('in', t, row), True),):
            return True
    return None


def is_sum(k):
    if isinstance(k, tuple) and k[:1] == ('call',) and len(k) == 3 and k[1] in (
            'builtins.sum', 'numpy.sum', 'math.fsum'):
        return k[2]
    if isinstance(k, tuple) and k[:1] == ('mcall',) and k[2:] == ('sum',):
        return k[1]
    return None


def literals(p):
    return list(p[4]), list(p[3])


def inner_literals(p, cfg, it):
    """Facts that hold for every element of the complete inner loops of an iteration."""
    out = []
    for e in p[1].events:
        if e.kind == 'loop' and e.info and e.info.get('complete') and e.info.get('paths'):
            good = [q for q in e.info['paths'] if q[0] is None or q[0][0] == 'continue']
            out.append((e, good))
    return out


class Checks:
    """What a pass over the given vertices establishes about each of them."""

    def __init__(self, it, nd):
        self.it, self.nd = it, nd
        self.keyok = self.sum1 = self.nonneg = False
        self.unknown = False
        self.wrong = None
        self.lax = False

    def look(self, p, v, row):
        """One completed iteration."""
        it, nd = self.it, self.nd
        bools, lins = literals(p)
        pv = PV(it, p[1], p[2], p[0], None, 'iter')
        r = Checks(it, nd)
        for k, b in bools:
            if not isinstance(k, tuple):
                continue
            kk = k[1] if k[0] == 'truth' else k
            if kk in (('in', v, ('nodes', NG)), ('in', v, NG), ('in', v, ('succ', NG, v))) or \
                    isinstance(kk, tuple) and kk[:2] == ('in', v) and kk[2] in (('adj', NG), ROUTES):
                if b:
                    r.keyok = True
                continue
            if isinstance(kk, tuple) and kk[0] == 'call' and kk[1] in ('numpy.isclose', 'math.isclose',
                                                                       'numpy.allclose') and len(kk) >= 4:
                a, c = kk[2], kk[3]
                if is_sum(a) is None:
                    a, c = c, a
                s = is_sum(a)
                if c == ('c', 1) and s is not None:
                    e = edge_probs(s, row, v, nd)
                    if e is True and b:
                        r.sum1 = True
                    elif e is False and b:
                        r.wrong = 'the sum checked is not that of the probabilities of the out edges'
                    elif e is None:
                        r.unknown = True
                    continue
            n = self.negatives(kk, row, v)
            if n is not None:
                if isinstance(n, tuple) and b != n[1]:
                    if n[2]:
                        r.nonneg = True
                    else:
                        r.lax = True
                elif not n:
                    r.unknown = True
                continue
            if mentions(kk, lambda x: x == row or x[:2] == ('item', MAT) if isinstance(x, tuple) else False):
                r.unknown = True
        for l, kd in lins:
            for a in l.t:
                s = is_sum(a)
                if s is not None:
                    e = edge_probs(s, row, v, nd)
                    eps = const(q('0.01')) if not isinstance(e, bool) or e else const(0)
                    if e is True:
                        x = atom(a)
                        if pv.ent(x - const(1) - eps, '<=') and pv.ent(const(1) - x - eps, '<='):
                            r.sum1 = True
                        else:
                            r.unknown = True
                    elif e is None:
                        r.unknown = True
                    else:
                        r.wrong = 'the sum checked is not that of the probabilities of the out edges'
                elif mentions(a, lambda x: isinstance(x, tuple) and (x == row or x[:2] == ('item', MAT))) and \
                        a != ('len', row):
                    r.unknown = True
        if pv.ent(outdeg(NG, v), '<='):
            r.sum1 = True                      # nothing to route
            if nd:
                r.nonneg = True
        if pv.ent(atom(('len', row)), '<='):
            r.nonneg = True                    # nothing given
        for e, good in inner_literals(p, None, it):
            for gp in good:
                ok = None
                x = PV(it, gp[1], gp[2], gp[0], None, 'iter')
                seen = False
                for l, kd in gp[3]:
                    for a in l.t:
                        if mentions(a, lambda y: isinstance(y, tuple) and (y == row or y[:2] == ('item', MAT)
                                                                           or y[:1] == ('get',))):
                            seen = True
                            if x.ent(atom(a).scale(-1), '<='):
                                ok = True
                if seen:
                    if ok and all(any(PV(it, g[1], g[2], g[0], None, 'iter').ent(atom(a).scale(-1), '<=')
                                      for l, kd in g[3] for a in l.t) for g in good):
                        r.nonneg = True
                    else:
                        r.unknown = True
        return r

    def negatives(self, k, row, v):
        """Does the condition say that some given probability is negative?  None: something else."""
        x, every = None, False
        if isinstance(k, tuple) and k[:1] == ('mcall',) and k[2:] in (('any',), ('all',)):
            x, every = k[1], k[2] == 'all'
        elif isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ('numpy.any', 'numpy.all') and len(k) == 3:
            x, every = k[2], k[1] == 'numpy.all'
        elif isinstance(k, tuple) and k[:1] in (('any',), ('all',)):
            x, every = k[1], k[0] == 'all'
        FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
        src = None
        if isinstance(x, tuple) and x[:1] == ('map',) and len(x) == 5 and not x[3] and not x[4]:
            src, x = x[1], x[2]
        if not isinstance(x, tuple):
            return None
        if x[:1] == ('cmp',) and len(x) == 4:
            x = x[1:]
        if len(x) != 3 or x[0] not in FLIP or not isinstance(x[1], tuple) or not isinstance(x[2], tuple):
            return None
        op, l, r = x
        if l[:1] == ('c',):
            op, l, r = FLIP[op], r, l
        y = l if src is None else ('map', src, l, (), ())
        if r[:1] != ('c',) or op not in ('<', '<=', '>', '>='):
            return None
        if op in (('>', '>=') if not every else ('<', '<=')):
            return 'other'             # an upper bound
        if len(r) != 2 or self.quantified(y, row, v) is not True:
            return False
        # turned down iff some value is < c (or <= c)
        strict = op == ('<' if not every else '>=')
        c = r[1]
        return 'neg', not every, c > 0 or c == 0, c < 0 or c == 0 and strict

    def quantified(self, y, row, v):
        y = strip(y)
        if y == MAT or y in (('item', MAT, v), ('item', MAT, ('tup', v, ('slice', None, None, None)))) and self.nd:
            return True
        if y == ('view', 'values', row):
            return True
        if isinstance(y, tuple) and y[:1] == ('map',) and not y[3] and not y[4]:
            if y[1] == ('view', 'values', row) and y[2] == ('item', row, ('dkey', row, ('bound',))):
                return True
            if y[1] == ('view', 'items', row) and y[2] == ('item', row, ('dkey', row, ('bound',))):
                return True
            if y[1] == row and y[2] == ('item', row, ('dkey', row, ('bound',))):
                return True
            if edge_probs(y, row, v, self.nd):
                return True
        return False


def vertex_of(k, ix, nd):
    """The vertex an iteration of a loop over the given vertices is about; row key."""
    if isinstance(k, tuple) and k[:2] == ('view', 'enumerate') and nd and k[2] in (ROUTES, MAT):
        return ix
    k = strip(k)
    if not nd:
        if k in (MAT, ('view', 'items', MAT), ('view', 'keys', MAT)):
            return ('dkey', MAT, ix)
        return None
    if isinstance(k, tuple) and k[:2] == ('view', 'range') and k[2] == ('c', 0) and k[4] == ('c', 1) and \
            k[3] in (('nV', NG), ('len', MAT)):
        return ix
    if k == ('nodes', NG):
        return ('node', NG, ix)
    return None


def stores(events):
    """Stores into the routing probabilities among these events: (event, base key, index, value)."""
    for e in events:
        if e.kind == 'setitem':
            b = key(e.args[0])
            if b == ROUTES or b[:1] == ('rp',):
                yield e
        elif e.kind == 'mutate' and e.args and (key(e.args[0]) == ROUTES or key(e.args[0])[:1] == ('rp',)):
            yield e
        elif e.kind == 'setattr' and e.name == '_route_probs' and key(e.args[0]) == NET:
            yield e
        elif e.kind == 'delitem' and (key(e.args[0]) == ROUTES or key(e.args[0])[:1] == ('rp',)):
            yield e


def any_store(events):
    for e in stores(events):
        return e
    for e in events:
        if e.kind == 'loop' and e.info and e.info.get('paths'):
            for p in e.info['paths']:
                if p[0] is None or p[0][0] == 'continue':
                    r = any_store(p[1].events)
                    if r is not None:
                        return r
    return None


def row_store(it, pv, events, v, row, nd):
    """Do these events of one iteration make the probabilities of the out edges of v the given ones?"""
    got, loc = None, None
    for e in events:
        if e.kind == 'setitem':
            b = key(e.args[0])
            if b == ROUTES:
                loc = e.loc
                if key(e.args[1]) != v:
                    return False, 'the probabilities of another vertex are set', loc
                it.st = pv.st
                r = edge_probs(strip(it.deep(e.args[2])), row, v, nd)
                k = strip(it.deep(e.args[2]))
                if r is True and edge_targets(k[1], v, ('bound',))[0] == 'ot':
                    return False, 'the probabilities are not in the order of the out edges', loc
                got = r
            elif b[:1] == ('rp',):
                return None, 'stores outside a loop over the out edges', e.loc
        elif e.kind == 'loop' and e.info and any_store([e]) is not None:
            k = e.info['iter']
            good = [q for q in e.info['paths'] if q[0] is None or q[0][0] == 'continue']
            if not e.info.get('complete'):
                return False, 'not all out edges are set', e.loc
            if not pv.eq(e.info['trip'], outdeg(NG, v)):
                return None, 'stores in a loop over %s' % show(k), e.loc
            j = e.info['ix']
            for q_ in good:
                st = list(stores(q_[1].events))
                if len(st) != 1 or st[0].kind != 'setitem':
                    if not st and pv.precise():
                        return False, 'an out edge keeps its old probability', e.loc
                    return None, 'several stores', e.loc
                s = st[0]
                loc = s.loc
                x = PV(it, q_[1], q_[2], q_[0], None, 'iter')
                if key(s.args[0]) != ('rp', v):
                    return (False if x.precise(s.args[0]) else None), 'the probabilities of another vertex are set', loc
                if not x.eq(s.args[1], from_key(j)):
                    t = key(s.args[1])
                    return (False if x.precise(s.args[1]) else None), 'the probability of another edge is set', loc
                t = ('st', NG, v, j)
                val = key(s.args[2])
                b = q_[1].bools
                good_ = prob(val, row, t, v, nd)
                if not nd and val == ('item', row, t) and b.get(('in', t, row)) is True:
                    good_ = True
                if not nd and val == ('c', 0) and b.get(('in', t, row)) is False:
                    good_ = True
                if not good_:
                    return (False if x.precise(s.args[2]) and not unknown_value(val) else None), \
                        'the probability stored is %s' % show(val), loc
            got = True
    return got, 'not recognised' if got is None else '', loc


def unknown_value(k):
    return mentions(k, lambda x: isinstance(x, tuple) and x[:1] in (('call',), ('mcall',), ('new',), ('fresh',)))


def has_reason(it, p, nd):
    """Does a rejecting path reject for a documented reason?"""
    b = p.st.bools
    ch = Checks(it, nd)
    v = None
    vs = set()
    for k in list(b) + [a for l, _ in p.st.lin for a in l.t]:
        mentions(k, lambda x: vs.add(x) if isinstance(x, tuple) and x[:2] == ('dkey', MAT) else False)
        if nd:
            mentions(k, lambda x: vs.add(x[2][1]) if isinstance(x, tuple) and x[:2] == ('item', MAT) and
                     isinstance(x[2], tuple) and x[2][:1] == ('tup',) else False)
            mentions(k, lambda x: vs.add(x[2]) if isinstance(x, tuple) and x[:2] == ('oe', NG) else False)
    unknown = None
    for k, val in b.items():
        if not isinstance(k, tuple):
            continue
        kk = k[1] if k[0] == 'truth' else k
        if kk[:1] == ('==',) and ('attr', MAT, 'shape') in kk[1:]:
            if not val:
                return True
            continue
        if kk[:1] == ('in',) and kk[2] in (('nodes', NG), NG, ('adj', NG)) and not val and kk[1] in vs:
            return True
        for v in vs or {None}:
            row = ('item', MAT, v)
            n = ch.negatives(kk, row, v)
            if isinstance(n, tuple) and val == n[1]:
                if n[3]:
                    return True
                unknown = (False, 'valid probabilities are rejected as too small')
            if kk[:1] == ('call',) and kk[1] in ('numpy.isclose', 'math.isclose', 'numpy.allclose') and not val:
                for s in (is_sum(kk[2]), is_sum(kk[3])):
                    if s is not None:
                        e = edge_probs(s, row, v, nd)
                        if e is True:
                            pv = PV(it, p.st, None, None, p, 'top')
                            if pv.ent(outdeg(NG, v).scale(-1), '<'):
                                return True
                            unknown = (False, 'a vertex without out edges is required to have probabilities')
                        elif e is False:
                            unknown = (False, 'the sum checked is not that of the probabilities of the out edges')
    if unknown is None:
        pv = PV(it, p.st, None, None, p, 'top')
        for k in [a for l, _ in p.st.lin for a in l.t]:
            if k[:2] == ('outdeg', NG):
                vs.add(k[2])
        for v in vs - {None}:
            row = ('item', MAT, v)
            asked = any(isinstance(k, tuple) and k[:1] not in (('isinst',), ('isnone',)) and mentions(
                k, lambda x: x == row or nd and isinstance(x, tuple) and x[:2] == ('item', MAT)) for k in b) or any(
                    mentions(a, lambda x: x == row) and a != ('len', row) for l, _ in p.st.lin for a in l.t)
            if pv.ent(outdeg(NG, v), '<=') and not asked:
                unknown = (False, 'a vertex without out edges is required to have probabilities')
    return unknown


def set_task(prog, case):
    P = 'C16'
    ob = Obligations()
    cfg = RouteCfg()
    nd = case == 'ndarray'

    def mk(it, ctx):
        it.st.bools[('isinst', MAT, ('ext', 'dict'))] = case == 'dict'
        it.st.bools[('isinst', MAT, ('ext', 'numpy.ndarray'))] = nd
        it.st.bools[('isinst', MAT, ('ext', 'collections.abc.Mapping'))] = case == 'dict'
        it.st.bools[('isnone', MAT)] = False
        return [Sym(MAT)], {}

    def setup(it, ctx):
        it.st.attrs[(NET, 'nV')] = nV(NG)
        it.st.attrs[(NET, 'nE')] = nE(NG)
    it, paths = explore_net(cfg, prog, 'set_transitions', setup, mk)
    ob.absorb(it, 'set_transitions(%s)' % case, paths)
    m = it.class_attr(it.get_class(NETCLS), 'set_transitions')
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    for p in paths:
        if p.kind == 'undecided':
            ob.check(P, 'analysis', None, where, p.value, p)
            continue
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            loc = p.value.where or where
            s = any_store(p.st.events)
            ob.check(P, 'a rejected change leaves every probability as it was', s is None, s.loc if s else loc,
                     'probabilities are changed although %s is raised at %s' % (p.value.exc, loc), p,
                     sample='%s without a store' % p.value.exc)
            want = ('ValueError',) if case != 'other' else ('TypeError',)
            ok = p.value.exc in want
            ob.check(P, 'invalid probabilities are rejected with the documented error',
                     True if ok else (None if v.lossy() or p.value.node is None or p.value.exc == '<ext>' else False),
                     loc, 'raises %s' % p.value.exc, p)
            if case != 'other' and ok:
                r = has_reason(it, p, nd)
                if isinstance(r, tuple):
                    r, msg = r
                else:
                    msg = 'rejected for another reason'
                ob.check(P, 'only invalid probabilities are rejected', r, loc, msg, p, sample='documented reason')
            continue
        if case == 'other':
            ob.check(P, 'invalid probabilities are rejected with the documented error', None if v.lossy() else False,
                     where, 'anything but a dict or an array is accepted', p)
            continue
        returned(ob, it, p, v, nd, where)
    return ob


def returned(ob, it, p, v, nd, where):
    P = 'C16'
    R = 'the probability of every out edge becomes the given one'
    # loops over the given vertices
    loops, empty = [], False
    for e in p.st.events:
        if e.kind == 'loop0' and e.info and vertex_of(e.info.get('iter'), ('ix', 0), nd) is not None:
            empty = True
        if e.kind == 'loop' and e.info and e.info.get('paths'):
            x = vertex_of(e.info['iter'], e.info['ix'], nd)
            if x is not None and e.info.get('complete'):
                loops.append((e, x))
    if empty and not loops:
        return            # no vertex is given
    done = None
    for e, x in loops:
        if any_store([e]) is None:
            continue
        row = ('item', MAT, x)
        done = True
        good = [q for q in e.info['paths'] if q[0] is None or q[0][0] == 'continue']
        for q_ in good:
            pv = PV(it, q_[1], q_[2], q_[0], None, 'iter')
            r, msg, loc = row_store(it, pv, q_[1].events, x, row, nd)
            if r is None and not msg.startswith('not'):
                pass
            if r is None and any_store(q_[1].events) is None:
                r = True if pv.ent(outdeg(NG, x), '<=') else (
                    None if pv.lossy() else False)
                msg = 'the probabilities of a given vertex are not changed'
            ob.check(P, R, r, loc or e.loc, msg, p, sample='every out edge of every given vertex')
    if done is None:
        s = any_store(p.st.events)
        if s is None:
            ob.check(P, R, None if v.lossy() else False, where, 'accepted without effect', p)
        else:
            ob.check(P, R, None, s.loc, 'stores are not in a loop over the given vertices', p)
    # validation
    tot = {'keyok': False, 'sum1': False, 'nonneg': False}
    unknown, wrong = False, None
    top = Checks(it, nd)
    for k, b in p.st.bools.items():
        kk = k[1] if isinstance(k, tuple) and k[0] == 'truth' else k
        n = top.negatives(kk, None, None)
        if isinstance(n, tuple):
            if b != n[1] and n[2]:
                tot['nonneg'] = True
        elif n is False:
            unknown = True
        elif n is None and mentions(kk, lambda x: x == MAT) and kk[:1] not in (('isinst',), ('isnone',), ('==',)):
            unknown = True
    about = lambda k: mentions(k, lambda x: x == MAT) and k != ('attr', MAT, 'shape') and not (
        isinstance(k, tuple) and k[:2] == ('item', ('attr', MAT, 'shape'))) and k not in (
            ('len', MAT), ('attr', MAT, 'ndim'), ('attr', MAT, 'size'))
    for l, _ in p.st.lin:
        for a in l.t:
            if not about(a) or any(mentions(a, lambda y: y == x) for e, x in loops):
                continue
            if smallest(a, MAT) and nd:
                if v.ent(atom(a).scale(-1), '<='):
                    tot['nonneg'] = True
                elif l.t == {a: -1} and l.c < 0:
                    pass                   # some negative values pass the test
                else:
                    unknown = True
            else:
                unknown = True
    if any(e.kind in ('loop', 'loop0') and e.info and about(e.info.get('iter') or ()) and not any(
            e is y for y, _ in loops) for e in p.st.events):
        unknown = True
    for e, x in loops:
        good = [q for q in e.info['paths'] if q[0] is None or q[0][0] == 'continue']
        rs = [top.look(q, x, ('item', MAT, x)) for q in good]
        for f in tot:
            if rs and all(getattr(r, f) for r in rs):
                tot[f] = True
        unknown |= any(r.unknown for r in rs)
        for r in rs:
            wrong = wrong or r.wrong
    names = {'sum1': 'probabilities that do not sum to one are rejected',
             'nonneg': 'negative probabilities are rejected', 'keyok': 'unknown vertices are rejected'}
    for f, rule in names.items():
        if f == 'keyok' and nd:
            shape = [b for k, b in p.st.bools.items() if isinstance(k, tuple) and k[:1] == ('==',) and
                     ('attr', MAT, 'shape') in k[1:] and
                     ('tup', ('nV', NG), ('nV', NG)) in k[1:]]
            some = any(mentions(k, lambda x: x == ('attr', MAT, 'shape') or x == ('len', MAT)) for k in
                       list(p.st.bools))
            if not shape:
                S = ('attr', MAT, 'shape')
                both = [any(v.ent(atom(x) - nV(NG), '==') for x in xs) for xs in (
                    (('item', S, ('c', 0)), ('len', MAT)), (('item', S, ('c', 1)),))]
                if all(both):
                    shape = [True]
            ok = True if True in shape else (None if some else False)
            msg = 'accepted without looking at the shape'
            if ok is None:
                bad = wrong_shape(p)
                if bad:
                    ok, msg = False, 'an array of the shape %s is accepted for 3 vertices' % (bad,)
            ob.check(P, 'arrays of the wrong shape are rejected', ok, where, msg, p)
            continue
        ok = tot[f]
        if not ok:
            ok = False if f == 'sum1' and wrong else (None if unknown else False)
        ob.check(P, rule, ok, where, wrong or 'accepted without checking that (%s)' % rule, p,
                 sample='checked for every given vertex')


def smallest(k, y):
    return isinstance(k, tuple) and (k[:1] == ('mcall',) and k[1:] == (y, 'min') or k[:1] == ('call',) and len(k) == 3 and
                                     k[1] in ('numpy.min', 'numpy.amin', 'numpy.nanmin') and k[2] == y)


def shape_term(k, s, n):
    """Value of a term about the shape of the array, for the shape s and n vertices."""
    S = ('attr', MAT, 'shape')
    if isinstance(k, Lin):
        k = key(k)
    if k == S:
        return s
    if k[:1] == ('c',) and len(k) == 2:
        return k[1]
    if k == ('nV', NG) or k == ('attr', NET, 'nV'):
        return n
    if k[:2] == ('item', S) and k[2][:1] == ('c',):
        i = int(k[2][1])
        return s[i] if -len(s) <= i < len(s) else None
    if k == ('len', MAT):
        return s[0]
    if k in (('len', S), ('attr', MAT, 'ndim')):
        return len(s)
    if k == ('attr', MAT, 'size'):
        return s[0] * s[1]
    if k[:1] == ('tup',):
        r = tuple(shape_term(x, s, n) for x in k[1:])
        return None if None in r else r
    if k[:1] == ('lin',):
        r = k[2]
        for a, c in k[1]:
            x = shape_term(a, s, n)
            if x is None or isinstance(x, tuple):
                return None
            r += c * x
        return r
    return None


def wrong_shape(p):
    """A wrong shape that passes every test of the shape on the path; None if there is none or it is not clear."""
    S = ('attr', MAT, 'shape')
    about = lambda k: mentions(k, lambda x: x in (S, ('len', MAT), ('attr', MAT, 'ndim'), ('attr', MAT, 'size')))
    n = 3
    for s in ((3, 4), (4, 3), (4, 4), (5, 7)):
        ok = True
        for k, b in p.st.bools.items():
            if not isinstance(k, tuple) or not about(k):
                continue
            x = k[1] if k[0] == 'truth' else k
            if x[:1] == ('cmp',):
                x = x[1:]
            if x[:1] not in (('==',), ('<',), ('<=',)) or len(x) != 3:
                return None
            l, r = shape_term(x[1], s, n), shape_term(x[2], s, n)
            if l is None or r is None or isinstance(l, tuple) != isinstance(r, tuple):
                return None
            if {'==': l == r, '<': l < r, '<=': l <= r}[x[0]] != b:
                ok = False
        for l, op in p.st.lin:
            if not any(about(a) for a in l.t):
                continue
            x = shape_term(l, s, n)
            if x is None:
                return None
            if not {'<=': x <= 0, '<': x < 0, '==': x == 0}[op]:
                ok = False
        if ok:
            return '%s x %s' % s
    return None


def transitions_task(prog):
    P = 'C16'
    ob = Obligations()
    for mat in (True, False):
        cfg = RouteCfg()

        def setup(it, ctx):
            it.st.attrs[(NET, 'nV')] = nV(NG)
            it.st.attrs[(NET, 'nE')] = nE(NG)
        it, paths = explore_net(cfg, prog, 'transitions', setup, lambda it, ctx: ([Const(mat)], {}))
        ob.absorb(it, 'transitions(%s)' % mat, paths)
        m = it.class_attr(it.get_class(NETCLS), 'transitions')
        where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
        R = 'transitions() reports every probability under its own edge'
        for p in paths:
            v = PV(it, p.st, None, None, p, 'top')
            if p.kind != 'return':
                ob.check(P, R, None if p.kind == 'undecided' or v.lossy() else False, where,
                         str(p.value), p)
                continue
            s = any_store(p.st.events)
            ob.check(P, 'reading the probabilities does not change them', s is None, s.loc if s else where,
                     'a routing probability is stored', p, sample='no store')
            ok, msg, loc = reported(it, p, v, mat)
            ob.check(P, R, ok, loc or where, msg, p, sample='every vertex and out edge')
    return ob


def reported(it, p, v, mat):
    it.st = p.st
    res = p.value
    if not isinstance(res, Sym):
        return None, 'returns %s' % show(key(res)), None
    rk = res.key
    fill = [e for e in p.st.events if e.kind in ('loop', 'loop0') and e.info and
            vertex_of(e.info.get('iter'), ('ix', 0), True) is not None]

    def fills(e):
        return e.kind == 'loop' and any(
            t.kind == 'setitem' and key(t.args[0]) == rk or t.kind == 'loop' and t.info and fills(t)
            for z in e.info.get('paths') or () for t in z[1].events)
    if any(fills(e) for e in fill):
        fill = [e for e in fill if e.kind == 'loop0' or fills(e)]
    if mat:
        o = p.st.origin.get(rk)
        sh = [e for e in p.st.events if e.kind == 'ext' and key(e.res if e.res is not None else NONE) == rk]
        z = it.deep(res)
        org = sh[0] if sh else None
        if org is not None:
            if org.name != 'numpy.zeros':
                return None, 'built by %s' % org.name, org.loc
            a = key(org.args[0])
            if a != ('tup', ('nV', NG), ('nV', NG)):
                return (None if foreign(a) else False), 'the matrix has shape %s' % show(a), org.loc
    if not fill:
        return None, 'not filled in a loop over the vertices', None
    for e in fill:
        if e.kind == 'loop0':
            continue
        if not e.info.get('complete'):
            return False, 'not every vertex is reported', e.loc
        x = vertex_of(e.info['iter'], e.info['ix'], True)
        for q_ in e.info['paths']:
            if q_[0] is not None and q_[0][0] != 'continue':
                continue
            pv = PV(it, q_[1], q_[2], q_[0], None, 'iter')
            it.st = q_[1]
            st = [s for s in q_[1].events if s.kind == 'setitem' and key(s.args[0]) == rk]
            inner = [s for s in q_[1].events if s.kind == 'loop' and s.info.get('paths') and any(
                t.kind == 'setitem' and key(t.args[0]) == rk for z in s.info['paths'] for t in z[1].events)]
            none = pv.ent(outdeg(NG, x), '<=')
            if mat:
                if not st and not inner:
                    if none:
                        continue
                    return (None if pv.lossy() else False), 'the probabilities of a vertex are not reported', e.loc
                if inner:
                    r, msg, loc = cells(it, inner, rk, x, lambda t: ('tup', x, t))
                    if r is not True:
                        return r, msg, loc
                    continue
                i, val = st[0].args[1], key(st[0].args[2])
                if not (isinstance(i, Tup) and len(i.items) == 2):
                    return None, 'stores at %s' % show(key(i)), st[0].loc
                if key(i.items[0]) != x:
                    return (None if foreign(key(i.items[0])) and not mentions(key(i.items[0]), lambda z: z == x)
                            else False), 'the probabilities are reported for vertex %s' % show(key(i.items[0])), st[0].loc
                if val != ('rp', x):
                    return (None if unknown_value(val) else False), 'reports %s' % show(val), st[0].loc
                pt = it.cfg.parts(it, i.items[1])
                kk = it.deep(i.items[1])
                if pt is None and kk == ('list',) and none:
                    continue
                if pt is not None and pt[0] in (('succ', NG, x), ('oe', NG, x)):
                    if not pt[1]:
                        return False, 'the probabilities are reported for the out edges in another order', st[0].loc
                    continue
                if isinstance(kk, tuple) and kk[:1] == ('map',) and not kk[3] and not kk[4]:
                    t = edge_targets(kk[1], x)
                    if t is not None and t[0] == 'st' and kk[2] == t:
                        continue
                    if other_order(kk[1]):
                        return False, 'the probabilities are reported for the out edges in another order', st[0].loc
                    if t is not None and not foreign(kk[2]):
                        return False, 'reports the probabilities under %s' % show(kk[2]), st[0].loc
                return None, 'stores at %s' % show(kk), st[0].loc
            # nested dictionaries
            if len(st) != 1:
                return None, '%d entries per vertex' % len(st), e.loc
            if key(st[0].args[1]) != x:
                return (None if not pv.precise(st[0].args[1]) and not mentions(key(st[0].args[1]), lambda z: z == x)
                        else False), 'reported for vertex %s' % show(key(st[0].args[1])), st[0].loc
            d = key(st[0].args[2])
            inner = [s for s in q_[1].events if s.kind == 'loop' and s.info.get('paths') and any(
                t.kind == 'setitem' and key(t.args[0]) == d for z in s.info['paths'] for t in z[1].events)]
            if not inner:
                if none:
                    continue
                return None, 'reports %s' % show(d), st[0].loc
            r, msg, loc = cells(it, inner, d, x, lambda t: t)
            if r is not True:
                return r, msg, loc
    return True, '', None


def cells(it, inner, rk, x, want):
    for s in inner:
        j = s.info['ix']
        k = s.info['iter']
        if isinstance(k, tuple) and k[:2] == ('view', 'zip') and len(k) == 4:
            seqs = k[2:]
            t = [edge_targets(z, x, j) for z in seqs if edge_targets(z, x, j) is not None]
            t = t[0] if t else None
        else:
            t = edge_targets(k, x, j)
        if t is None:
            odd = isinstance(k, tuple) and k[:2] == ('view', 'zip') and ('rp', x) in k[2:] and any(
                other_order(z) for z in k[2:])
            return (False if odd else None), 'filled in a loop over %s' % show(k), s.loc
        if not s.info.get('complete'):
            return False, 'not every out edge is reported', s.loc
        for z in s.info['paths']:
            if z[0] is not None and z[0][0] != 'continue':
                continue
            pv = PV(it, z[1], z[2], z[0], None, 'iter')
            ev = [c for c in z[1].events if c.kind == 'setitem' and key(c.args[0]) == rk]
            if len(ev) != 1:
                return (None if pv.lossy() or ev else False), 'an out edge is not reported', s.loc
            i, val = key(ev[0].args[1]), key(ev[0].args[2])
            ok_v = [(a, ('rp', x), j) for a in ('elem', 'item')]
            if i != want(('st', NG, x, j)) or val not in ok_v:
                bad = mentions(i, lambda y: isinstance(y, tuple) and y[:1] in (('call',), ('lv',))) or unknown_value(val)
                return (None if bad else False), 'reports %s under %s' % (show(val), show(i)), ev[0].loc
    return True, '', None
