"""What InfoQueue and InfoAgent know about the network (C30)."""
import itertools
from .common import *  # noqa
from .graphenv import *  # noqa
from .union_rules import unver, walk, nested, looping
from .qenv import QX

P = 'C30'
NUM = (int, Fraction)
Q, AG = ('arg', 'queue'), ('arg', 'agent')
ND = 'net_data'
QN, AN = ('attr', Q, ND), ('attr', AG, ND)
ALL = ('view', 'slice', ('c', 'NoneType', None), ('c', 'NoneType', None), ('c', 'NoneType', None))
EI = ('item', ('attr', Q, 'edge'), ('c', Fraction(2)))
HEADA, HEADD = ('item', ('attr', Q, '_arrivals'), ('c', Fraction(0))), ('item', ('attr', Q, '_departures'), ('c', Fraction(0)))


class InfoCfg(GraphCfg):
    stop = ()
    isagent = True
    own = None

    def typeof(self, it, k):
        if k == Q:
            return QX + 'InfoQueue'
        if k == AG:
            return QX + 'InfoAgent' if self.isagent else QX + 'ResourceAgent'
        return None

    def call(self, it, f, args, kw, node):
        fn = f.fn if isinstance(f, Bound) else f
        n = fn.node.name if isinstance(fn, Fn) and hasattr(fn.node, 'name') else None
        if n in self.stop and isinstance(f, Bound) and fn.node is not self.own:
            r = it.fresh('stop')
            it.event('stop', n, list(args), node, r, kw=kw)
            return r
        return GraphCfg.call(self, it, f, args, kw, node)


class Unknown(Exception):
    pass


# -- updates of whole rows ------------------------------------------------------------------
def rowof(k, ix):
    """'Q'/'A' if the term is the row that is being looked at, of the queue's or the agent's data."""
    k = unver(k)
    if isinstance(k, tuple) and k[:1] == ('item',) and unver(k[1]) in (QN, AN):
        i = k[2]
        if i == ix or isinstance(i, tuple) and i[:1] == ('tup',) and i[1] == ix and i[2:] == (ALL,):
            return 'Q' if unver(k[1]) == QN else 'A'
    return None


def cell(k, ix):
    """(owner, column) of a cell (or a column, for masks) of the data."""
    k = unver(k)
    if not isinstance(k, tuple) or k[:1] != ('item',):
        return None
    if unver(k[1]) in (QN, AN):
        i = k[2]
        if isinstance(i, tuple) and i[:1] == ('tup',) and len(i) == 3 and i[1] == ix and isinstance(i[2], tuple) \
                and i[2][:1] == ('c',) and isinstance(i[2][1], NUM):
            return ('Q' if unver(k[1]) == QN else 'A', int(i[2][1]) % 3)
    r = rowof(k[1], ix)
    if r and isinstance(k[2], tuple) and k[2][:1] == ('c',) and isinstance(k[2][1], NUM):
        return r, int(k[2][1]) % 3
    return None


def value(k, ix, env):
    if isinstance(k, tuple) and k[:1] == ('c',):
        if isinstance(k[1], NUM):
            return k[1]
        if k[1] == 'bool':
            return k[2]
    r = cell(k, ix)
    if r:
        return env[r]
    if isinstance(k, tuple) and k[:1] == ('lin',):
        t = k[2]
        for a, x in k[1]:
            t += value(a, ix, env) * x
        return t
    raise Unknown(k)


def holds(k, ix, env):
    """Truth of a condition for one row, given the order of the numbers in it."""
    if not isinstance(k, tuple):
        raise Unknown(k)
    if k[:2] == ('c', 'bool'):
        return k[2]
    if k[:1] == ('cmp',):
        if k[1] == 'not':
            return not holds(k[2], ix, env)
        if k[1] in ('and', 'or', 'band', 'bor'):
            a, b = holds(k[2], ix, env), holds(k[3], ix, env)
            return a and b if 'and' in k[1] else a or b
        a, b = value(k[2], ix, env), value(k[3], ix, env)
        return {'<': a < b, '<=': a <= b, '==': a == b}[k[1]]
    if k[:1] == ('call',) and k[1].startswith('numpy.'):
        f = k[1][6:]
        if f == 'logical_not':
            return not holds(k[2], ix, env)
        if f in ('logical_or', 'bitwise_or'):
            return holds(k[2], ix, env) or holds(k[3], ix, env)
        if f in ('logical_and', 'bitwise_and'):
            return holds(k[2], ix, env) and holds(k[3], ix, env)
        op = {'less': '<', 'less_equal': '<=', 'equal': '=='}.get(f)
        if op:
            return holds(('cmp', op, k[2], k[3]), ix, env)
        op = {'greater': '<', 'greater_equal': '<='}.get(f)
        if op:
            return holds(('cmp', op, k[3], k[2]), ix, env)
        if f in ('nonzero', 'flatnonzero', 'where', 'array', 'asarray') and len(k) == 3:
            return holds(k[2], ix, env)
    if k[:1] in (('bin',), ('arr',)) and k[1] in ('BitOr', 'BitAnd', 'Or', 'And'):
        a, b = holds(k[2], ix, env), holds(k[3], ix, env)
        return a or b if 'Or' in k[1] else a and b
    if k[:1] == ('un',) and k[1] == 'Invert':
        return not holds(k[2], ix, env)
    if k[:1] == ('item',) and k[2] == ('c', Fraction(0)):
        return holds(k[1], ix, env)
    raise Unknown(k)


def stamps(extra):
    """Every order type of two stamps (-1: never seen, else a time) and the other columns."""
    vals = {Fraction(-1), Fraction(0), Fraction(1), Fraction(2)} | {x + d for x in extra for d in (0, Fraction(1, 2))}
    vals = sorted(x for x in vals if x == -1 or x >= 0)
    for a, q in itertools.product(vals, vals):
        for o in ((0, 0, 0, 0), (-1, 3, 1, 0), (2, -1, 0, 1), (1, 0, 2, 3), (0, 2, 3, 0)):
            yield {('A', 0): a, ('Q', 0): q, ('A', 1): Fraction(o[0]), ('A', 2): Fraction(o[1]),
                   ('Q', 1): Fraction(o[2]), ('Q', 2): Fraction(o[3])}


def consts(k):
    return {x[1] for x in walk(k) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'c' and isinstance(x[1], NUM)
            and abs(x[1]) < 10 ** 6}


def masks(k):
    """Things a column subscript uses as its rows: the whole column in a mask."""
    return ALL


class Update:
    """rows of `base` satisfying `cond` become rows of the other side"""

    def __init__(self, cond, src, ix, loc, complete=True):
        self.cond, self.src, self.ix, self.loc, self.complete = cond, src, ix, loc, complete


def updates(it, p, base):
    """Row updates of an array of rows on a path, in order: Update, ('row', index, value, loc) or None (unknown)."""
    out = []
    for e in p.st.events:
        if e.kind == 'setitem' and unver(key(e.args[0])) == base:
            i, v = key(e.args[1]), key(e.args[2])
            r = i
            if i[:1] == ('tup',):
                if len(i) != 3 or i[2] != ALL:
                    out.append(('cells', i, v, e.loc))
                    continue
                r = i[1]
            mask = isinstance(r, tuple) and (r[:1] in (('cmp',), ('bin',), ('un',)) or r[:1] == ('call',) and
                                             r[1].startswith('numpy.')) or r[:1] == ('item',) and r[1][:1] == ('call',)
            if mask:
                vv = unver(v)
                src = None
                if vv[:1] == ('item',) and unver(vv[1]) in (QN, AN):
                    j = vv[2]
                    if j[:1] == ('tup',):
                        j = j[1] if j[2:] == (ALL,) else None
                    if j == r:
                        src = 'Q' if unver(vv[1]) == QN else 'A'
                    elif j is not None:
                        out.append(('other', r, j, e.loc))
                        continue
                out.append(Update(r, src, ALL, e.loc) if src else ('cells', i, v, e.loc))
            elif r == ALL and v[:2] == ('call', 'numpy.where'):
                out.append(where_(v, e.loc, base))
            elif r == ALL and whole(v):
                out.append(Update(('c', 'bool', True), whole(v), ALL, e.loc))
            else:
                out.append(('row', r, v, e.loc))
        elif e.kind == 'setattr' and e.args and unver(('attr', key(e.args[0]), e.name)) == base:
            v = e.args[-1]
            k = key(v)
            d = it.deep(v)
            if whole(k):
                out.append(Update(('c', 'bool', True), whole(k), ALL, e.loc))
                continue
            out.append(where_(d, e.loc, base) if d[:2] == ('call', 'numpy.where') else ('attr', None, k, e.loc))
        elif e.kind == 'loop':
            for q in e.info['paths']:
                inner = [x for x in q[1].events if x.kind in ('setitem', 'setattr', 'loop') and base in walk(
                    unver(key(x.args[0])) if x.kind == 'setitem' else unver(('attr', key(x.args[0]), x.name)) if x.kind == 'setattr' else ())]
                if not inner:
                    continue
                out.append(loop_update(it, e, base))
                break
    return out


def whole(k):
    """All rows of one of the tables."""
    k = unver(k)
    if isinstance(k, tuple) and k[:1] == ('mcall',) and k[2] == 'copy':
        k = k[1]
    if isinstance(k, tuple) and k[:1] == ('item',) and k[2] in (ALL, ('tup', ALL, ALL)):
        k = k[1]
    return {QN: 'Q', AN: 'A'}.get(unver(k))


def rows_none(p):
    """A path on which a loop over the rows finds none."""
    return any(e.kind == 'loop0' and e.info and any(x in (QN, AN) for x in walk(unver(e.info.get('iter') or ())))
               for e in p.st.events)


def where_(k, loc, base):
    """where(mask[:, None], x, y)"""
    if len(k) != 5:
        return ('cells', k, None, loc)
    m = k[2]
    if m[:1] == ('item',) and m[2][:1] == ('tup',) and m[2][1] == ALL:
        m = m[1]
    elif m[:1] == ('mcall',):
        m = m[1]
    x, y = ({QN: 'Q', AN: 'A'}.get(unver(z)) for z in k[3:5])
    own = 'Q' if base == QN else 'A'
    if x and y and x != y:
        return Update(m if x != own else ('cmp', 'not', m), 'A' if own == 'Q' else 'Q', ALL, loc)
    return ('cells', k, None, loc)


def loop_update(it, e, base):
    """for i in range(len(data)): if newer: data[i] = other[i]"""
    ix = e.info['ix']
    src = e.info['iter']
    rows = False
    if src[:2] == ('view', 'range') and src[2] == ('c', Fraction(0)) and src[4:] in ((('c', Fraction(1)),), ()):
        n = unver(src[3])
        rows = n in (('len', QN), ('len', AN), ('item', ('attr', QN, 'shape'), ('c', Fraction(0))),
                     ('item', ('attr', AN, 'shape'), ('c', Fraction(0))))
        if n[:1] == ('lin',) and len(n[1]) == 1 and n[1][0][1] == 1 and n[1][0][0] in (('len', QN), ('len', AN)):
            if n[2] < 0:
                return ('cells', src, None, e.loc)
            rows = True
    if not rows:
        return ('cells', src, None, e.loc)
    return ('loop', e, ix, e.loc)


def final(it, ups, own, env, eix=None):
    """Whose row it is after the updates (of a row that is not the one of the queue)."""
    row = own
    for u in ups:
        if isinstance(u, Update):
            if holds(u.cond, u.ix, env):
                row = u.src
        elif u[0] == 'loop':
            e, ix = u[1], u[2]
            if not e.info.get('complete'):
                raise Unknown('loop')
            hit = []
            for sig, st, start, newlin, newbools in e.info['paths']:
                if not feasible(it, st, newlin, newbools, ix, env):
                    continue
                r = row
                for x in st.events:
                    if x.kind == 'setitem':
                        i = key(x.args[1])
                        if i == ix or i[:1] == ('tup',) and i[1] == ix and i[2:] == (ALL,):
                            r = rowof(key(x.args[2]), ix)
                            if r is None:
                                raise Unknown('row')
                        elif unver(key(x.args[0])) in (QN, AN):
                            raise Unknown('cell')
                hit.append(r)
            if len(set(hit)) != 1:
                raise Unknown('paths')
            row = hit[0]
        elif u[0] == 'row' and u[1] == eix:
            continue
        else:
            raise Unknown(u[0])
    return row


def feasible(it, st, newlin, newbools, ix, env):
    for l, op in newlin:
        t = l.c
        for a, x in l.t.items():
            t += value(a, ix, env) * x
        if not {'<=': t <= 0, '<': t < 0, '==': t == 0}[op]:
            return False
    for b, v in (newbools.items() if isinstance(newbools, dict) else newbools):
        if b[:1] in (('==',), ('cmp',)):
            k = ('cmp',) + tuple(b) if b[0] == '==' else b
            if holds(k, ix, env) != v:
                return False
        else:
            raise Unknown(b)
    return True


def fresher(ob, it, p, own, rule, where, ups, eix=None):
    """After the updates each row is the fresher one of the two."""
    other = 'Q' if own == 'A' else 'A'
    if rows_none(p):
        return
    for u in ups:
        if not isinstance(u, Update) and u[0] == 'other':
            ob.check(P, rule, False, u[3], 'rows %s are replaced by other rows %s' % (show(u[1])[:80], show(u[2])[:80]), p)
            return
    ks = set()
    for u in ups:
        if isinstance(u, Update):
            ks |= consts(u.cond)
    try:
        for env in stamps(ks):
            r = final(it, ups, own, env, eix)
            a, b = env[(own, 0)], env[(other, 0)]
            if b > a and r == own or a > b and r == other:
                ob.check(P, rule, False, ups[0].loc if ups and isinstance(ups[0], Update) else where,
                         'a row stamped %s keeps what the %s knows, stamped %s' % (
                             (b, {'A': 'agent', 'Q': 'queue'}[own], a) if r == own else
                             (a, {'A': 'agent', 'Q': 'queue'}[other], b)) if r == own else
                         'a row stamped %s is replaced by one stamped %s' % (a, b), p)
                return
            if own == 'Q' and a == b >= 0 and r == other:
                ob.check(P, rule, False, ups[0].loc if ups and isinstance(ups[0], Update) else where,
                         'a row is replaced by one that is not newer (both stamped %s)' % (a,), p)
                return
    except Unknown as x:
        ob.check(P, rule, None, where, 'not understood: %s' % (str(x)[:200],), p)
        return
    ob.check(P, rule, True, where, '', p, 'all order types of the two stamps')


def method(it, cls, name):
    m = it.class_attr(it.get_class(QX + cls), name)
    if not m or not isinstance(m[0], Fn):
        raise AnchorMissing('%s.%s' % (cls, name))
    return m[0]


def explore(prog, cls, name, args, kw, setup=None, stop=(), isagent=True, me=None):
    cfg = InfoCfg()
    cfg.stop, cfg.isagent = stop, isagent
    it = Interp(prog, cfg)
    ctx = {}

    def pre(it):
        if setup:
            setup(it)
        return ctx

    def run(it, _):
        m = method(it, cls, name)
        cfg.own = m.node
        ctx['where'] = '%s:%s' % (m.mod.rel, m.node.lineno)
        return it.call(Bound(Sym(me or (Q if cls == 'InfoQueue' else AG)), m), args, kw, None)
    ps = it.explore(pre, run)
    return it, ps, ctx.get('where', '?')


def extract_task(prog):
    ob = Obligations()
    R1, R2 = 'an arriving agent hands over what it knows better', 'other agents change nothing'
    for isagent in (True, False):
        it, ps, where = explore(prog, 'InfoQueue', 'extract_information', [Sym(AG)], {}, None, (), isagent)
        ob.absorb(it, 'extract_information(%s)' % ('InfoAgent' if isagent else 'other'), ps)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, R1, None, where, '%s' % (p.value,), p)
                continue
            ups = updates(it, p, QN)
            back = updates(it, p, AN)
            if isagent:
                fresher(ob, it, p, 'Q', R1, where, ups)
                ob.check(P, R1, True if not back else None, where, 'the agent changes too', p, 'the agent keeps its own')
            else:
                ob.check(P, R2, True if not ups and not back else None, where, 'data changes', p, 'no change')
    return ob


def action_task(prog, when):
    """InfoAgent.queue_action at an InfoQueue: when is None (no argument), 0, 1 or 2."""
    ob = Obligations()
    R1, R2, R3, R4 = ('an agent learns what the queue knows better', 'an agent stamps what it sees at the queue',
                      'a wait is counted once, when the agent departs', 'nothing happens at other queues')
    it, ps, where = explore(prog, 'InfoAgent', 'queue_action',
                            [Sym(Q)] + ([] if when is None else [const(when)]), {},
                            lambda it: it.assume(const(1) - atom(('attr', Q, 'num_servers')), '<='))
    ob.absorb(it, 'queue_action(%s)' % when, ps)
    ST = ('attr', AG, 'stats')
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        ups = updates(it, p, AN)
        fresher(ob, it, p, 'A', R1, where, ups, EI)
        ob.check(P, R1, True if not updates(it, p, QN) else None, where, 'the queue changes too', p, 'the queue keeps its own')
        rows = [(i, u) for i, u in enumerate(ups) if not isinstance(u, Update) and u[0] == 'row']
        own = [(i, u) for i, u in rows if u[1] == EI]
        if not own:
            odd = [u for u in ups if not isinstance(u, Update) and u[0] in ('cells', 'attr', 'row')]
            ob.check(P, R2, None if odd else False, where, 'no stamp for the edge of the queue', p)
        else:
            i, u = own[-1]
            later = any(isinstance(x, Update) or x[0] != 'row' for x in ups[i + 1:])
            v = unver(row_value(it, u[2]))
            nn, ns = ('attr', Q, 'num_servers'), ('attr', Q, 'num_system')
            want = ('tup', ('attr', Q, '_current_t'), nn, ('div', ns, nn))
            if v == want:
                ok = True if not later else None
            elif v[:1] == ('tup',) and len(v) == 4:
                vocab = all(x == ('c',) or not isinstance(x, tuple) or x[0] in ('tup', 'attr', 'div', 'c', 'lin', 'arg', 'item', 'len')
                            or isinstance(x[0], tuple) for x in walk(v))
                ok = False if vocab and Q in walk(v) else None
            else:
                ok = None
            ob.check(P, R2, ok, u[3], 'the stamp is %s' % show(v), p, '(time, servers, load)')
        # statistics of the visit
        adds = [e for e in p.st.events if e.kind == 'setitem' and unver(key(e.args[0])) == ST]
        deep = [e for e in nested(p.st.events) if e.kind == 'setitem' and unver(key(e.args[0])) == ST]
        last = ('item', ('item', ('attr', Q, 'data'), ('attr', AG, 'agent_id')), ('c', Fraction(-1)))
        wait = atom(('item', last, ('c', Fraction(1)))) - atom(('item', last, ('c', Fraction(0))))
        known = p.st.bools.get(('in', ('attr', AG, 'agent_id'), ('attr', Q, 'data')))
        if when in (0, 1):
            bad = [e for e in adds if changed(it, e, ST)]
            if len(deep) != len(adds):
                ob.check(P, R3, None, where, 'statistics in a loop', p)
            else:
                ob.check(P, R3, False if bad else True, bad[0].loc if bad else where, 'counts a wait at %s already' % (
                    'the arrival' if when == 0 else 'the start of the service'), p, 'no change')
            continue
        if known is False:
            ob.check(P, R3, True if not adds else None, where, 'counts a visit without data', p, 'no data, no change')
            continue
        if known is None:
            ob.check(P, R3, None if adds or deep else False, where, 'statistics do not depend on the data', p)
            continue
        total = [e for e in adds if key(e.args[1]) == ('tup', EI, ('c', Fraction(0)))]
        times = [e for e in adds if key(e.args[1]) == ('tup', EI, ('c', Fraction(1)))]
        cell0 = ('item', ST, ('tup', EI, ('c', Fraction(0))))
        cell1 = ('item', ST, ('tup', EI, ('c', Fraction(1))))
        if len(total) == 1:
            x = num(total[0].args[2])
            d = strip_lin(x, cell0)
            ok = None
            if d is not None:
                d = d - wait
                ok = True if not d.t and d.c == 0 else (False if not foreign_(d, last) else None)
            ob.check(P, R3, ok, total[0].loc, 'the wait added is %s' % show(key(total[0].args[2])), p, 'wait of the last visit')
        else:
            ob.check(P, R3, None if deep else False, where, 'no wait is added', p)
        v = PV(it, p.st, None, None, p, 'top')
        inc = None
        if len(times) <= 1:
            inc = const(0) if not times else strip_lin(num(times[0].args[2]), cell1)
        if inc is not None and not inc.t:
            if inc.c == 1:
                ok = True if v.ent(strip0(wait), '<') else (False if v.feas((wait, '<=')) and not fuzzy(p) else None)
            elif inc.c == 0:
                ok = True if v.ent(wait, '<=') else (False if v.feas((strip0(wait), '<')) and not fuzzy(p) else None)
            else:
                ok = False
            ob.check(P, R3, ok, times[0].loc if times else where, 'the number of waits goes up by %s' % inc.c, p, '1 if it waited')
        else:
            ob.check(P, R3, None, where, 'the number of waits', p)
    return ob


def row_value(it, k):
    k2 = it.deep(Sym(k)) if k[:1] in (('new',), ('at',)) else k
    if k2[:1] == ('call',) and k2[1] in ('numpy.array', 'numpy.asarray') and len(k2) == 3:
        k2 = k2[2]
    return ('tup',) + tuple(k2[1:]) if k2[:1] == ('list',) else k2


def strip0(l):
    return l.scale(-1)


def fuzzy(p):
    return any(b[:1] not in (('in',), ('isinst',), ('==',), ('isnone',)) for b in p.st.bools)


def strip_lin(x, cellk):
    """x minus the old value of the cell"""
    if x is None:
        return None
    y = x - atom(cellk)
    ks = {unver(a): n for a, n in x.t.items()}
    if ks.get(cellk) != 1:
        return None
    out = const(x.c)
    for a, n in x.t.items():
        if unver(a) != cellk:
            out = out + atom(unver(a)).scale(n)
    return out


def foreign_(d, last):
    return any(not (isinstance(a, tuple) and a[:1] == ('item',) and a[1] == last) for a in d.t)


def changed(it, e, ST):
    """Does a store change the cell?"""
    v = num(e.args[2])
    if v is None:
        return True
    d = strip_lin(v, ('item', ST, key(e.args[1])))
    return d is None or bool(d.t) or d.c != 0


def event_task(prog):
    """InfoQueue.next_event: an arriving agent is asked first."""
    ob = Obligations()
    R1, R2 = 'whoever arrives next is asked before the event', 'then the event happens as in a LossQueue'
    at_, dt = ('attr', HEADA, '_time'), ('attr', HEADD, '_time')
    for case in ('arrival', 'tie', 'departure'):
        def setup(it):
            a, d = atom(at_), atom(dt)
            it.assume(a - INF, '<')
            it.assume(d - a if case == 'departure' else a - d, '<=' if case == 'tie' else '<')
            if case == 'tie':
                it.assume(d - a, '<=')
        it, ps, where = explore(prog, 'InfoQueue', 'next_event', [], {}, setup, ('extract_information', 'next_event'))
        ob.absorb(it, 'next_event(%s)' % case, ps)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, R2, None, where, '%s' % (p.value,), p)
                continue
            ev = [e for e in p.st.events if e.kind == 'stop']
            sup = [e for e in ev if e.name == 'next_event']
            ext = [e for e in ev if e.name == 'extract_information']
            ob.check(P, R2, True if len(sup) == 1 and key(p.value) == key(sup[0].res) else (None if not sup else False), where,
                     'the result is %s' % show(key(p.value)), p, 'the departing agent')
            right = [e for e in ext if unver(key(e.args[0])) == HEADA]
            early = [e for e in right if not sup or ev.index(e) < ev.index(sup[0])]
            if case == 'departure':
                # asking the next arrival early would make its news known before it is there
                ob.check(P, R1, True if not ext else False, ext[0].loc if ext else where,
                         'an agent is asked although somebody departs', p, 'nobody is asked')
            else:
                stray = any(e.kind in ('setitem', 'setattr', 'extsuper') for e in p.st.events)
                ok = True if early and len(ext) == len(right) else (
                    None if stray or ext and not right or not sup else False)
                ob.check(P, R1, ok, where, 'the arriving agent is %s' % (
                    'asked too late' if right else 'not asked'), p, 'asked first')
    return ob


def blank(k, n):
    """Is the array one of n rows of three times -1 (True/False/None)?"""
    k = unver(k)
    if not isinstance(k, tuple):
        return None
    shape = ('tup', n, ('c', Fraction(3)))
    if k[:2] == ('call', 'numpy.full') and len(k) >= 4:
        return k[2] == shape and k[3] == ('c', Fraction(-1))
    m = None
    if k[:1] in (('arr',), ('bin',)) and len(k) == 4:
        o, a, b = k[1:]
        for x, y in ((a, b), (b, a)):
            if x[:1] == ('call',) and x[1] in ('numpy.ones', 'numpy.zeros'):
                one = 1 if x[1] == 'numpy.ones' else 0
                if y[:1] == ('c',) and isinstance(y[1], NUM):
                    m = {'Mult': one * y[1], 'Add': one + y[1], 'Sub': (one - y[1] if x is a else y[1] - one)}.get(o)
                    return None if m is None else (m == -1 and x[2] == shape)
    if k[:1] == ('neg',) and k[1][:2] == ('call', 'numpy.ones'):
        return k[1][2] == shape
    if k[:1] == ('lin',) and len(k[1]) == 1:
        a, x = k[1][0]
        if a[:1] == ('call',) and a[1] in ('numpy.ones', 'numpy.zeros'):
            one = 1 if a[1] == 'numpy.ones' else 0
            return one * x + k[2] == -1 and a[2] == shape
    if k[:1] == ('call',) and k[1] in ('numpy.ones', 'numpy.zeros', 'numpy.empty'):
        return False
    return None


class BlankCfg(InfoCfg):
    def binop(self, it, o, a, b, node):
        def arr(v):
            return isinstance(v, Sym) and (v.key[:1] == ('new',) and (v.key[1] == 'arr' or v.key[1].startswith('numpy.')))
        if arr(a) or arr(b):
            r = it.new('arr')
            it.st.origin[r.key] = ('arr', o, it.deep(a), it.deep(b))
            return r
        return None


def size_task(prog):
    ob = Obligations()
    R1, R2, R3, R4, R5 = (
        'a queue starts without knowledge of every edge', 'an agent starts without knowledge of every edge',
        'clear forgets everything', 'a new agent gets as many rows as the queue', 'beliefs and losses are in their columns')
    n = ('arg', 'n')

    def data(cls, name, args, kw, rule, want, me):
        cfg = BlankCfg()
        it = Interp(prog, cfg)
        ctx = {'where': '?'}

        def pre(it):
            it.st.bools[('isinst', n, ('ext', 'numbers.Integral'))] = True
            return {}

        def run(it, _):
            m = method(it, cls, name)
            ctx['where'] = '%s:%s' % (m.mod.rel, m.node.lineno)
            return it.call(Bound(Sym(me), m), args, kw, None)
        ps = it.explore(pre, run)
        ob.absorb(it, '%s.%s' % (cls, name), ps)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, rule, None, ctx['where'], '%s' % (p.value,), p)
                continue
            sets = [e for e in p.st.events if e.kind == 'setattr' and e.name == ND and key(e.args[0]) == me]
            if not sets:
                fills = [e for e in p.st.events if e.kind in ('mcall', 'setitem') and unver(key(e.args[0])) == ('attr', me, ND)]
                ok = None if fills else False
                if name == 'clear' and fills and fills[-1].kind == 'mcall' and fills[-1].name == 'fill':
                    ok = key(fills[-1].args[1]) == ('c', Fraction(-1))
                ob.check(P, rule, ok, ctx['where'], 'net_data is not set', p)
                continue
            d = it.deep(sets[-1].args[-1])
            ok = blank(d, want)
            ob.check(P, rule, ok, sets[-1].loc, 'net_data is %s' % show(d), p, '-1 in every cell')
    data('InfoQueue', 'networking', [Sym(n)], {}, R1, n, Q)
    data('InfoQueue', '__init__', [], {'net_size': Sym(n)}, R1, n, Q)
    data('InfoAgent', '__init__', [Tup([const(0), const(0)])], {'net_size': Sym(n)}, R2, n, AG)
    data('InfoQueue', 'clear', [], {}, R3, ('len', QN), Q)
    # new agents
    it, ps, where = explore(prog, 'InfoQueue', '_add_arrival', [], {}, None)
    ob.absorb(it, '_add_arrival', ps)
    for p in ps:
        it.st = p.st
        for e in p.st.events:
            if e.kind == 'callback' and 'AgentFactory' in str(e.name) or e.kind in ('new', 'mcall') and e.name == 'AgentFactory':
                a = [x for x in e.args if isinstance(x, (Tup, Lin, Sym))]
                while a and not isinstance(a[0], Tup):
                    a = a[1:]
                x = a[1] if len(a) > 1 else (e.kw or {}).get('net_size')
                ok = False if x is None else (True if unver(key(x)) in (
                    ('len', QN), ('item', ('attr', QN, 'shape'), ('c', Fraction(0)))) else (
                        False if QN in walk(unver(key(x))) or key(x)[:1] == ('c',) else None))
                ob.check(P, R4, ok, e.loc, 'a new agent has %s rows' % (show(key(x)) if x is not None else 'no'), p, 'len(net_data)')
    # reading
    it, ps, where = explore(prog, 'InfoAgent', 'get_beliefs', [], {})
    ob.absorb(it, 'get_beliefs', ps)
    for p in ps:
        it.st = p.st
        k = unver(it.deep(p.value)) if p.kind == 'return' else None
        if k is not None and k[:1] == ('mcall',) and k[2] == 'copy':
            k = k[1]
        ok = None
        if k and k[:1] == ('item',) and k[1] == AN:
            ok = k[2] in (('tup', ALL, ('c', Fraction(2))), ('tup', ALL, ('c', Fraction(-1))))
        ob.check(P, R5, ok, where, 'get_beliefs returns %s' % show(k or ()), p, 'the loads')
    e_ = ('arg', 'edge')
    it, ps, where = explore(prog, 'InfoAgent', 'add_loss', [Sym(e_)], {})
    ob.absorb(it, 'add_loss', ps)
    ST = ('attr', AG, 'stats')
    c2 = ('c', Fraction(2))
    for p in ps:
        it.st = p.st
        ev = [e for e in p.st.events if e.kind == 'setitem' and unver(key(e.args[0])) == ST]
        ok, msg = None, 'no loss is counted'
        if p.kind == 'return' and not ev:
            ok = False
        elif len(ev) == 1:
            i = key(ev[0].args[1])
            d = strip_lin(num(ev[0].args[2]), ('item', ST, i))
            msg = '%s changes' % show(i)
            if i[:1] == ('tup',) and d is not None and not d.t:
                ok = i == ('tup', ('item', e_, c2), c2) and d.c == 1
        ob.check(P, R5, ok, ev[0].loc if ev else where, msg, p, 'one more loss of the edge')
    return ob
