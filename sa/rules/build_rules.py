"""Building a network: one configured queue per edge (C20), the index tables and the
initial state (C21)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from .route_rules import strip

G, G2 = ('arg', 'g'), ('arg', 'g2')
QC, QA = ('arg', 'q_classes'), ('arg', 'q_args')
DEFC = ('attr', NET, 'default_classes')
BLOCK = ('arg', 'blocking')
CASES = ('given', 'noclasses', 'noargs', 'adjust')
BND = ('bound',)
KN, KCAP, KCOL = (key(Const(x)) for x in ('num_servers', 'cap', 'colors'))


class BuildCfg(GraphCfg):
    graphs = (G, G2)

    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if n == '_test_graph':
            it.event('testgraph', n, list(args), node)
            return Sym(G)
        if n == 'adjacency2graph':
            it.event('a2g', n, list(args), node, kw=kw)
            return Sym(('arg', 'a2g'))
        if isinstance(f, ClassV) and f.qual == 'QueueNetworkDiGraph':
            it.event('ngraph', f.qual, list(args), node, kw=kw)
            return Sym(G2)
        return GraphCfg.call(self, it, f, args, kw, node)


def build(prog, case):
    cfg = BuildCfg()
    it = Interp(prog, cfg)

    def arg(n):
        return Sym(('arg', n))

    def pre(it):
        st = it.st
        for a in ('q_classes', 'q_args', 'colors', 'g'):
            st.bools[('isnone', ('arg', a))] = False
        st.bools[('isinst', BLOCK, ('ext', 'str'))] = case != 'badblock'
        st.bools[('isinst', ('arg', 'seed'), ('ext', 'numbers.Integral'))] = False
        for g in (G, G2):
            it.assume(const(1) - nE(g), '<=')
            it.assume(const(1) - nV(g), '<=')
        return {}

    def run(it, ctx):
        m = it.class_attr(it.get_class(NETCLS), '__init__')[0]
        kw = {n: arg(n) for n in ('colors', 'q_classes', 'q_args', 'blocking', 'max_agents')}
        if case == 'noclasses':
            kw['q_classes'] = NONE
        if case == 'noargs':
            kw['q_args'] = NONE
        kw['adjust_graph'] = Const(case == 'adjust')
        return it.call(Bound(Sym(NET), m), [arg('g')], kw, None)
    return cfg, it, it.explore(pre, run), m_where(it)


def m_where(it):
    m = it.class_attr(it.get_class(NETCLS), '__init__')[0]
    return '%s:%s' % (m.mod.rel, m.node.lineno)


def classless(p):
    """A run without a class for any edge type: the graph has edges, so it is not a use of the library."""
    for e in p.st.events:
        if e.kind == 'loop0' and e.info:
            k = e.info.get('iter')
            if isinstance(k, tuple) and k[:2] == ('bin', 'Sub') and k[3] in (('list',), ('dict',), ('set',)):
                k = k[2]
            if isinstance(k, tuple) and (keyset(k) in (QC, DEFC) or k[:1] == ('lin',) and len(k[1]) == 1 and
                                         keyset(k[1][0][0]) in (QC, DEFC)):
                return True
    return False


def keyless(p):
    """A missing key, on a run where nothing was filled in for reasons that are not understood."""
    return 'KeyError' in str(p.value) and any(
        e.kind == 'loop0' and e.info and mentions(rooted(e.info.get('iter')), (QC, DEFC, QA)) for e in p.st.events)


def root(k):
    """The object behind a version of it."""
    while isinstance(k, tuple) and k[:1] == ('at',):
        k = k[1]
    return k


def rooted(k):
    """A term with the versions of the objects dropped."""
    if not isinstance(k, tuple):
        return k
    if k[:1] == ('at',) and len(k) == 3:
        return rooted(k[1])
    return tuple(rooted(x) for x in k)


def loops(p):
    """All (loop event, iteration view, outer iteration view or None) of a path."""
    def rec(events, outer):
        for e in events:
            if e.kind == 'loop' and e.info and e.info.get('paths'):
                for q in e.info['paths']:
                    yield e, q, outer
                    yield from rec(q[1].events, q)
    yield from rec(p.st.events, None)


def build_task(prog, case, pids):
    ob = Obligations()
    cfg, it, paths, where = build(prog, case)
    ob.absorb(it, 'QueueNetwork.__init__ (%s)' % case, paths)
    rets = 0
    for p in paths:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind != 'return' and classless(p):
            continue
        if p.kind != 'return':
            for P in pids:
                ob.check(P, 'a network is built', None if p.kind == 'undecided' or v.lossy() or keyless(p) else False, where,
                         'building a network from a valid graph ends with %s' % (p.value,), p)
            continue
        rets += 1
        net = p.st.attrs.get((NET, 'g'))
        g = key(net) if net is not None else None
        for P in pids:
            r = True if g == (G2 if case == 'adjust' else G) else (
                None if g is not None and (foreign(g) or g[:1] in (('call',), ('new',))) else False)
            ob.check(P, 'the network works on the graph it was given', r, where, 'the graph is %s' % show(g), p,
                     'the prepared graph is stored')
        if g not in (G, G2):
            continue
        if 'C20' in pids:
            queues(ob, it, cfg, p, v, g, case, where)
        if 'C21' in pids:
            tables(ob, it, cfg, p, v, g, case, where)
    return ob


# ------------------------------------------------------------------ C20

def queues(ob, it, cfg, p, v, g, case, where):
    P = 'C20'
    ROW = 'edge2queue holds one queue per edge, at the index of the edge'
    q = p.st.attrs.get((NET, 'edge2queue'))
    if q is None:
        return ob.check(P, ROW, None if v.lossy() else False, where, 'the network has no edge2queue', p)
    lst = root(key(q))
    sites = []
    for e, path, outer in loops(p):
        for x in path[1].events:
            if x.kind == 'setitem' and root(key(x.args[0])) == lst:
                if (e, outer) not in sites:
                    sites.append((e, outer))
    sites = [(e, o) for e, o in sites if not initial(it, e, lst)]
    if len(sites) != 1 or sites[0][1] is not None:
        return ob.check(P, ROW, None, where, 'edge2queue is not filled by one loop (%d)' % len(sites), p)
    e = sites[0][0]
    src = e.info['iter']
    ix = e.info['ix']
    if not e.info.get('complete'):
        return ob.check(P, ROW, None if v.lossy() else False, e.loc, 'the loop over the edges can stop early', p)
    srt = strip(src) != src or src[:2] == SORTED
    base = strip(src)
    if src[:2] == SORTED:
        base = src[2]
    if base[:2] == ('view', 'enumerate') and len(base) == 4:
        ok = None
    uv = None
    if base == ('edges', g):
        uv = (('su', g, ix), ('sv', g, ix)) if srt else (('eu', g, ix), ('ev', g, ix))
    if uv is None:
        return ob.check(P, ROW, None, e.loc, 'queues are created in a loop over %s' % show(src), p)
    ep = ('ep', g, 'edge_type') + uv
    idx = ('eidx', g) + uv
    classes = DEFC if case == 'noclasses' else QC
    for path in e.info['paths']:
        iv = PV(it, path[1], path[2], path[0], p, 'iter')
        if path[0] is not None and path[0][0] == 'raise':
            ob.check(P, 'a queue is built for every edge type that is configured', None if iv.lossy() else False, e.loc,
                     'building the queue of an edge ends with %s' % (path[0],), p)
            continue
        sets = [x for x in path[1].events if x.kind == 'setitem' and root(key(x.args[0])) == lst]
        made = [x for x in path[1].events if x.kind == 'callback' or x.kind == 'new' and x.name in
                ('QueueServer', 'LossQueue', 'NullQueue')]
        loc = sets[-1].loc if sets else e.loc
        if len(sets) != 1:
            ob.check(P, ROW, (None if iv.lossy() else False) if not sets else None, loc,
                     '%d entries are stored for an edge' % len(sets), p)
            continue
        i = key(sets[0].args[1])
        ok = True if i == idx else (None if foreign(i) or iv.lossy() and not isinstance(i, tuple) else False)
        if ok is False and i == ix and srt:
            ok = None
        ob.check(P, ROW, ok, loc, 'the queue of an edge is stored at %s' % show(i), p, 'stored at edge_index[edge]')
        val = key(sets[0].args[2])
        mine = [x for x in made if x.res is not None and key(x.res) == val]
        if len(mine) != 1 or mine[0].kind != 'callback':
            ob.check(P, 'each edge gets a new queue of the class set for its type',
                     False if not made and not foreign(val) and not iv.lossy() else None, loc,
                     'edge2queue gets %s' % show(val), p)
            continue
        c = mine[0]
        ob.check(P, 'each edge gets a new queue of the class set for its type',
                 of(c.deep[0], classes, ep) if len(made) == 1 else None, c.loc,
                 'the queue of an edge is made by %s' % show(c.deep[0]), p, 'q_classes[edge type](...)')
        edge = c.kw.get('edge') if c.kw else None
        if edge is None and len(c.args) > 1:
            edge = None
        R = 'each queue knows its own edge'
        if isinstance(edge, Tup):
            ks = tuple(key(x) for x in edge.items)
            want = uv + (idx, ep)
            ob.check(P, R, True if ks == want else (None if foreign(ks) else False), c.loc,
                     'the queue of an edge gets edge=(%s)' % ', '.join(map(show, ks)), p,
                     'edge=(source, target, index, type)')
        else:
            ob.check(P, R, None if edge is not None or c.kw is None or '**' in c.kw and len(c.args) > 1 else False,
                     c.loc, 'edge is %s' % (edge,), p)
        R = 'each queue gets the arguments set for its type'
        d = c.kw.get('**') if c.kw else None
        extra = sorted(set(c.kw or ()) - {'edge', '**'})
        if d is None:
            ob.check(P, R, None if len(c.args) > 1 or extra else False, c.loc, 'no arguments are passed on', p)
        else:
            dk = rooted(it.deep(d))
            if extra:
                ok = None
            elif case == 'noargs':
                ok = True if dk[:1] == ('item',) and dk[2] == rooted(ep) else (None if dk[:1] != ('item',) else False)
            else:
                ok = of(dk, QA, ep)
            ob.check(P, R, ok, c.loc, 'the arguments are %s' % show(dk), p, '**q_args[edge type]')
        shared(ob, it, p, path, iv, case, ep, uv, g)
    defaults(ob, it, p, v, case, where)


def initial(it, e, lst):
    """A loop that only creates the list."""
    for path in e.info['paths']:
        for x in path[1].events:
            if x.kind == 'setitem' and root(key(x.args[0])) == lst:
                return False
    return True


def of(k, base, ep):
    """k is base[ep] (True), surely something else (False), or not recognised."""
    k = rooted(k)
    if k == ('item', base, rooted(ep)):
        return True
    if isinstance(k, tuple) and k[:1] == ('item',) and len(k) == 3 and k[1] == base:
        return None if foreign(k[2]) else False
    if isinstance(k, tuple) and k[:1] == ('item',) and len(k) == 3 and k[1] in (QC, QA, DEFC):
        return False if k[1] != base else None
    if isinstance(k, tuple) and k[:1] == ('get',):
        return None
    if isinstance(k, tuple) and k[:1] == ('class',):
        return False
    return None


def shared(ob, it, p, path, iv, case, ep, uv, g):
    """The arguments of a type are shared by its queues: nothing but a missing number of
    servers may be filled in while queues are built."""
    P, R = 'C20', 'building one queue does not change the arguments of the others'
    bad = None
    for x in path[1].events:
        if x.kind not in ('setitem', 'mutate') or x.kind == 'mutate' and not x.args:
            continue
        b = rooted(it.deep(x.args[0])) if x.kind == 'mutate' else rooted(x.deep[0])
        if b in (QC, QA) or b[:1] == ('item',) and b[1] in (QA,):
            if x.kind == 'mutate':
                bad = (None, x, 'changed by %s' % x.name)
                break
            kk = x.args[1]
            if b == ('item', QA, rooted(ep)) and isinstance(kk, Const) and kk.v == 'num_servers':
                absent = any(k[:2] == ('in', KN) and rooted(k[2]) == b and t is False
                             for k, t in path[1].bools.items() if isinstance(k, tuple) and len(k) == 3)
                cap = any(k[:1] == ('in',) and k[1] == KCAP and t is True
                          for k, t in path[1].bools.items() if isinstance(k, tuple) and len(k) == 3)
                if not absent:
                    absent = any('num_servers' in repr(k) and k[:1] != ('in',) for k in path[1].bools
                                 if isinstance(k, tuple)) or any(
                        k[:1] == ('in',) and rooted(k[1]) == rooted(ep) and t is False
                        for k, t in path[1].bools.items() if isinstance(k, tuple) and len(k) == 3)
                    if absent:
                        bad = (None, x, 'a number of servers is filled in')
                if bad:
                    pass
                elif not absent:
                    bad = (None if iv.lossy() and foreign(key(x.args[2])) else False, x,
                           'a number of servers that was given is overwritten')
                elif not cap:
                    bad = (None, x, 'a number of servers is filled in without a cap')
                else:
                    val = num(x.args[2])
                    vp = ('vp', g, 'cap', uv[1])
                    if val is None or set(map(rooted, val.t)) - {vp}:
                        vs = key(x.args[2])
                        bad = (None if foreign(vs) or val is None else False, x,
                               'the number of servers comes from %s' % show(vs))
                    elif not iv.ent(const(1) - val, '<='):
                        bad = (False, x, 'the number of servers can be below 1')
                    elif all({rooted(a) for a in l.t} <= {vp} for l, _ in path[1].lin
                             if vp in [rooted(a) for a in l.t]) and any(
                            isinstance(b, tuple) and b[:1] == ('isnone',) and rooted(b[1]) == vp and t is False and not (
                                iv.ent(atom(b[1]) - val, '<=') and (
                                    iv.ent(val - atom(b[1]), '<=') or iv.ent(val - const(1), '<=')))
                            for b, t in path[1].bools.items()):
                        bad = (False, x, 'the number of servers is %s, not the cap of the target' % show(key(x.args[2])))
                if bad:
                    break
                continue
            bad = (False if not foreign(b) and not (b == QA and copied(it, x.args[2], ep, path[1].bools)) else None, x, '%s is set while a queue is built' % show(key(kk)))
            break
    if bad is None:
        filled(ob, it, p, path, iv, ep)
        ob.check(P, R, True, path[1].events[0].loc if path[1].events else '', '', p,
                 'no write to q_args but a missing num_servers')
    else:
        ob.check(P, R, bad[0], bad[1].loc, bad[2], p)


def copied(it, v, ep, bools):
    """Is a value a copy of the arguments of the edge's type?"""
    d = it.deep(v)
    k = key(v)
    if k[:2] == ('new', 'dict') and any(isinstance(b, tuple) and b[:2] == ('in', KN) and k in walk_(b[2])
                                        for b in bools):
        return True             # completed, then put in place
    return isinstance(d, tuple) and ('item', QA, rooted(ep)) in [rooted(x) for x in walk_(d)]


def walk_(k):
    if isinstance(k, tuple):
        yield k
        for x in k:
            for y in walk_(x):
                yield y


def filled(ob, it, p, path, iv, ep):
    """A number of servers that is not given comes from the caps of the vertices."""
    R = 'a number of servers left out is the cap of the target'
    evs = path[1].events
    if any(x.kind == 'setitem' and isinstance(x.args[1], Const) and x.args[1].v == 'num_servers' for x in nested_(evs)):
        return
    made = [x for x in evs if x.kind == 'callback' and x.kw]
    if len(made) != 1 or set(made[0].kw) != {'edge', '**'}:
        return
    if not (isinstance(made[0].kw['**'], Sym) and of(rooted(it.deep(made[0].kw['**'])), QA, ep)):
        return
    facts = [(b, t) for b, t in path[1].bools.items() if isinstance(b, tuple)]
    given = [t for b, t in facts if b[:2] == ('in', KN)]
    cap = [t for b, t in facts if b[:2] == ('in', KCAP)]
    if True in given or False in cap:
        return
    other = [b for b, t in facts if b[:1] != ('in',) and ('num_servers' in repr(b) or "'cap'" in repr(b))]
    ok = None if (other and not (given and cap)) or iv.lossy() else False
    ob.check('C20', R, ok, made[0].loc, 'a queue is made without servers although the vertices may have caps', p,
             "max(cap of the target, 1) when 'num_servers' is not given")


def nested_(evs):
    for e in evs:
        yield e
        if e.kind == 'loop' and e.info and e.info.get('paths') is not None:
            for q in e.info['paths']:
                for x in nested_(q[1].events):
                    yield x


def missing(k, bools, have, pool):
    """Does the iteration know that the key k is in the pool but not in have?"""
    k = rooted(k)
    if k[:1] == ('elem',) and len(k) == 3:
        d = setdiff(k[1])
        if d is not None:
            return d[1] == have and (pool is None or d[0] in pool)
    for b, t in bools.items():
        if isinstance(b, tuple) and b[:1] == ('in',) and len(b) == 3 and rooted(b[1]) == k and rooted(b[2]) == have:
            return t is False
    if k[:1] in (('dkey',), ('elem',)) and k[1] in (DEFC, QC) and not any(isinstance(b, tuple) and mentions(rooted(b), (k,)) for b in bools):
        return False
    return None


def setdiff(k):
    """(a, b) for the set of the keys of a less those of b."""
    pos = neg = None
    if isinstance(k, tuple) and k[:1] == ('lin',):
        for a, c in k[1]:
            o = keyset(a)
            if o is None:
                return None
            if c == 1:
                pos = o
            elif c == -1:
                neg = o
            else:
                return None
        return (pos, neg) if pos and neg else None
    return None


def signed(k):
    """(set, sets taken off it) of the keys walked over."""
    if isinstance(k, tuple) and k[:1] == ('lin',):
        pos, neg = [], []
        if k[2]:
            return None
        for a, c in k[1]:
            o = keyset(a)
            if o is None or c not in (1, -1):
                return None
            (pos if c == 1 else neg).append(o)
        return (pos[0], neg) if len(pos) == 1 else None
    if isinstance(k, tuple) and k[:2] == ('view', 'items'):
        return rooted(k[2]), []
    return keyset(k), []


def left_out(k, bools, pool, have, others):
    """Is some key of the pool that is missing from `have` passed over: by the choice of the keys walked over, or on
    an iteration (without a store) that knows no reason for it?"""
    d = signed(k)
    if d is None:
        return None
    if d[0] == DEFC and pool == QC:
        return True             # the types that only the caller has set
    if d[0] != pool:
        return None
    if any(n in others for n in d[1]):
        return True
    if bools is None or any(n != have for n in d[1]):
        return None
    for b, t in bools.items():
        if isinstance(b, tuple) and b[:1] == ('in',) and len(b) == 3 and rooted(b[2]) == have and t is True:
            return False
    for b, t in bools.items():
        if isinstance(b, tuple) and b[:1] == ('in',) and len(b) == 3 and rooted(b[2]) in others:
            return True
    return None


def keyset(a):
    a = rooted(a)
    if a[:1] == ('setof',):
        a = a[1]
    while isinstance(a, tuple) and a[:2] in (('call', 'builtins.set'), ('call', 'builtins.list')) and len(a) == 3:
        a = a[2]
    if isinstance(a, tuple) and a[:2] == ('view', 'keys'):
        return a[2]
    return a


def defaults(ob, it, p, v, case, where):
    P, R = 'C20', 'what the caller sets is kept and only what is missing is filled in'
    seen = {'class': False, 'args': False}
    for e, path, outer in loops(p):
        iv = PV(it, path[1], path[2], path[0], p, 'iter')
        for x in path[1].events:
            if x.kind != 'setitem':
                continue
            b = rooted(x.deep[0])
            k = x.deep[1]
            val = rooted(x.deep[2])
            if b == QC and case != 'noclasses':
                if val == ('item', DEFC, rooted(k)):
                    m = missing(k, path[1].bools, QC, (DEFC,))
                    ob.check(P, R, m if m is not False else False, x.loc,
                             'the class of a type that was given is replaced', p, 'default class for a missing type')
                    seen['class'] = seen['class'] or m is True and bool(e.info.get('complete'))
                else:
                    ob.check(P, R, None if foreign(val) else False, x.loc,
                             'the class of a type is set to %s' % show(val), p)
            elif b == QA and case != 'noargs':
                m = missing(k, path[1].bools, QA, None)
                empty = val[:1] == ('dict',) and len(val) == 1 or val == ('dict', ())
                if m is False and any(t is False and isinstance(b_, tuple) and b_[:1] == ('truth',) and
                                      rooted(b_[1])[:2] == ('item', QA) for b_, t in path[1].bools.items()):
                    m = True                # none are given
                if empty or val[:1] in (('dict',), ('new',)):
                    ob.check(P, R, m, x.loc, 'the arguments of a type that were given are replaced', p,
                             'no arguments for a missing type')
                    seen['args'] = seen['args'] or m is True and bool(e.info.get('complete'))
                else:
                    ob.check(P, R, None if foreign(val) else m, x.loc,
                             'the arguments of a type are set to %s' % show(val), p)
            elif isinstance(b, tuple) and b[:1] == ('item',) and b[1] == QA and k == KCOL:
                absent = any(isinstance(bb, tuple) and bb[:2] == ('in', KCOL) and t is False
                             for bb, t in path[1].bools.items())
                ob.check(P, R, True if absent else None, x.loc, 'the colors that were given are replaced', p,
                         'default colors where none are given')
    for e in p.st.events:
        if e.kind == 'loop0' and e.info:
            d = setdiff(e.info.get('iter'))
            if d == (DEFC, QC):
                seen['class'] = True
            elif d and d[1] == QA:
                seen['args'] = True
    for x in p.st.events:
        if x.kind == 'mutate' and x.args and root(key(x.args[0])) in (QC, QA):
            ob.check(P, R, None, x.loc, 'changed by %s' % x.name, p)
            seen['class'] = seen['args'] = None
    for n, c, pool, have, oth in (
            ('class', 'noclasses', DEFC, QC, (QA,)), ('args', 'noargs', DEFC if case == 'noclasses' else QC, QA, ())):
        if case != c and seen[n] is not None:
            for e, path, outer in loops(p):
                if not e.info.get('complete') or outer is not None or not any(
                        x.kind == 'setitem' and rooted(x.deep[0]) == have for q_ in e.info['paths'] for x in q_[1].events):
                    continue
                own = any(x.kind == 'setitem' and rooted(x.deep[0]) == have for x in path[1].events)
                if path[0] is not None and path[0][0] != 'continue':
                    continue
                if n == 'args' and case != 'noclasses':
                    oth = (DEFC,)
                if left_out(e.info.get('iter'), None if own else path[1].bools, pool, have, oth):
                    ob.check(P, R, False, e.loc, 'a type without a %s of its own may get none: only %s are filled in' % (
                        'class' if n == 'class' else 'dict of arguments', show(e.info.get('iter'))), p)
                    seen[n] = None
                    break
    for n, c in (('class', 'noclasses'), ('args', 'noargs')):
        if case != c and seen[n] is not True:
            other = any(x.kind in ('loop', 'loop0') and mentions(x.info.get('iter'), (DEFC,) if n == 'class' else (QC, DEFC))
                        for x in p.st.events if x.info) or any(
                x.kind == 'setitem' and rooted(x.deep[0]) == (QC if n == 'class' else QA)
                for _, path, _ in loops(p) for x in path[1].events) or any(
                x.kind == 'loop0' and x.name == 'while' for x in p.st.events)
            ob.check(P, R, None if seen[n] is None or other else False, where,
                     'a type without a %s of its own gets none' % ('class' if n == 'class' else 'dict of arguments'), p)


def mentions(k, what):
    if k in what:
        return True
    return isinstance(k, tuple) and any(mentions(x, what) for x in k)


# ------------------------------------------------------------------ C21

def tables(ob, it, cfg, p, v, g, case, where):
    P = 'C21'
    st = p.st
    for name, want in (('_t', 0), ('num_events', 0)):
        x = st.attrs.get((NET, name))
        r = False if x is None else v.eq(x, const(want))
        ob.check(P, 'a new network starts at time zero, not initialized', r, loc_of(st.events, name, where),
                 '%s starts as %s' % (name, x), p)
    for name, want in (('_initialized', FALSE), ('_prev_edge', NONE)):
        x = st.attrs.get((NET, name))
        ob.check(P, 'a new network starts at time zero, not initialized',
                 False if x is None else True if key(x) == key(want) else v.eq(x, want),
                 loc_of(st.events, name, where), '%s starts as %s' % (name, x), p)
    x = st.attrs.get((NET, 'max_agents'))
    ob.check(P, 'the agent limit and the blocking rule are those asked for',
             False if x is None else v.eq(x, Sym(('arg', 'max_agents'))), loc_of(st.events, 'max_agents', where),
             'max_agents is %s' % (x,), p, 'max_agents')
    x = st.attrs.get((NET, '_blocking'))
    r, msg = discipline(st, v, x)
    ob.check(P, 'the agent limit and the blocking rule are those asked for', r, loc_of(st.events, '_blocking', where),
             msg, p, 'RS if and only if asked for, whatever the case')
    for name, want in (('nV', nV(g)), ('nE', nE(g))):
        x = st.attrs.get((NET, name))
        ob.check(P, 'the network counts the vertices and edges of its graph',
                 False if x is None else v.eq(x, want), loc_of(st.events, name, where), '%s is %s' % (name, x), p)
    x = st.attrs.get((NET, 'num_agents'))
    k = it.deep(x) if x is not None else None
    r = zeros(k, g)
    ob.check(P, 'every edge starts with a tally of zero', r, loc_of(st.events, 'num_agents', where),
             'num_agents is %s' % show(k), p, 'zeros for every edge')
    x = st.attrs.get((NET, '_fancy_heap'))
    r = None
    if x is None:
        r = False
    elif key(x)[:2] == ('new', 'PriorityQueue'):
        n = st.attrs.get((key(x), 'size'))
        r = True if n is not None and v.eq(n, const(0)) else (False if n is not None and n != const(0) else None)
    ob.check(P, 'a new network has an empty schedule of its own', r, loc_of(st.events, '_fancy_heap', where),
             'the schedule is %s' % (x,), p, 'an empty queue of events')
    for name in ('out_edges', 'in_edges', '_route_probs'):
        table(ob, it, p, v, g, name, where)


def string(k, w):
    """Value of a term over the blocking rule when that is w."""
    if k == BLOCK:
        return w
    if k[:1] == ('c',) and isinstance(k[-1], (str, bool)):
        return k[-1]
    if k[:1] == ('mcall',) and len(k) == 3 and k[2] in ('lower', 'upper', 'casefold', 'strip', 'title', 'capitalize',
                                                        'swapcase'):
        x = string(k[1], w)
        return getattr(x, k[2])() if isinstance(x, str) else None
    if k[:1] == ('tup',):
        xs = [string(x, w) for x in k[1:]]
        return None if None in xs else tuple(xs)
    if k[:1] in (('==',), ('in',)) and len(k) == 3:
        a, b = string(k[1], w), string(k[2], w)
        if a is None or b is None or k[0] == 'in' and not isinstance(b, (str, tuple)):
            return None
        return a == b if k[0] == '==' else a in b
    if k[:2] == ('cmp', 'not') and len(k) == 3:
        x = string(k[2], w)
        return None if x is None else not x
    if k[:2] == ('cmp', '==') and len(k) == 4:
        return string(('==',) + k[2:], w)
    if k[:1] == ('truth',) and len(k) == 2:
        x = string(k[1], w)
        return None if x is None else bool(x)
    return None


def constants(k, out):
    if isinstance(k, tuple):
        if k[:1] == ('c',) and isinstance(k[-1], str):
            out.add(k[-1])
        for x in k:
            constants(x, out)


def discipline(st, v, x):
    """RS is used if and only if it is asked for: over all strings the path is taken for.  Only
    comparisons with constants occur, so each class of strings has one of these members."""
    if x is None:
        return False, 'no blocking rule is stored'
    tx = v.truth(x)
    facts = [(b, t) for b, t in st.bools.items() if b[:1] != ('isinst',) and mentions(b, (BLOCK,))]
    xk = None
    if tx is None:
        xk = key(x)
    cs = {'rs', 'bas', '', 'other'}
    for b, _ in facts + [(xk, None)]:
        constants(b, cs)
    cs = {f(c) for c in cs for f in (str, str.lower, str.upper, str.capitalize, str.swapcase)} | {'rS', 'Bas'}
    some = False
    for w in sorted(cs):
        vals = [(string(b, w), t) for b, t in facts]
        if any(a is None for a, _ in vals):
            return None, 'the rule depends on %s' % ', '.join(show(b) for b, _ in facts)
        if any(a is not t for a, t in vals):
            continue
        got = tx if tx is not None else string(xk, w)
        if got is None:
            return None, 'blocking is %s' % (x,)
        some = True
        if bool(got) is (w.lower() == 'rs'):
            return (None if v.lossy() and False else False), 'blocking=%r gives %s' % (w, 'BAS' if got else 'RS')
    return (True if some else None), ''


def zeros(k, g):
    if k is None:
        return False
    n = key(nE(g))
    n2 = [n, ('nE', g), ('lin', ((('nE', g), 1),), 0)]
    if k[:2] == ('call', 'numpy.zeros'):
        return True if k[2] in n2 else (None if foreign(k[2]) or k[2][:1] == ('call',) else False)
    if k[:1] == ('map',) and k[2] in (key(const(0)), ('c', 0)) and not k[3] and not k[4]:
        return True if k[1] == ('edges', g) or k[1][:2] == ('view', 'range') and k[1][3] in n2 and \
            k[1][2] in (key(const(0)), ('c', 0)) else None
    if k[:2] in (('call', 'numpy.ones'),):
        return False
    return None


RULES = {'out_edges': 'out_edges lists the edges out of each vertex, sorted by target',
         'in_edges': 'in_edges lists the edges into each vertex, sorted by source',
         '_route_probs': 'routing starts uniform over the edges out of a vertex'}


def table(ob, it, p, v, g, name, where):
    P, R = 'C21', RULES[name]
    x = p.st.attrs.get((NET, name))
    if x is None:
        return ob.check(P, R, None if v.lossy() else False, where, 'the network has no %s' % name, p)
    lst = root(key(x))
    site = None
    for e, path, outer in loops(p):
        if any(y.kind == 'setitem' and root(key(y.args[0])) == lst for y in path[1].events):
            if site is not None and site[0] is not e:
                return ob.check(P, R, None, where, '%s is filled in several places' % name, p)
            site = (e, outer)
    if site is None:
        k = it.deep(x)
        if isinstance(k, tuple) and k[:1] == ('map',) and not k[3] and not k[4]:
            vert = vertex(k[1], g, BND)
            if vert is None or vert[0] == 'node':
                return ob.check(P, R, None, where, '%s is %s' % (name, show(k)), p)
            return ob.check(P, R, row(name, k[2], g, vert, v), loc_of(p.st.events, name, where),
                            '%s of a vertex is %s' % (name, show(k[2])), p, R)
        return ob.check(P, R, None, where, '%s is %s' % (name, show(k)), p)
    e, outer = site
    if outer is not None:
        return ob.check(P, R, None, e.loc, '%s is filled in a nested loop' % name, p)
    if not e.info.get('complete'):
        return ob.check(P, R, None if v.lossy() else False, e.loc, 'the loop over the vertices can stop early', p)
    vert = vertex(e.info['iter'], g, e.info['ix'])
    if vert is None:
        return ob.check(P, R, None, e.loc, '%s is filled in a loop over %s' % (name, show(e.info['iter'])), p)
    for path in e.info['paths']:
        iv = PV(it, path[1], path[2], path[0], p, 'iter')
        if path[0] is not None and path[0][0] == 'raise':
            continue
        sets = [y for y in path[1].events if y.kind == 'setitem' and root(key(y.args[0])) == lst]
        if len(sets) != 1:
            ob.check(P, R, None if sets or iv.lossy() else False, e.loc, '%d entries are stored' % len(sets), p)
            continue
        y = sets[0]
        i = key(y.args[1])
        if i != vert:
            ob.check(P, R, None if foreign(i) or e.info['ix'] == i else False, y.loc,
                     'the entry of a vertex is stored at %s' % show(i), p)
            continue
        d = strip(y.deep[2])
        none = ('outdeg' if name != 'in_edges' else 'indeg', g, vert)
        if d in (('list',), ('list', ())) and iv.ent(atom(none), '<='):
            r = True
        else:
            r = row(name, d, g, vert, iv)
        ob.check(P, R, r, y.loc, '%s of a vertex is %s' % (name, show(d)), p, R)


def vertex(src, g, ix):
    if src[:2] == ('view', 'range'):
        if src[2] in (key(const(0)), ('c', 0)) and src[3] in (('nV', g), key(nV(g))) and src[4] in (key(const(1)), ('c', 1)):
            return ix
        return None
    if src == ('nodes', g):
        return ('node', g, ix)
    if src[:2] == SORTED and src[2] == ('nodes', g):
        return ('snode', g, ix)
    return None


def row(name, d, g, u, v):
    d = strip(d)
    if name == '_route_probs':
        n = ('outdeg', g, u)
        if d[:1] == ('map',) and not d[3] and not d[4]:
            e = from_key(d[2]) if d[2][:1] in (('lin',), ('c',)) else None
            e = num(e) if e is not None else None
            if e is not None and not e.t:
                one = v.ent(atom(n).scale(e.c) - const(1), '==')
                if not one:
                    return None if v.lossy() and not v.feas((atom(n) - const(2), '<=')) else False
            elif d[2] not in (('div', key(const(1)), n), ('div', ('c', 1), n), ('div', key(const(1)), key(atom(n)))):
                return None if foreign(d[2]) or d[2][:1] not in (('div',), ('lin',), ('c',)) else False
            src = strip(d[1])
            if src[:2] == ('view', 'range'):
                zero = src[2] in (key(const(0)), ('c', 0))
                return True if zero and src[3] in (n, key(atom(n))) else (None if foreign(src) else False)
            if src in (('oe', g, u), ('succ', g, u), SORTED + (('oe', g, u),)):
                return True
        return None
    want = {'out_edges': ('eidx', g, u, ('st', g, u, BND)), 'in_edges': ('eidx', g, ('sis', g, u, BND), u)}[name]
    kinds = {'out_edges': ('oe', 'succ'), 'in_edges': ('ie', 'pred')}[name]
    if d[:2] == SORTED and len(d) == 3 and d[2][:1] == ('map',) and not d[2][3] and not d[2][4] and \
            d[2][2][:1] == ('eidx',):
        return None     # edge indices are handed out in the order of the edges
    if d[:1] == ('map',):
        if d[3] or d[4]:
            return None
        src = d[1]
        if d[2] == want and any(src == SORTED + ((a, g, u),) for a in kinds):
            return True
        if d[2][:1] == ('eidx',) and not foreign(d[2]) and (src[:1] + src[2:3])[0] in ('oe', 'ie', 'succ', 'pred', 'call') \
                and (src[:1] in (('oe',), ('ie',), ('succ',), ('pred',)) or src[:2] == SORTED):
            return False
    return None


def block_task(prog):
    """Anything but a string as the blocking rule is refused."""
    P = 'C21'
    ob = Obligations()
    cfg, it, paths, where = build(prog, 'badblock')
    ob.absorb(it, 'QueueNetwork.__init__ (blocking not a string)', paths)
    for p in paths:
        v = PV(it, p.st, None, None, p, 'top')
        ob.check(P, 'a blocking rule that is not a string is refused',
                 True if p.kind == 'raise' else None if p.kind == 'undecided' or v.lossy() else False, where,
                 'a blocking rule that is not a string is accepted', p, 'TypeError')
    return ob
