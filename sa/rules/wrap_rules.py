"""The graph class: edge indices, properties, positions and drawing arguments (C39)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from .union_rules import unver, soft, nested, walk

P = 'C39'
G = ('arg', 'g')
U, V, PR, VAL, NAME, TY = (('arg', x) for x in ('u', 'v', 'p', 'value', 'name', 't'))
BND = ('bound',)
NONEK = ('c', 'NoneType', None)


def cs(x):
    return key(Const(x))


class WrapCfg(GraphCfg):
    graphs = (G,)
    own = True

    def norm_item(self, it, base, idx):
        if isinstance(base, Sym) and isinstance(idx, Sym) and unver(base.key)[:1] in (('eattr',), ('vattr',)):
            return Sym(('prop', unver(base.key), idx.key))
        return GraphCfg.norm_item(self, it, base, idx)


def methods(prog, name, args, kw=None, setup=None):
    it = Interp(prog, WrapCfg())
    ctx = {}

    def pre(it):
        it.assume(ONE - nE(G), '<=')
        it.assume(ONE - nV(G), '<=')
        if setup:
            setup(it)
        return ctx

    def run(it, _):
        r = it.class_attr(it.get_class(GCLS), name)
        if r is None:
            raise AnchorMissing('QueueNetworkDiGraph.' + name)
        ctx['where'] = '%s:%s' % (r[0].mod.rel, r[0].node.lineno)
        return it.call(Bound(Sym(G), r[0]), args, dict(kw or {}), None)
    ps = it.explore(pre, run)
    return it, ps, ctx.get('where', '?')


ONE = const(1)


def sets(p, base):
    """Stores into a container: (index, value, event)."""
    return [(key(e.args[1]), e.args[2], e) for e in nested(p.st.events)
            if e.kind == 'setitem' and unver(key(e.args[0])) == base]


def bad(k):
    """May the analysis have lost what this is?"""
    return any(x[:1] in (('call',), ('mcall',), ('mres',), ('fresh',), ('lv',), ('at',), ('bin',)) for x in walk(k))


def verdict(ok, k):
    return ok or (None if k is None or bad(k) else False)


def wrap_task(prog, what):
    ob = Obligations()
    f = globals()['t_' + what]
    f(prog, ob)
    return ob


def done(ob, it, ps, where, label, rule):
    ob.absorb(it, label, ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, rule, None, where, '%s ends with %s' % (label, p.value), p)
            continue
        yield p


def t_init(prog, ob):
    R1, R2 = 'edges are numbered by their rank', 'row v of pos is the position of vertex v'

    def setup(it):
        it.st.bools[('isinst', ('arg', 'data'), ('ext', 'dict'))] = False
    it, ps, where = methods(prog, '__init__', [Sym(('arg', 'data'))], None, setup)
    srt = ('call', 'builtins.sorted', ('edges', G))
    el = ('tup', ('su', G, BND), ('sv', G, BND))
    for p in done(ob, it, ps, where, '__init__', R1):
        sup = [e for e in p.st.events if e.kind == 'extsuper' and e.name == '__init__']
        ok = len(sup) == 1 and len(sup[0].args) == 2 and key(sup[0].args[1]) == ('arg', 'data')
        ob.check(P, 'the graph is made from the data', ok or (False if not sup else None), where,
                 'the data does not reach the graph', p, 'super().__init__(data)')
        x = p.st.attrs.get((G, 'edge_index'))
        d = it.deep(x) if x is not None else None
        ok = isinstance(d, tuple) and d[:1] == ('mapdict',) and d[2:] == (el, BND, ()) and d[1] in (
            ('view', 'enumerate', srt, key(const(0))), srt)
        if isinstance(d, tuple) and d[:1] == ('mapdict',) and d[2:] == (el, BND, ()) and not ok:
            ok = None           # the k-th sorted edge gets k: how many of them?
            z = d[1]
            if z[:2] == ('view', 'zip') and all(x == srt or x == ('view', 'range', key(const(0)), key(nE(G)), key(const(1)))
                                                for x in z[2:]):
                ok = True
        elif not ok:
            v = None if d is None or d[0] != 'mapdict' else d
            sq = v[1] if v is not None else None
            if isinstance(sq, tuple) and sq[:2] == ('view', 'enumerate') and sq[3:] == (key(const(0)),):
                sq = sq[2]
            if other_order(sq) and v[2] == ('elem', sq, BND) and v[3:] == (BND, ()):
                ok = False
            elif v is None or unknown(v, (srt, ('edges', G))) or any(x[:1] in (('len',), ('grown',)) for x in walk(v)):
                ok = None
        ob.check(P, R1, ok, where, 'edge_index starts as %s' % show(d), p, 'edge_index[k-th sorted edge] = k')
        n = num(p.st.attrs.get((G, '_nE'))) if (G, '_nE') in p.st.attrs else None
        v = PV(it, p.st, None, None, p, 'top')
        ok = n is not None and v.ent(n - nE(G), '==')
        ob.check(P, R1, ok or (None if n is None or bad(key(n)) else False), where,
                 'the next index is %s' % show(key(n)), p, 'next index is the number of edges')
        rows(ob, it, p, where, R2, None)


def unknown(k, known):
    """Function results other than the known ones in a term."""
    if k in known:
        return False
    if not isinstance(k, tuple):
        return False
    if k[:1] in (('call',), ('mcall',), ('mres',), ('fresh',), ('lv',), ('at',)):
        return True
    return any(unknown(x, known) for x in k)


def rows(ob, it, p, where, R, given):
    """Is pos an array whose v-th row is the position of vertex v?"""
    x = p.st.attrs.get((G, 'pos'))
    if x is None:
        ob.check(P, R, False, where, 'pos is not set', p)
        return
    d = it.deep(x)
    if d == NONEK:
        eq = [v for b, v in p.st.bools.items() if b[0] == '==' and ('nV', G) in b]
        if given is not None or True in eq:
            ob.check(P, R, False, where, 'pos is dropped although every vertex has a position', p)
        else:
            told = [b for b in p.st.bools if b[0] != 'isinst'] or any(
                set(l.t) - {('nE', G), ('nV', G)} for l, _ in p.st.lin)
            ob.check(P, R, True if False in eq else None if told else False, where,
                     'pos is None whatever positions the vertices have', p, 'None unless every vertex has a position')
        return
    if d[:1] == ('call',) and d[1] in ('numpy.array', 'numpy.asarray', 'numpy.vstack') and len(d) == 3:
        d = d[2]
    att = given or ('call', 'networkx.get_node_attributes', G, ('kw', 'name', cs('pos')))
    att2 = ('call', 'networkx.get_node_attributes', G, cs('pos'))
    ok = None
    if d[:1] == ('map',) and not d[3] and not d[4]:
        e = d[2]
        if e[0] == 'item' and (unver(e[1]) in (att, att2) or given is None and unver(e[1])[:2] == att[:2]):
            ok = e[2] == ('snode', G, BND)
            if (other_order(d[1]) or d[1] == e[1] and unver(d[1]) in (att, att2)) and e[2] in (
                    ('elem', d[1], BND), ('dkey', d[1], BND)):
                pass
            elif not ok and e[2][0] not in ('node', 'bound'):
                ok = None
            if e[2] == BND:
                ok = None
            if d[1] in (('view', 'values', e[1]), ('view', 'items', e[1])):
                ok = False          # in the order of the dict
        elif e == ('vp', G, 'pos', ('snode', G, BND)):
            ok = True
        elif e == ('vp', G, 'pos', ('node', G, BND)):
            ok = False
    elif d == ('call', 'builtins.list', ('view', 'values', att)):
        ok = False
    ob.check(P, R, ok, where, 'pos is %s' % show(d), p, 'positions of the sorted vertices')


def t_add(prog, ob):
    R = 'a new edge gets the next index, an old one keeps its own'
    it, ps, where = methods(prog, 'add_edge', [Sym(U), Sym(V)], {'edge_type': Sym(('arg', 'et'))})
    E = ('tup', U, V)
    IX = ('eindex', G)
    for p in done(ob, it, ps, where, 'add_edge', R):
        sup = [e for e in p.st.events if e.kind == 'extsuper' and e.name == 'add_edge']
        ok = len(sup) == 1 and [key(a) for a in sup[0].args[1:3]] == [U, V]
        ob.check(P, 'add_edge adds the edge with its properties', ok or (False if not sup else None), where,
                 'the edge itself is not added', p, 'super().add_edge(u, v, ...)')
        old = p.st.bools.get(('in', E, IX))
        ss = sets(p, IX)
        n = num(p.st.attrs.get((G, '_nE'))) if (G, '_nE') in p.st.attrs else atom(('attr', G, '_nE'))
        d = n - atom(('attr', G, '_nE')) if n is not None else None
        if old is None:
            swapped = ('in', ('tup', V, U), IX)
            ok = False if all(b == swapped or b[:1] == ('in',) and b[2] == IX and b[1][:1] == ('tup',) and
                              set(b[1][1:]) <= {U, V} for b in p.st.bools) else None
        elif old:
            ok = not ss and d is not None and not d.t and d.c == 0
        else:
            ok = len(ss) == 1 and ss[0][0] == E and key(ss[0][1]) in (('attr', G, '_nE'), ('len', IX), ('nE', G)) and (
                key(ss[0][1]) == ('attr', G, '_nE') or None) and d is not None and not d.t and d.c == 1
            if ok is False and (len(ss) == 1 and bad(key(ss[0][1])) or d is None or any(bad(a) for a in d.t)):
                ok = None
        ob.check(P, R, ok, ss[0][2].loc if ss else where, 'index of the %s edge: %s, next index %s' % (
            'old' if old else 'new', ', '.join(show(key(x[1])) for x in ss) or 'none', show(key(n))), p,
            'edge_index[(u, v)] = _nE; _nE += 1')


def prop_sets(prog, ob, name, base, index, R):
    e = Tup([Sym(U), Sym(V)]) if name == 'set_ep' else Sym(V)
    it, ps, where = methods(prog, name, [e, Sym(PR), Sym(VAL)])
    for p in done(ob, it, ps, where, name, R):
        ss = sets(p, base)
        ok = len(ss) == 1 and ss[0][0] == PR and key(ss[0][1]) == VAL
        if not ok and (any(e.kind in ('ext', 'mcall', 'mutate', 'extsuper') for e in p.st.events) or
                       any(bad(s[0]) or bad(key(s[1])) for s in ss)):
            ok = None
        ob.check(P, R, ok, ss[0][2].loc if ss else where, '%s does not store the value' % name, p, 'stored')
        has = p.st.bools.get(('hasattr', G, PR))
        arr = ('dynattr', G, PR)
        ms = sets(p, arr)
        R3 = 'the array used for drawing gets the value at the index of its %s' % (
            'edge' if name == 'set_ep' else 'vertex')
        if has is None:
            ok = None if p.st.bools or any(e.kind in ('ext', 'mcall') for e in p.st.events) else (False if not ms else None)
        elif has:
            ok = len(ms) == 1 and ms[0][0] == index and key(ms[0][1]) == VAL
            if not ok and any(bad(m[0]) or bad(key(m[1])) for m in ms):
                ok = None
        else:
            ok = not ms
        ob.check(P, R3, ok, ms[0][2].loc if ms else where, 'the array is changed at %s' % (
            ', '.join(show(m[0]) for m in ms) or 'no index'), p, 'attr[index] = value')
        other = [e for e in nested(p.st.events) if e.kind in ('setitem', 'delitem') and
                 unver(key(e.args[0])) not in (base, arr)]
        for e in other:
            r = unver(key(e.args[0]))
            ob.check(P, R, False if r[0] in ('eattr', 'vattr', 'eindex') else None, e.loc,
                     '%s changes %s' % (name, show(r)), p)


def prop_gets(prog, ob, name, base, R):
    e = Tup([Sym(U), Sym(V)]) if name == 'ep' else Sym(V)
    it, ps, where = methods(prog, name, [e, Sym(PR)])
    for p in done(ob, it, ps, where, name, R):
        k = unver(key(p.value))
        has = p.st.bools.get(('in', PR, base))
        good = k in (('prop', base, PR), ('item', base, PR))
        if has is None:
            has = True if good else None
        if has is None:
            ok = None
        else:
            ok = good if has else k == NONEK
        if not ok and ok is not None and bad(k):
            ok = None
        if ok is None and k[0] in ('prop', 'item') and not bad(k) and not good:
            ok = False
        ob.check(P, R, ok, where, '%s returns %s' % (name, show(k)), p, 'the stored value, None without one')


def t_props(prog, ob):
    R = 'a property that is set is the one that is read'
    EA, VA = ('eattr', G, U, V), ('vattr', G, V)
    prop_sets(prog, ob, 'set_ep', EA, ('eidx', G, U, V), R)
    prop_sets(prog, ob, 'set_vp', VA, V, R)
    prop_gets(prog, ob, 'ep', EA, R)
    prop_gets(prog, ob, 'vp', VA, R)


def kwarg(e, k, name, i):
    """Argument of an external call from its deep key."""
    for x in k:
        if isinstance(x, tuple) and x[:2] == ('kw', name):
            return x[2]
    a = [x for x in k[2:] if not (isinstance(x, tuple) and x[:1] == ('kw',))]
    return a[i] if i < len(a) else None


def t_new(prog, ob):
    R = 'a new property exists on every element'
    for name, ext, seq, el in (
            ('new_edge_property', 'networkx.set_edge_attributes', ('edges', G),
             ('tup', ('eu', G, BND), ('ev', G, BND))),
            ('new_vertex_property', 'networkx.set_node_attributes', ('nodes', G), ('node', G, BND))):
        it, ps, where = methods(prog, name, [Sym(NAME)])
        for p in done(ob, it, ps, where, name, R):
            es = [e for e in p.st.events if e.kind == 'ext' and e.name == ext]
            ok = None
            if es:
                k = es[-1].res.key if isinstance(es[-1].res, Sym) else ()
                nm, vals = kwarg(es[-1], k, 'name', 2), kwarg(es[-1], k, 'values', 1)
                ok = nm == NAME and (vals == NONEK or vals in (('mapdict', seq, el, NONEK, ()),))
                if not ok and (nm == NAME and (vals is None or vals[:1] != ('mapdict',) or bad(vals))):
                    ok = None
            elif not any(e.kind in ('ext', 'mcall', 'mutate', 'setitem', 'extsuper', 'gset', 'store') and not local_made(it, e)
                         for e in nested(p.st.events)):
                ok = False
            ob.check(P, R, ok, where, 'the property is not set for every element', p, 'None for every element')
            for nm, rows_, n in (('edge_color', None, nE(G)), ('vertex_color', None, nV(G)),
                                 ('vertex_fill_color', None, nV(G))):
                if (nm == 'edge_color') != (name == 'new_edge_property'):
                    continue
                named = p.st.bools.get(('==', NAME, cs(nm)))
                x = p.st.attrs.get((G, nm))
                R2 = 'a color property has an entry per element for drawing'
                if named is None or other_named(p, nm):
                    continue
                if not named:
                    ob.check(P, R2, x is None, where, '%s is replaced by another property' % nm, p, 'kept')
                    continue
                if x is None:
                    ob.check(P, R2, False, where, '%s is not made' % nm, p)
                    continue
                d = it.deep(x)
                l = None
                if d[:1] == ('call',) and d[1] in ('numpy.zeros', 'numpy.ones', 'numpy.empty'):
                    l = d[2][1] if d[2][0] == 'tup' else d[2]
                    l = num(from_key(l))
                elif isinstance(x, Sym) and it.content(x) is not None:
                    l = it.length(x)
                v = PV(it, p.st, None, None, p, 'top')
                ok = None if l is None else v.ent(l - n, '==')
                if ok is False and any(bad(a) for a in l.t):
                    ok = None
                ob.check(P, R2, ok, where, '%s has %s entries' % (nm, l), p, 'one entry per element')


def local_made(it, e):
    """Does an event only fill a container made here, or ask a question?"""
    if e.kind == 'ext':
        return e.name.startswith('numpy.') or e.name.startswith('builtins.')
    k = unver(key(e.args[0])) if e.args and hasattr(e.args[0], 'key') else None
    return isinstance(k, tuple) and k[0] in ('new', 'o', 'local')


def other_named(p, nm):
    """An infeasible path: the name equals two constants."""
    return len([1 for b, v in p.st.bools.items() if v is True and b[0] == '==' and NAME in b]) > 1


def t_pos(prog, ob):
    R = 'row v of pos is the position of vertex v'

    def given(it):
        it.st.bools[('isnone', ('arg', 'pos'))] = False
    it, ps, where = methods(prog, 'set_pos', [Sym(('arg', 'pos'))], None, given)
    for p in done(ob, it, ps, where, 'set_pos', R):
        rows(ob, it, p, where, R, ('arg', 'pos'))
        es = [e for e in p.st.events if e.kind == 'ext' and e.name == 'networkx.set_node_attributes']
        ok = None
        if es:
            k = es[-1].res.key
            ok = kwarg(es[-1], k, 'name', 2) == cs('pos') and kwarg(es[-1], k, 'values', 1) == ('arg', 'pos')
        elif not any(e.kind in ('setitem', 'mcall', 'mutate') for e in nested(p.st.events)):
            ok = False
        ob.check(P, 'positions are also a vertex property', ok, where, 'the vertex property pos is not set', p,
                 'set_node_attributes(pos)')


def t_query(prog, ob):
    R = 'get_edge_type returns exactly the edges of that type'
    it, ps, where = methods(prog, 'get_edge_type', [Sym(TY)])
    el = ('tup', ('eu', G, BND), ('ev', G, BND))
    ep = ('ep', G, 'edge_type', ('eu', G, BND), ('ev', G, BND))
    for p in done(ob, it, ps, where, 'get_edge_type', R):
        k = it.deep(p.value)
        ok = None
        if k[:1] in (('map',), ('filter',)):
            g = k[3]
            eqs = (((('==', TY, ep), True),), ((('==', ep, TY), True),))
            ok = k[1] == ('edges', G) and k[2] == el and tuple(g[:1]) in [x[:1] for x in eqs] and len(g) == 1 or \
                k[1] == ('edges', G) and k[2] == el and norm(g) in [norm(x) for x in eqs]
            if not ok and (bad(k[1]) or bad(k[2]) or bad(g)):
                ok = None
        elif k in (('list',), ('edges', G)):
            ok = False
        ob.check(P, R, ok, where, 'get_edge_type returns %s' % show(k), p, 'the edges with edge_type == t')
    R = 'out_neighbours are the targets of the out-edges'
    it, ps, where = methods(prog, 'out_neighbours', [Sym(V)])
    for p in done(ob, it, ps, where, 'out_neighbours', R):
        k = it.deep(p.value)
        empty = any(e.kind == 'loop0' for e in p.st.events) and k == ('list',)
        ok = empty or k == ('map', ('oe', G, V), ('ot', G, V, BND), (), ()) or k == ('succ', G, V) or \
            k == ('call', 'builtins.list', ('succ', G, V))
        if not ok and not (k[0] == 'map' and not bad(k)):
            ok = None
        ob.check(P, R, ok, where, 'out_neighbours returns %s' % show(k), p, 'targets of the out-edges')
    R = 'is_edge tells the edges from other pairs'
    it, ps, where = methods(prog, 'is_edge', [Tup([Sym(U), Sym(V)])])
    for p in done(ob, it, ps, where, 'is_edge', R):
        has = p.st.bools.get(('in', ('tup', U, V), ('eindex', G)))
        v = PV(it, p.st, None, None, p, 'top')
        t = v.truth(p.value)
        ok = None if has is None or t is None else t == has
        if has is None and isinstance(p.value, Const) and (
                not p.st.bools or list(p.st.bools) == [('in', ('tup', V, U), ('eindex', G))]):
            ok = False
        ob.check(P, R, ok, where, 'is_edge returns %s' % t, p, 'membership in edge_index')


def norm(g):
    return tuple(sorted(map(repr, g)))


def t_draw(prog, ob):
    """lines_scatter_args: what is drawn where."""
    R1, R2, R3 = ('the line of an edge joins the positions of its two vertices, at the index of the edge',
                  'vertices are drawn at pos in the colors of the graph', 'given drawing arguments replace the defaults')

    def setup(it):
        it.st.bools[('isnone', ('attr', G, 'pos'))] = False
    POS = ('attr', G, 'pos')
    it, ps, where = methods(prog, 'lines_scatter_args', [], None, setup)
    for p in done(ob, it, ps, where, 'lines_scatter_args', R1):
        v = p.value
        if not (isinstance(v, Tup) and len(v.items) == 2):
            ob.check(P, R1, None, where, 'returns %s' % show(it.deep(v)), p)
            continue
        ds = []
        for x in v.items:
            d = it.deep(x)
            ds.append(dict((a[0], a[1]) for a in d[2:]) if d[:2] == ('dict', None) else None)
        if None in ds:
            ob.check(P, R1, None, where, 'unclear arguments', p)
            continue
        seg = ds[0].get(cs('segments'))
        ls = [(e, q) for e in p.st.events if e.kind == 'loop' and e.info and e.info.get('paths')
              for q in e.info['paths']]
        st = [(e, q, x) for e, q in ls for x in q[1].events if x.kind == 'setitem']
        ok = None
        if seg is None:
            ok = False
        elif len(st) == 1:
            e, q, x = st[0]
            ix = e.info['ix']
            for a, b in (('eu', 'ev'), ('su', 'sv')):
                u, w = (a, G, ix), (b, G, ix)
                val = key(x.args[2])
                ends = (('item', POS, u), ('item', POS, w))
                if val in (('tup',) + ends, ('list',) + ends) and key(x.args[1]) == ('eidx', G, u, w) and \
                        e.info.get('iter') in (('edges', G), ('call', 'builtins.sorted', ('edges', G)), ('eindex', G)):
                    ok = True
            if e.info.get('iter') == ('view', 'items', ('eindex', G)):
                ok = ok or None
            if ok is None and not bad(key(x.args[2])) and not bad(key(x.args[1])) and not q[4] and \
                    e.info.get('iter') in (('edges', G), ('view', 'enumerate', ('edges', G), key(const(0)))) and \
                    key(x.args[2])[0] == 'tup':
                ok = False
            if len([1 for e2, q2 in ls if e2 is e]) > 1 and ok:
                ok = None
        ob.check(P, R1, ok, st[0][2].loc if st else where, 'the line at index %s is %s' % (
            (show(key(st[0][2].args[1])), show(key(st[0][2].args[2]))) if st else ('?', '?')), p,
            'segments[edge_index[e]] = (pos[e[0]], pos[e[1]])')
        nn = cs
        for i, (arg, want) in enumerate((('x', 0), ('y', 1))):
            k = ds[1].get(nn(arg))
            ok = axis(k, POS, want)
            ob.check(P, R2, ok, where, '%s is %s' % (arg, show(k)), p, 'pos[:, %d]' % want)
        for d, arg, at in ((0, 'colors', 'edge_color'), (1, 'c', 'vertex_fill_color'), (1, 'edgecolors', 'vertex_color')):
            k = ds[d].get(nn(arg))
            ok = k == ('attr', G, at)
            if not ok and k is not None and bad(k):
                ok = None
            ob.check(P, R2, ok, where, '%s is %s' % (arg, show(k)), p, at)
    # positions: those given, those there already, new ones only when there are none
    R4 = 'a drawing uses the positions that are given, else those the graph has'
    for given, has in ((True, True), (True, False), (False, True), (False, False)):
        def setup3(it):
            it.st.bools[('isnone', POS)] = not has
            if given:
                it.st.bools[('isnone', ('arg', 'pos'))] = False
        it, ps, where = methods(prog, 'lines_scatter_args', [], {'pos': Sym(('arg', 'pos'))} if given else None, setup3)
        for p in done(ob, it, ps, where, 'lines_scatter_args', R4):
            x = p.st.attrs.get((G, 'pos'))
            k = key(x) if x is not None else POS
            if given:
                if k == POS:
                    calls = any(e.kind in ('mcall',) for e in nested(p.st.events))
                    ob.check(P, R4, None if calls else False, where, 'the given positions are not used', p, 'set_pos(pos)')
                else:
                    rows(ob, it, p, where, R4, ('arg', 'pos'))
                drawn = []
                for y in p.value.items if isinstance(p.value, Tup) else ():
                    d = it.deep(y)
                    drawn += [a[1] for a in d[2:] if a[0] in (cs('x'), cs('y'))] if d[:2] == ('dict', None) else []
                drawn += [key(e.args[2]) for e in nested(p.st.events) if e.kind == 'setitem' and
                          isinstance(e.args[2], (Sym, Tup))]
                for d in drawn:
                    ob.check(P, R4, not mentions(d, POS), where, 'what is drawn is made of the positions from before: %s'
                             % show(d), p, 'the given positions')
            elif has:
                d = it.deep(x) if x is not None else POS
                ok = d == POS or (False if not bad(d) or mentions_call(d, 'networkx.spring_layout') else None)
                ob.check(P, R4, ok, where, 'the positions the graph has are replaced by %s' % show(d), p, 'pos is kept')
            else:
                told = {b: c for b, c in p.st.bools.items() if b != ('isnone', POS)}
                ok = x is not None and key(x) != NONEK or (False if not told else None)
                ob.check(P, R4, ok, where, 'the vertices get no positions', p, 'set_pos()')
    # arguments that are given
    LK, SK = ('arg', 'lk'), ('arg', 'sk')
    for which, D, other in (('line_kwargs', LK, 1), ('scatter_kwargs', SK, 0)):
        def setup2(it):
            setup(it)
            it.st.bools[('isnone', D)] = False
            it.assume(ONE - atom(('len', D)), '<=')
        it, ps, where = methods(prog, 'lines_scatter_args', [], {which: Sym(D)}, setup2)
        for p in done(ob, it, ps, where, 'lines_scatter_args', R3):
            mine = [(e, q) for e in p.st.events if e.kind == 'loop' and e.info and e.info.get('paths')
                    and mentions(e.info['iter'], D) for q in e.info['paths']]
            if not mine:
                direct = any(mentions(key(a), D) for e in nested(p.st.events) for a in e.args
                             if isinstance(a, (Sym, Lin, Tup)) and e.kind not in ('enter', 'exit'))
                ob.check(P, R3, None if direct else False, where, '%s is not used' % which, p)
                continue
            res = p.value.items[1 - other] if isinstance(p.value, Tup) and len(p.value.items) == 2 else None
            for e, q in mine:
                ss = [x for x in q[1].events if x.kind == 'setitem']
                K = ('dkey', D, e.info['ix'])
                good = [x for x in ss if key(x.args[1]) == K and key(x.args[2]) == ('item', D, K) and
                        res is not None and unver(key(x.args[0])) == unver(key(res))]
                ins = [v for b, v in q[4] if b[0] == 'in' and b[1] == K]
                if good and len(ss) == len(good):
                    ok = True
                elif ss:
                    mine_ = [x for x in ss if res is not None and unver(key(x.args[0])) == unver(key(res))]
                    ok = None if len(mine_) < len(ss) or any(bad(key(x.args[1])) or bad(key(x.args[2])) for x in ss) else False
                elif ins == [True] and not any(x.kind in ('mcall', 'mutate') and x.name != 'setdefault'
                                               for x in q[1].events):
                    ok = False
                else:
                    ok = True if ins == [False] else (False if not q[4] and not q[1].events else None)
                ob.check(P, R3, ok, e.loc, 'a given entry of %s ends up elsewhere' % which, p,
                         'known names take the given value')


def mentions_call(k, name):
    return any(y[:2] == ('call', name) for y in walk(k))


def mentions(k, x):
    return any(y == x for y in walk(k))


def axis(k, pos, i):
    """Is a term column i of pos?"""
    if k is None:
        return False
    if k[0] == 'item' and k[1] == pos and k[2][0] == 'tup' and len(k[2]) == 3:
        j = k[2][2]
        full = repr(k[2][1])
        if j == key(const(i)):
            return True if full.count('None') >= 2 or 'slice' in full else None
        return False if j[0] in ('c', 'lin') else None
    return None


SAVEFIG = {'dpi', 'facecolor', 'edgecolor', 'orientation', 'format', 'transparent', 'bbox_inches', 'pad_inches',
           'papertype', 'frameon', 'metadata', 'bbox_extra_artists', 'backend', 'pil_kwargs', 'quality', 'optimize',
           'progressive'}
NEEDED = ('dpi', 'facecolor', 'edgecolor', 'orientation', 'format', 'transparent', 'bbox_inches', 'pad_inches')


def t_save(prog, ob):
    """draw_graph: the arguments for saving reach savefig."""
    R = 'arguments for savefig reach it'
    m = prog.module(GCLS.rsplit('.', 1)[0])
    for name in NEEDED:
        it = Interp(prog, SaveCfg())
        ctx = {}

        def pre(it):
            it.st.bools[('isnone', ('attr', G, 'pos'))] = False
            return {}

        def run(it, _):
            r = it.class_attr(it.get_class(GCLS), 'draw_graph')
            if r is None:
                raise AnchorMissing('draw_graph')
            ctx['where'] = '%s:%s' % (r[0].mod.rel, r[0].node.lineno)
            return it.call(Bound(Sym(G), r[0]), [], {'fname': Sym(('arg', 'fname')), name: Sym(('arg', 'x'))}, None)
        ps = it.explore(pre, run)
        ob.absorb(it, 'draw_graph(%s)' % name, ps)
        for p in ps:
            where = ctx['where']
            if p.kind == 'raise':
                continue
            if p.kind != 'return':
                ob.check(P, R, None, where, '%s' % (p.value,), p)
                continue
            sv = [e for e in p.st.events if e.kind in ('mcall', 'ext') and e.name.split('.')[-1] == 'savefig']
            ok = None
            if len(sv) == 1:
                k = sv[0].res.key if isinstance(sv[0].res, Sym) else ()
                kws = {x[1]: x[2] for x in k if isinstance(x, tuple) and x[:1] == ('kw',)}
                if sv[0].kw is not None and not kws:
                    kws = {a: key(b) for a, b in sv[0].kw.items()}
                if kws.get(name) == ('arg', 'x'):
                    ok = True
                elif '**' not in kws and not any(x is None or '*' in str(x) for x in kws):
                    ok = False
            elif not sv:
                ok = False
            ob.check(P, R, ok, sv[0].loc if sv else where, 'savefig does not get %s' % name, p, 'passed on')


class SaveCfg(WrapCfg):
    own = False
    inline = ('draw_graph',)
