"""Making a graph from adjacency data (C38)."""
import ast

from .common import *  # noqa
from .graphenv import *  # noqa
from .union_rules import nested, walk, looping, soft
from .union_rules import unver as _unver

P = 'C38'
MOD = 'queueing_tool.graph.graph_wrapper'
AD, ET, ADJ, MX, EF = (('arg', x) for x in ('adjacency', 'edge_type', 'adjust', 'm', 'etype'))
ETK = key(Const('edge_type'))
ZERO, ONEK = key(const(0)), key(const(1))
BND = ('bound',)
_same = {}      # two keys of one object: the identity and the value


def unver(k):
    k = _unver(k)
    return _swap(k) if _same else k


def emptiness(it, q, p, row):
    """Does an iteration know that a row of the adjacency is empty: True, False, None."""
    ln = ('len', row)
    for b, val in conds(q, p).items():
        if b[0] == '==' and ln in b and ZERO in b:
            return val
        if b == ('truth', row):
            return not val
    if any(x.kind in ('loop', 'loop0') for x in q[1].events):
        return None
    lns = [a for l, o in q[3] for a in l.t if unver(a) == ln]
    if lns:
        v = PV(it, q[1], q[2], q[0], p, 'iter')
        a = atom(lns[0])
        return True if v.ent(a, '<=') else (False if not v.feas((a, '<=')) else None)
    return None


def _swap(k):
    if not isinstance(k, tuple):
        return k
    if k in _same:
        return _same[k]
    if k[:1] == ('elem',) and 'elem' in _same and len(k) == 3:
        k = ('dkey',) + k[1:]
    return tuple(_swap(x) for x in k)


class AdjCfg(GraphCfg):
    graphs = ()

    def __init__(self, contracts=True):
        GraphCfg.__init__(self)
        self.contracts = contracts

    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if self.contracts and n in ('_matrix2dict', '_dict2dict') and args:
            r = Sym(('conv', n) + tuple(it.deep(a) for a in args) +
                    tuple(('kw', a, it.deep(b)) for a, b in sorted(kw.items())))
            it.event('conv', n, list(args), node)
            return r
        return GraphCfg.call(self, it, f, args, kw, node)


def explore(prog, name, args, kw, setup, contracts=True):
    it = Interp(prog, AdjCfg(contracts))
    ctx = {}

    def pre(it):
        setup(it)
        return ctx

    def run(it, _):
        f = it.module_attr(it.prog.module(MOD), name)
        if f is None or not isinstance(f, Fn):
            raise AnchorMissing(name)
        ctx['where'] = '%s:%s' % (f.mod.rel, f.node.lineno)
        return it.call(f, args, kw, None)
    ps = it.explore(pre, run)
    return it, ps, ctx.get('where', '?')


def bad(k):
    return any(x[:1] in (('mcall',), ('mres',), ('fresh',), ('lv',)) or
               x[:1] == ('call',) and not x[1].startswith('networkx.') for x in walk(k))


def chains(p):
    """(loop event, iteration, enclosing (loop, iteration) pairs) of all loops."""
    return list(looping(p.st.events))


def over(e):
    """The dict a loop runs over and how."""
    k = e.info['iter']
    if isinstance(k, tuple) and k[:1] == ('view',) and k[1] in ('items', 'keys', 'values') and len(k) == 3:
        return unver(k[2])
    return unver(k)


def whole(e):
    """Does the loop visit every element?"""
    return e.info.get('complete') and all(q[0] is None or q[0][0] == 'continue' for q in e.info['paths'])


def conds(q, p):
    """Conditions decided in an iteration, without versions."""
    out = {}
    for b, v in q[1].bools.items():
        if b not in p.st.bools:
            out[unver(b)] = v
    return out


def typed(c, obj):
    """Does the edge have a type: True, False, None."""
    i = c.get(('in', ETK, obj))
    t = ('item', obj, ETK)
    for b in (('isnone', t), ('isnone', ('ep', obj))):
        if b in c:
            return (i is not False) and not c[b]
    return False if i is False else (True if i and ('isnone', t) not in c and False else None)


def graph_task(prog, akind, ekind, adjust):
    ob = Obligations()
    R0, R1, R2, R3, R4, R5 = (
        'the graph is made from the adjusted adjacency', 'an edge without a type gets type 1, other types are kept',
        'every terminal vertex gets a loop of type 0', 'every edge to a terminal vertex gets type 0',
        'given types belong to the same edge', 'every vertex takes part')

    def setup(it):
        st = it.st
        st.bools[('isinst', AD, ('ext', 'numpy.ndarray'))] = akind == 'matrix'
        st.bools[('isinst', AD, ('ext', 'dict'))] = akind == 'dict'
        st.bools[('isnone', ET)] = False
        st.bools[('isinst', ET, ('ext', 'numpy.ndarray'))] = ekind == 'matrix'
        st.bools[('isinst', ET, ('ext', 'dict'))] = ekind == 'dict'
    it, ps, where = explore(prog, 'adjacency2graph', [Sym(AD)],
                            {'edge_type': NONE if ekind == 'none' else Sym(ET), 'adjust': const(adjust)}, setup)
    ob.absorb(it, 'adjacency2graph(%s, %s, adjust=%s)' % (akind, ekind, adjust), ps)
    found = set()
    rets = 0
    for p in ps:
        it.st = p.st
        _same.clear()
        _same['elem'] = 'elem'
        if akind == 'other':
            ok = p.kind == 'raise' and any(e.kind == 'raise' and e.name == 'TypeError' for e in p.st.events)
            if p.kind == 'undecided':
                ok = None
            ob.check(P, 'other adjacency data is rejected', ok, where, 'no TypeError', p, 'TypeError')
            continue
        if p.kind != 'return':
            ob.check(P, R0, None, where, '%s' % (p.value,), p)
            continue
        rets += 1
        k = it.deep(p.value)
        mk = [e for e in p.st.events if e.kind == 'ext' and e.name in (
            'networkx.from_dict_of_dicts', 'networkx.DiGraph', 'networkx.convert.from_dict_of_dicts') and e.args]
        if not mk or k[:1] != ('call',) or k[1] != mk[-1].name:
            ob.check(P, R0, None, where, 'returns %s' % show(k), p)
            continue
        A = unver(it.deep(mk[-1].args[0]))
        Ak = _unver(key(mk[-1].args[0]))
        if Ak != A:
            _same[Ak] = A
        roots = {A}
        directed = mk[-1].name == 'networkx.DiGraph' or any(
            isinstance(x, tuple) and x[:1] == ('kw',) and 'networkx.DiGraph' in repr(x) for x in k)
        ob.check(P, R0, True if directed else (False if mk[-1].name.endswith('dicts') and 'kw' not in repr(k[2:])[:0]
                                               and not any(x[:1] == ('kw',) for x in k if isinstance(x, tuple))
                                               else None), mk[-1].loc, 'the graph is not directed', p, 'a DiGraph')
        src = A
        full = isinstance(src, tuple) and src[:2] == ('call', 'networkx.to_dict_of_dicts')
        base = src
        while isinstance(base, tuple) and base[:1] == ('call',) and base[1].startswith('networkx.'):
            base = base[2]
        want = {('conv', '_matrix2dict', AD), ('conv', '_dict2dict', AD), AD}
        ok = True if full else (False if base in want and base == src else None)
        ob.check(P, R5, ok, mk[-1].loc, 'a vertex that is only a target has no entry in %s' % show(src), p,
                 'the adjacency of a graph has an entry for every vertex')
        ob.check(P, R0, True if base in want else (False if base in (ET,) else None), mk[-1].loc,
                 'the graph is made from %s' % show(base), p, 'from the given adjacency')
        roots.add(src)
        rules_of(ob, it, p, where, roots, base, adjust, found, (R1, R2, R3, R4), ekind)
    _same.clear()
    if akind != 'other' and rets:
        need = [R1, R3 if adjust == 2 else R2] + ([R4] if ekind != 'none' else [])
        for r in need:
            if r not in found:
                ob.check(P, r, False if not strange(ps) and 'unknown' not in found else None, where, 'no code does this', None)
    return ob


def strange(ps):
    """Is there an operation on dicts that the rules do not follow?"""
    for p in ps:
        for e in nested(p.st.events):
            if e.kind == 'mcall' or e.kind == 'mutate' and e.name not in ('add', 'append'):
                return True
            if e.kind == 'ext' and not e.name.startswith('networkx.'):
                return True
    return False


def selected(src, roots):
    """(dict, is the vertex terminal) of a selection of the vertices, None if it is none."""
    if not isinstance(src, tuple) or src[:1] != ('map',) or len(src) != 5:
        return None
    r = src[1]
    if isinstance(r, tuple) and r[:1] == ('view',) and r[1] in ('items', 'keys') and len(r) == 3:
        r = r[2]
    if r not in roots or src[2] != ('dkey', r, BND):
        return None
    row = ('item', r, ('dkey', r, BND))
    g = [x for x in src[3] if x]
    if len(g) == 1 and len(g[0]) == 2:
        bk, bv = g[0]
        if bk == ('truth', row):
            return r, not bv
        if bk[0] == '==' and ('len', row) in bk and ZERO in bk:
            return r, bv
    return r, None


def rules_of(ob, it, p, where, roots, base, adjust, found, RS, ekind):
    R1, R2, R3, R4 = RS
    v = PV(it, p.st, None, None, p, 'top')
    for e, q, outer in chains(p):
        src = over(e)
        c = conds(q, p)
        stores = [x for x in q[1].events if x.kind == 'setitem']
        ix = e.info['ix']
        # -- loops over one vertex's edges
        if isinstance(src, tuple) and src[0] == 'item' and src[1] in roots and outer and len(outer) == 1 and \
                over(outer[0][0]) in roots:
            k, t = src[2], ('dkey', src, ix)
            obj = ('item', src, t)
            st = [x for x in stores if unver(key(x.args[0])) == obj]
            rest = [x for x in stores if x not in st]
            vals = [(key(x.args[1]), key(x.args[2])) for x in st]
            has = c.get(('in', ETK, obj))
            none = c.get(('isnone', ('item', obj, ETK)))
            complete = whole(e) and whole(outer[0][0])
            dead = terminal(it, c, k, t, roots, p)
            if adjust == 2 or dead is True:
                if dead == 'bad':
                    found.add(R3)
                    ob.check(P, R3, False, e.loc, 'the set of terminal vertices is wrong', p)
                    continue
                if dead is not None:
                    found.add(R3)
                    ok = (vals == [(ETK, ZERO)] and complete) if dead else not vals
                    if adjust != 2:
                        ok = not vals
                    if not ok and any(bad(x) for val in vals for x in val):
                        ok = None
                    ob.check(P, R3, ok, (st[0] if st else e).loc, 'an edge to a %sterminal vertex gets %s' % (
                        '' if dead else 'non-', ', '.join(show(b) for a, b in vals) or 'no type'), p, 'type 0')
                    continue
            if has is not None or none is not None or any(val == (ETK, ONEK) for val in vals):
                found.add(R1)
                untyped = has is False or none is True
                if untyped:
                    ok = (ETK, ONEK) in vals[-1:] and complete
                elif has and none is False:
                    ok = not vals
                elif has and none is None or has is None and none is None:
                    ok = None if has is None and c else (False if vals or has is None else True)
                    if has and not vals:
                        ok = True if 'isnone' not in repr(c) else ok
                else:
                    ok = None
                if ok is False and any(bad(x) for val in vals for x in val):
                    ok = None
                if ok is False and not vals and rest:
                    ok = None
                ob.check(P, R1, ok, (st[0] if st else e).loc, 'an edge %s gets %s' % (
                    'without a type' if untyped else 'with a type', ', '.join(show(b) for a, b in vals) or
                    'none%s' % ('' if complete else ' (not all edges are visited)')), p, 'type 1 if there is none')
                continue
            if vals and not any(bad(x) for val in vals for x in val):
                if not all(a == ETK for a, b in vals) or c:
                    found.add('unknown')
                else:
                    found.add(R3 if adjust == 2 else R1)
                    ob.check(P, R3 if adjust == 2 else R1, False, st[0].loc, 'every edge gets type %s' % show(vals[0][1]), p)
            continue
        # -- loops over the vertices
        chosen = selected(src, roots)
        if src in roots or chosen is not None:
            if chosen is not None:
                src, k = chosen[0], ('dkey', chosen[0], ('sel', src, ix))
            else:
                k = ('dkey', src, ix)
            row = ('item', src, k)
            st = [x for x in stores if unver(key(x.args[0])) == row]
            empty = emptiness(it, q, p, row) if chosen is None or chosen[1] is None else chosen[1]
            if empty and not st and isinstance(e.info['node'], (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue        # the terminal vertices are gathered: what is done with them is looked at where they are used
            if adjust != 2 and (empty is not None or st):
                found.add(R2)
                if empty:
                    ok = None
                    if len(st) == 1:
                        dk = it_deep(it, q[1], st[0].args[2])
                        ok = unver(key(st[0].args[1])) == k and dk == ('dict', None, (ETK, ZERO)) and whole(e)
                        if not ok and (bad(dk) or dk[:2] != ('dict', None)):
                            ok = None
                    elif not st:
                        ok = False if not stores and not any(
                            x.kind in ('mutate', 'mcall', 'ext') for x in q[1].events) else None
                elif empty is False:
                    ok = not st
                else:
                    ok = None if c else False
                ob.check(P, R2, ok, (st[0] if st else e).loc, 'a %svertex gets %s' % (
                    'terminal ' if empty else ('' if empty is None else 'non-terminal '),
                    show(it_deep(it, q[1], st[0].args[2])) + ' at ' + show(key(st[0].args[1])) if st else 'nothing'), p,
                    'adjacency[k][k] = {edge_type: 0} for a terminal vertex k')
            elif st and adjust == 2:
                ob.check(P, R3, False if empty and unver(key(st[0].args[1])) == k else None, e.loc,
                         'a vertex gets %s' % show(it_deep(it, q[1], st[0].args[2])), p)
            continue
        # -- given types
        ets = {ET, ('conv', '_matrix2dict', ET, ('kw', 'etype', ('c', 'bool', True))), ('conv', '_dict2dict', ET),
               ('conv', '_matrix2dict', ET, ('c', 'bool', True))}
        if ekind != 'none' and isinstance(src, tuple) and src[0] == 'item' and src[1] in ets and outer:
            u, t = src[2], ('dkey', src, ix)
            st = [x for x in stores if key(x.args[1]) == ETK]
            found.add(R4)
            ok = None
            if len(st) == 1:
                o, val = unver(key(st[0].args[0])), unver(key(st[0].args[2]))
                good = o == ('item', ('item', base, u), t) and val == ('item', src, t) and not c
                ok = good and whole(e) and whole(outer[-1][0])
                if not good and (c or bad(o) or bad(val) or base not in walk(o)):
                    ok = None
                if ok:
                    first = [i for i, x in enumerate(p.st.events) if x is outer[0][0] or x is e]
                    made = [i for i, x in enumerate(p.st.events) if x.kind == 'ext' and
                            x.name in ('networkx.from_dict_of_dicts',)]
                    if first and made and made[0] < first[0]:
                        ok = False
            elif not st and not c and not q[1].events:
                ok = False
            sd = [x for x in q[1].events if x.kind == 'mutate' and x.name == 'setdefault']
            if not st and len(sd) == 1 and unver(key(sd[0].args[0])) == ('item', ('item', base, u), t):
                ok = False
            ob.check(P, R4, ok, (st[0] if st else e).loc, 'a given type goes to %s' % (
                show(unver(key(st[0].args[0]))) if st else 'no edge'), p, 'adjacency[u][v][edge_type] = edge_type[u][v]')
            continue
        if ekind == 'matrix' and src in (('conv', '_matrix2dict', ET),):
            found.add(R4)
            ob.check(P, R4, False, e.loc, 'the numbers of the type matrix are lost', p)


def it_deep(it, st, v):
    old, it.st = it.st, st
    try:
        return it.deep(v)
    finally:
        it.st = old


def terminal(it, c, k, t, roots, p):
    """Is the target of an edge a terminal vertex: True, False, None (not decided), 'bad'."""
    for b, val in c.items():
        for r in roots:
            ln = ('len', ('item', r, t))
            if b[0] == '==' and ln in b and ZERO in b:
                return val
            if b == ('truth', ('item', r, t)):
                return not val
        if b[0] != 'in' or b[1] not in (k, t):
            continue
        s = b[2]
        good = None
        if isinstance(s, tuple) and s[:1] == ('map',):
            src = s[1]
            src = src[2] if isinstance(src, tuple) and src[:1] == ('view',) and len(src) == 3 else src
            row = ('item', src, ('dkey', src, BND))
            if src not in roots or s[2] != ('dkey', src, BND) or len(s) > 5 and s[5:]:
                return None
            g = [x for x in s[3] if x]
            if s[4] or len(g) != 1 or len(g[0]) != 2:
                return None
            (bk, bv), = g
            if bk == ('truth', row) and not bv or bk[0] == '==' and ('len', row) in bk and ZERO in bk and bv:
                good = True
            else:
                return None
        elif isinstance(s, tuple):
            adds = [(e, q, x) for e, q, o in chains(p) for x in q[1].events
                    if x.kind == 'mutate' and x.name in ('add', 'append') and unver(key(x.args[0])) == s]
            for e, q, x in adds:
                src = over(e)
                if src not in roots:
                    return None
                kk = ('dkey', src, e.info['ix'])
                em = emptiness(it, q, p, ('item', src, kk))
                if em is None and (conds(q, p) or q[3]):
                    return None
                if unver(key(x.args[1])) != kk or not em or not whole(e):
                    return 'bad'
                good = True
        if good:
            return val if b[1] == t else 'bad'
    return None


def matrix_task(prog):
    """_matrix2dict: an entry for every row, an edge for every nonzero number."""
    ob = Obligations()
    R = 'the edges of a matrix are its nonzero entries'
    for et in (False, True):
        it, ps, where = explore(prog, '_matrix2dict', [Sym(MX)], {'etype': Const(True)} if et else {},
                                lambda it: it.assume(const(1) - atom(('len', MX)), '<='), False)
        ob.absorb(it, '_matrix2dict(etype=%s)' % et, ps)
        n = ('len', MX)
        rng = ('view', 'range', ZERO, n, ONEK)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                ob.check(P, R, None, where, '%s' % (p.value,), p)
                continue
            rows_ = it.deep(p.value)
            lp = [(e, q, o) for e, q, o in chains(p) if o and any(over(o[i][0]) == rng for i in range(len(o)))]
            if not (rows_[:1] == ('mapdict',) and rows_[2] == BND) or not lp:
                ob.check(P, R, None, where, 'returns %s' % show(rows_), p)
                continue
            ob.check(P, 'every row of a matrix is a vertex', True if rows_[1] == rng else (
                False if rows_[1][:2] == ('view', 'range') else None), where, 'rows of %s' % show(rows_[1]), p,
                'range(len(matrix))')
            for e, q, o in lp:
                a, b = o[-1][0].info['ix'], e.info['ix']
                m = ('item', MX, ('tup', a, b))
                m2 = ('item', ('item', MX, a), b)
                c = conds(q, p)
                nz = None
                if bad(over(e)) or any(bad(over(x[0])) for x in o):
                    ob.check(P, R, None, e.loc, 'rows are read in an unknown way', p)
                    continue
                for bk, val in c.items():
                    if bk[0] == '==' and (m in bk or m2 in bk) and ZERO in bk:
                        nz = not val
                    if bk in (('truth', m), ('truth', m2)):
                        nz = val
                other = any(MX in walk(bk) and not (m in walk(bk) or m2 in walk(bk)) for bk in c)
                st = [x for x in q[1].events if x.kind == 'setitem']
                ok = None
                if nz is None:
                    ok = False if other or (st and not c) else None
                elif nz:
                    if len(st) == 1:
                        val = it_deep(it, q[1], st[0].args[2])
                        bk = st[0].args[0]
                        row = key(bk)
                        ok = key(st[0].args[1]) == b and row[0] == 'item' and row[2] == a and (
                            unver(val) in (m, m2) if et else val == ('dict', None))
                        if not ok and (row[0] != 'item' or bad(val)):
                            ok = None
                        ok = ok and (True if whole(e) and whole(o[-1][0]) and over(e) == rng else
                                     (False if over(e)[:2] == ('view', 'range') else None))
                    elif not st:
                        ok = False
                else:
                    ok = not st
                ob.check(P, R, ok, (st[0] if st else e).loc, 'entry (%s, %s) that is %s becomes %s' % (
                    show(a), show(b), {True: 'not zero', False: 'zero', None: '?'}[nz],
                    show(key(st[0].args[1])) if st else 'no edge'), p, 'adj[k][j] for matrix[k, j] != 0')
    return ob


def dict_task(prog):
    """_dict2dict: lists become dicts of edges without properties, a dict of dicts stays."""
    ob = Obligations()
    R = 'a dict of lists has the same edges as a dict of dicts'
    it, ps, where = explore(prog, '_dict2dict', [Sym(AD)], {}, lambda it: it.assume(ONE - atom(('len', AD)), '<='), False)
    ob.absorb(it, '_dict2dict', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R, None, where, '%s' % (p.value,), p)
            continue
        k = unver(it.deep(p.value))
        nested_ = [v for b, v in p.st.bools.items() if b[0] == 'isinst' and b[2] == ('ext', 'dict') and AD in walk(unver(b[1]))]
        if not nested_:
            ob.check(P, R, None if p.st.bools else False, where, 'lists and dicts are treated alike', p)
            continue
        if nested_[0]:
            ob.check(P, R, True if k == AD else (None if k[0] in ('mapdict', 'call', 'dict') else False), where,
                     'a dict of dicts becomes %s' % show(k), p, 'unchanged')
            pops = [e for e in p.st.events if e.kind in ('mutate', 'delitem') and unver(key(e.args[0])) == AD]
            sets_ = [e for e in p.st.events if e.kind == 'setitem' and unver(key(e.args[0])) == AD]
            if any(e.name == 'popitem' for e in pops):
                res = ('mres', AD, 'popitem')
                back = any(unver(key(e.args[1])) == ('item', res, ZERO) and unver(key(e.args[2])) == ('item', res, ONEK)
                           for e in sets_)
                ob.check(P, 'no entry is lost', back or (False if not sets_ else None), where,
                         'an entry that is popped is not put back', p, 'put back')
            continue
        if k == AD:
            ob.check(P, R, False, where, 'lists are kept', p)
            continue
        inner = [(e, q, o) for e, q, o in chains(p) if o and unver(e.info['iter'])[:2] == ('item', AD)]
        for e, q, o in inner:
            st = [x for x in q[1].events if x.kind == 'setitem']
            ok = None
            u = unver(e.info['iter'])[2]
            el = ('elem', unver(e.info['iter']), e.info['ix'])
            if len(st) == 1:
                ok = unver(key(st[0].args[1])) == el and it_deep(it, q[1], st[0].args[2]) == ('dict', None) and whole(e)
                if not ok and bad(unver(key(st[0].args[1]))):
                    ok = None
            elif not st:
                ok = False if not q[1].events and all(
                    b[0] == '==' and set(b[1:]) == {el, u} for b in conds(q, p)) else None
            ob.check(P, R, ok, (st[0] if st else e).loc, 'an edge becomes %s' % (
                show(unver(key(st[0].args[1]))) if st else 'nothing'), p, '{v: {} for v in list}')
            os_ = [x for x in o[-1][1][1].events if x.kind == 'setitem' and unver(key(x.args[1])) == u]
            ob.check(P, 'no entry is lost', True if os_ and whole(o[-1][0]) else None, e.loc, 'a vertex is lost', p,
                     'every key keeps its entry')
        if not inner and k[:1] == ('mapdict',):
            e = k[3]
            ok = None
            if unver(k[2])[:2] == ('dkey', AD) and e[:1] == ('mapdict',):
                ok = True
            ob.check(P, R, ok, where, 'lists become %s' % show(k), p)
    return ob


ONE = const(1)
