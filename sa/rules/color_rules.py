"""Colors show the state of the network, and looking at it changes nothing (C37)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from .union_rules import unver, walk, nested, looping
from .qenv import CLS, QueueCfg
from ..core.frontend import AnchorMissing
from ..core.values import mentions

P = 'C37'
NETCLS = 'queueing_tool.network.queue_network.QueueNetwork'
DISPLAY = ('edge_color', 'vertex_color', 'vertex_fill_color', 'edge_pen_width', 'vertex_pen_width', 'pos',
           'vertex_size', 'vertex_halo_color', 'edge_width')


class ColorCfg(GraphCfg):
    stubs = ('_current_color', '_update_vertex_color', '_update_all_colors', 'draw', 'draw_graph')
    own_fn = None
    drawing = ()

    def solid(self, it, k):
        return k == ('arg', 'qedge') or GraphCfg.solid(self, it, k)

    def call(self, it, f, args, kw, node):
        fn = f.fn if isinstance(f, Bound) else f
        n = fn.node.name if isinstance(fn, Fn) and hasattr(fn.node, 'name') else (
            f.name if isinstance(f, ExtMeth) else None)
        o = f.self_ if isinstance(f, (Bound, ExtMeth)) else None
        if n in self.stubs and (not isinstance(fn, Fn) or fn.node is not self.own_fn) and isinstance(o, Sym):
            if n == '_current_color':
                w = args[0] if args else kw.get('which', const(0))
                it.event('color', n, [o, w], node)
                return Sym(('color', o.key, key(w)))
            it.event('stub', n, [o] + list(args), node, kw=kw)
            return NONE
        return GraphCfg.call(self, it, f, args, kw, node)


def explore_net_method(prog, name, args=(), kw=None, setup=None, cfg=None):
    cfg = cfg or ColorCfg()
    cfg.drawing = ()
    it = Interp(prog, cfg)
    ctx = {'where': '?'}

    def pre(it):
        if setup:
            setup(it)
        return ctx

    def run(it, _):
        m = it.class_attr(it.get_class(NETCLS), name)
        if not m or not isinstance(m[0], Fn):
            raise AnchorMissing(name)
        cfg.own_fn = m[0].node
        ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
        return it.call(Bound(Sym(NET), m[0]), list(args), dict(kw or {}), None)
    ps = it.explore(pre, run)
    return it, ps, ctx['where']


# -- who a color belongs to -------------------------------------------------------------------
def parts_of(e):
    """(source, target) terms of an edge key."""
    e = unver(e)
    if e[:1] == ('tup',) and len(e) >= 3:
        return e[1], e[2]
    if e[:1] == ('slice',) and len(e) == 5 and e[2] in (('c', 'NoneType', None), ('c', 0)) and e[3] == ('c', 2) and \
            e[4] in (('c', 'NoneType', None), ('c', 1)):
        return ('item', e[1], ('c', 0)), ('item', e[1], ('c', 1))
    return None


def queue_ends(q):
    """(source, target) pairs under which the edge of a queue is known."""
    q = unver(q)
    out = [(('esrc', q), ('etgt', q))]
    if q[:1] == ('Q',):
        k = q[1]
        if k[:1] == ('eidx',) and len(k) == 4:
            out.append((k[2], k[3]))
        if k[:1] == ('item',) and k[2] == ('c', 2):
            out.append((('item', k[1], ('c', 0)), ('item', k[1], ('c', 1))))
        if k[:1] in (('ix',), ('sel',)):
            pass
    return out


def looped(p, q):
    """Does the edge of a queue start and end at one vertex on this path (True/False/None)?"""
    for a, b in queue_ends(q):
        if a == b:
            return True
        for k, val in p.bools.items():
            if k[:1] == ('==',) and len(k) == 3 and {unslice(k[1]), unslice(k[2])} == {a, b}:
                return val
    return None


def unslice(k):
    """An item of a leading slice is an item of the whole."""
    k = unver(k)
    if k[:1] == ('item',) and len(k) == 3 and k[2] in (('c', 0), ('c', 1)):
        pr = parts_of(k[1])
        if pr is not None:
            return pr[k[2][1]]
    return k


def asks(st, q):
    """May something on the path tell whether the edge of a queue is a loop?"""
    def has(k, test):
        return mentions(k, lambda x: isinstance(x, tuple) and x != () and test(x))
    ends = {unslice(x) for pr in queue_ends(q) for x in pr}
    for k in list(st.bools) + [l for l, op in st.lin]:
        if isinstance(k, Lin):
            if any(has(a, lambda x: x in ends) for a in k.t) and not any(has(
                    a, lambda x: x[:1] in (('item',), ('etype',), ('ep',)) and unslice(x) not in ends) for a in k.t):
                return True
            continue
        if k[:1] == ('==',) and len(k) == 3:
            a, b = unslice(k[1]), unslice(k[2])
            if (a in ends) != (b in ends) and all(z[:1] in (('item',), ('c',), ('esrc',), ('etgt',), ('etype',)) for z in (a, b)):
                continue        # compared with something else
        if k[:1] in (('isnone',),) or not has(k, lambda x: unslice(x) in ends or x in (q,) or q[:1] == ('Q',) and
                                                   q[1][:1] == ('item',) and x == q[1][1]):
            continue
        if etype_zero(st, q) is not None and has(k, lambda x: x[:1] in (('etype',), ('ep',))):
            continue
        return True
    return False


def etype_zero(st, q):
    q = unver(q)
    cands = [('etype', q)]
    for a, b in queue_ends(q):
        cands.append(('ep', NG, 'edge_type', a, b))
    if q[:1] == ('Q',) and q[1][:1] == ('item',) and q[1][2] == ('c', 2):
        cands.append(('item', q[1][1], ('c', 3)))
    for t in cands:
        for x in (('==', ('c', 0), t), ('==', t, ('c', 0))):
            if x in st.bools:
                return st.bools[x]
        if ('truth', t) in st.bools:
            return not st.bools[('truth', t)]
    return None


def open_types(st, q):
    """The types the queue may have on the path; None if something else is asked about its type."""
    q = unver(q)
    cands = {('etype', q)} | {('ep', NG, 'edge_type', a, b) for a, b in queue_ends(q)}
    if q[:1] == ('Q',) and q[1][:1] == ('item',) and q[1][2] == ('c', 2):
        cands.add(('item', q[1][1], ('c', 3)))

    def about(k):
        return mentions(k, lambda x: isinstance(x, tuple) and x != () and x in cands)
    left = set(range(6))
    for k, b in st.bools.items():
        if not about(k):
            continue
        if k[:1] == ('truth',) and k[1] in cands:
            left = {n for n in left if bool(n) == b}
        elif k[:1] == ('==',) and len(k) == 3 and any(
                x in cands and y[:1] == ('c',) and len(y) == 2 for x, y in (k[1:], k[:0:-1])):
            c = [x[1] for x in k[1:] if x[:1] == ('c',)][0]
            left = {n for n in left if (n == c) == b}
        else:
            return None
    for l, op in st.lin:
        if any(about(a) for a in l.t):
            if len(l.t) != 1:
                return None
            (a, c), = l.t.items()
            if a not in cands:
                return None
            left = {n for n in left if {'==': c * n + l.c == 0, '<': c * n + l.c < 0, '<=': c * n + l.c <= 0}[op]}
    return left


def gsets(events):
    """(what, key of edge or vertex, property, value, loc) in order."""
    out = []
    for e in events:
        if e.kind == 'gset' and e.name in ('set_ep', 'set_vp') and len(e.args) == 4:
            out.append((e.name[4:], key(e.args[1]), key(e.args[2])[-1], key(e.args[3]), e.loc))
    return out


def last(sets, what, prop):
    for s in reversed(sets):
        if s[0] == what and s[2] == prop:
            return s
    return None


def queue_colors(ob, it, p, st, events, where, qk, rules, flags=None, ends=None):
    """The edge and the vertices of one queue after its colors were brought up to date."""
    R1, R2, R3 = rules
    sets = gsets(events)
    lp = looped(st, qk)
    src, tgt = (ends or queue_ends(qk))[-1] if True else None
    names = [src, tgt]
    alls = queue_ends(qk) + (ends or [])

    def of(v, i):
        return any(unver(v) == unver(x[i]) for x in alls)

    def isedge(e):
        pr = parts_of(e)
        return pr is not None and of(pr[0], 0) and of(pr[1], 1)
    mine = [s for s in sets if s[0] == 'ep' and s[2] == 'edge_color']
    # whatever comes from a queue goes to its own edge or vertex
    for what, k, prop, val, loc in sets:
        if val[:1] != ('color',):
            continue
        if unver(val[1]) != unver(qk):
            continue
        if what == 'ep':
            ok = isedge(k) if parts_of(k) is not None else None
        else:
            ok = of(k, 1) or of(k, 0) and lp is True
            if not ok and lp is None:
                ok = None if of(k, 0) else False
        ob.check(P, R1, ok, loc, '%s of %s is taken from %s' % (prop, show(k), show(qk)), p, 'own edge')
    own = [s for s in mine if s[3][:1] == ('color',) and unver(s[3][1]) == unver(qk)]
    if lp is None and not [x for x in mine if x[3][:1] != ('color',)] and not own:
        ob.check(P, R2, False, where, 'the color of the edge of %s is not brought up to date' % show(qk), p)
        return
    if lp is None:
        ok = None if not own or asks(st, qk) else False
        ob.check(P, R2, ok, own[-1][4] if own else where,
                 'not known whether %s is on a loop' % show(qk) if ok is None else
                 'the color of the edge of %s does not depend on whether it is a loop' % show(qk), p)
        return
    if not own:
        ob.check(P, R2, False if not [s for s in mine if s[3][:1] != ('color',)] else None, where,
                 'the color of the edge of %s is not brought up to date' % show(qk), p)
    else:
        w = own[-1][3][2]
        want = ('c', 1) if lp else ('c', 0)
        good = w == want or not lp and w[:1] == ('c',) and w[1] not in (1, 2)
        ob.check(P, R2, good if w[:1] == ('c',) else None, own[-1][4], 'the edge of %s gets the color for %s' % (
            show(qk), {1: 'loops', 2: 'the pen'}.get(w[1] if len(w) == 2 else None, 'edges')), p, 'edge color')
    stubs = [key(e.args[1]) for e in events if e.kind == 'stub' and e.name == '_update_vertex_color' and len(e.args) > 1]

    def vertex_done(i):
        if any(of(v, i) or lp and of(v, 1 - i) for v in stubs):
            return True
        if flags is not None:
            return flags(alls, i)
        return False
    if lp:
        for prop, w, needed in (('vertex_color', 2, True), ('vertex_fill_color', 0, None)):
            vs = [s for s in sets if s[0] == 'vp' and s[2] == prop and s[3][:1] == ('color',) and unver(s[3][1]) == unver(qk)]
            z = etype_zero(st, qk)
            if prop == 'vertex_fill_color':
                if z is True:
                    ok = vertex_done(1) if flags is not None else True
                    if vs:
                        ok = False
                    ob.check(P, R3, ok, vs[-1][4] if vs else where, 'the vertex of a loop of type 0 %s' % (
                        'takes its color from the loop' if vs else 'is not brought up to date'), p, 'by its in edges')
                    continue
                if z is None:
                    t = open_types(st, qk)
                    bad = t is not None and (0 in t and bool(vs) or bool(t - {0}) and not vs)
                    ob.check(P, R3, False if bad else None, vs[-1][4] if vs else where,
                             'the fill color of the vertex of a loop is %s the loop whatever its type' % (
                                 'taken from' if vs else 'not taken from'), p)
                    continue
            if not vs:
                ob.check(P, R3, False, where, '%s of the vertex of loop %s is not brought up to date' % (prop, show(qk)), p)
            else:
                got = vs[-1][3][2]
                good = got == ('c', w) or w == 0 and got[:1] == ('c',) and got[1] not in (1, 2)
                ob.check(P, R3, good if got[:1] == ('c',) else None, vs[-1][4], '%s is color %s of the loop' % (
                    prop, show(got)), p, '%s of the loop' % prop)
    else:
        for i in ((0, 1) if flags is not None else (1,)):
            ok = vertex_done(i)
            ob.check(P, R3, ok, where, 'the vertex %s of the edge of %s is not brought up to date' % (
                'at the start' if i == 0 else 'at the end', show(qk)), p, 'vertices by their in edges')


def all_task(prog):
    """_update_all_colors"""
    ob = Obligations()
    rules = ('a color taken from a queue goes to its own edge or vertex', 'every edge shows its queue',
             'every vertex is brought up to date')
    it, ps, where = explore_net_method(prog, '_update_all_colors')
    ob.absorb(it, '_update_all_colors', ps)
    seen = False
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, rules[1], None, where, '%s' % (p.value,), p)
            continue
        for e, q, o in looping(p.st.events):
            acts = [x for x in q[1].events if x.kind in ('gset', 'stub')]
            if not acts and not any(x.kind == 'color' for x in q[1].events):
                continue
            src = unver(e.info['iter'])
            ix = e.info['ix']
            if src == E2Q:
                qk = ('Q', ix)
            elif src[:1] == ('edges',) and src[1] == NG:
                qk = ('Q', ('eidx', NG, ('eu', NG, ix), ('ev', NG, ix)))
            elif src[:2] == ('view', 'enumerate') and src[2] == E2Q:
                qk = ('Q', ix)
            elif src[:2] == ('view', 'range') and 'nE' in repr(src) or src[:2] == ('view', 'range') and E2Q in walk(src):
                qk = ('Q', ix)
            elif src[:1] == ('nodes',) or src[:2] == ('view', 'range'):
                # vertices in a loop of their own
                vt = ('node', NG, ix) if src[:1] == ('nodes',) else ix
                st = [x for x in acts if x.kind == 'stub' and unver(key(x.args[1])) == vt]
                ob.check(P, rules[2], True if st and e.info.get('complete') else None, e.loc, 'loop over vertices', p)
                continue
            else:
                ob.check(P, rules[1], None, e.loc, 'a loop over %s' % show(src), p)
                continue
            seen = True
            ob.check(P, rules[1], bool(e.info.get('complete')) or None, e.loc, 'the loop ends early', p, 'all queues')
            st = q[1]

            def flags(alls, i, st=st, qk=qk):
                """The vertex was handled before: a mark of its own says so."""
                vs = [unver(x[i]) for x in alls]
                lp = looped(st, qk)
                if lp:
                    vs += [unver(x[1 - i]) for x in alls]
                for b, val in st.bools.items():
                    if b[:1] == ('truth',) and b[1][:1] == ('item',) and unver(b[1][2]) in vs and 'new' in repr(b[1][1])[:12]:
                        return mark(e, b[1][1], val, looped, qk, st)
                    if b[:1] == ('in',) and unver(b[1]) in vs and 'new' in repr(b[2]):
                        return mark(e, b[2], val, looped, qk, st)
                return False
            queue_colors(ob, it, p, st, q[1].events, e.loc, qk, rules, flags)
    if not seen and not any(True for p in ps for e in p.st.events if e.kind == 'loop'):
        ob.check(P, rules[1], None, where, 'no loop over the queues')
    return ob


def mark(e, cont, val, looped_, qk, st):
    """A mark in a local list or set: it is set only where the vertex is handled."""
    base = base_of(cont)
    for sig, s2, start, nl, nb in e.info['paths']:
        stubs = [unver(key(x.args[1])) for x in s2.events if x.kind == 'stub' and len(x.args) > 1]
        fills = [unver(g[1]) for g in gsets(s2.events) if g[0] == 'vp' and g[2] == 'vertex_fill_color']
        lp = looped_(s2, qk)
        for x in s2.events:
            if x.kind == 'setitem' and base_of(key(x.args[0])) == base:
                v = unver(key(x.args[1]))
            elif x.kind in ('mutate', 'mcall') and x.name in ('add', 'append', 'remove', 'discard') and base_of(key(x.args[0])) == base:
                v = unver(key(x.args[1]))
            else:
                continue
            if v in stubs or v in fills:
                continue
            # both names of the vertex of a loop
            ends = [z for pr in queue_ends(qk) for z in pr]
            if lp and v in ends and any(z in stubs or z in fills for z in ends):
                continue
            again = [b for b, w in s2.bools.items() if b[:1] == ('truth',) and b[1][:1] == ('item',)
                     and base_of(b[1][1]) == base and w != (not val) and w == val and
                     (unver(b[1][2]) == v or lp and unver(b[1][2]) in ends)]
            again += [b for b, w in s2.bools.items() if b[:1] == ('in',) and base_of(b[2]) == base and w == val and
                      (unver(b[1]) == v or lp and unver(b[1]) in ends)]
            if again:
                continue
            return False
    return True


def base_of(k):
    while isinstance(k, tuple) and k and k[0] in ('at', 'was'):
        k = k[1]
    return k


def graph_task(prog):
    """_update_graph_colors"""
    ob = Obligations()
    rules = ('a color taken from a queue goes to its own edge or vertex', 'every edge shows its queue',
             'every vertex is brought up to date')
    qe = ('arg', 'qedge')
    pe = ('attr', NET, '_prev_edge')
    it, ps, where = explore_net_method(prog, '_update_graph_colors', [Sym(qe)])
    ob.absorb(it, '_update_graph_colors', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, rules[1], None, where, '%s' % (p.value,), p)
            continue
        had = p.st.bools.get(('isnone', pe))
        if had is None:
            had = not p.st.bools[('truth', pe)] if ('truth', pe) in p.st.bools else None
        sets = gsets(p.st.events)
        cuts = [('Q', ('item', qe, ('c', 2)))]
        if had is False:
            cuts.insert(0, ('Q', ('item', pe, ('c', 2))))
        for qk in cuts:
            queue_colors(ob, it, p, p.st, p.st.events, where, qk, rules)
        other = [s for s in sets if s[3][:1] == ('color',) and unver(s[3][1]) not in cuts]
        ob.check(P, rules[0], None if other else True, where, 'a color of another queue', p, 'the two queues')
        # what the new queue shows must not be hidden by the old one
        if had is False:
            firstnew = [i for i, s in enumerate(sets) if s[3][:1] == ('color',) and unver(s[3][1]) == cuts[1] and s[0] == 'ep']
            lastold = [i for i, s in enumerate(sets) if s[3][:1] == ('color',) and unver(s[3][1]) == cuts[0] and s[0] == 'ep']
            ob.check(P, rules[1], True if firstnew and lastold else None, where, 'order of the two', p)
    return ob


def shades(it, p, colors):
    """What the numbers of a color are multiplied with on a path; None in the list where it is not known."""
    out = []
    for e in nested(p.st.events):
        if e.kind != 'loop' or not e.info:
            continue
        src = unver(e.info.get('iter') or ())
        if not any(k[:1] == ('item',) and len(k) == 3 and unver(k[1]) == colors for k in walk(src)):
            continue
        for z in e.info.get('paths') or ():
            if z[0] is not None and z[0][0] != 'continue':
                continue
            for c in z[1].content.values():
                if not isinstance(c, UList) or c.base[:1] != ('grow',) or len(c.base) < 3 or c.base[2] != e.info['ix'][1]:
                    continue
                for x in c.suffix:
                    f = factor(x, e.info['ix'])
                    out.append((f, e.loc, z))
    return out


def factor(x, ix):
    own = lambda k: k[:1] == ('elem',) and len(k) == 3 and k[2] == ix
    if isinstance(x, Sym):
        x = atom(x.key)
    if not isinstance(x, Lin):
        return None
    if not x.t:
        return const(0) if x.c == 0 else None
    if len(x.t) != 1 or x.c != 0:
        return None
    (a, c), = x.t.items()
    if own(a):
        return const(c)
    if a[:1] == ('mul',) and len(a) == 3:
        for m, o in ((a[1], a[2]), (a[2], a[1])):
            if own(m):
                f = from_key(o)
                f = f if isinstance(f, Lin) else atom(o)
                return f.scale(c)
    return None


def shade_rule(ob, R, it, found, where, whole=None):
    """More agents, a darker color.  found: (path, factor, loc, iteration)"""
    known = [x for x in found if x[1] is not None]
    if not found:
        return

    def moves(x):
        it.st = x[3][1]
        return any(not it.entails(atom(a), '<=') for a in x[1].t)
    moving = [x for x in known if x[1].t and moves(x)]
    if not moving:
        ob.check(P, R, False if len(known) == len(found) else None, found[0][2] or where,
                 'the shade does not depend on the number of agents', found[0][0])
        return
    for p, f, loc, z in moving:
        divs = [(a, c) for a, c in f.t.items() if a[:1] == ('div',) and len(a) == 3]
        if len(divs) != 1 or len(f.t) != 1:
            ob.check(P, R, None, loc, 'shade %s' % show(key(f)), p)
            continue
        (d, c), = divs
        n = from_key(d[1])
        n = n if isinstance(n, Lin) else atom(d[1])
        up = all(x > 0 for x in n.t.values())
        if whole is not None and n.t and all(a[:1] == ('n',) for a in n.t):
            ob.check(P, R, n.c == 0 and n.t == whole.t, loc, 'shaded by %s' % show(key(n)), p, 'the number in the system')
        ob.check(P, R, c < 0 if up and n.t else None, loc, 'the color gets lighter with more agents', p, 'darker with more agents')
        it.st = z[1]
        if f.c > 0 and c < 0 and it.entails(f, '<='):
            ob.check(P, R, False, loc, 'the shade is negative', p)


def vertex_task(prog):
    """_update_vertex_color"""
    ob = Obligations()
    R1, R2 = 'a vertex with a loop of type 0 or none is shaded by its in edges', 'a vertex keeps the color of its loop'
    v = ('arg', 'v')

    def setup(it):
        it.assume(const(1) - atom(('len', ('item', ('attr', NET, 'colors'), ('c', 'str', 'vertex_fill_color')))), '<=')
    it, ps, where = explore_net_method(prog, '_update_vertex_color', [Sym(v)], None, setup)
    ob.absorb(it, '_update_vertex_color', ps)
    lpq = ('Q', ('eidx', NG, v, v))
    found = []
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            continue          # colors with fewer than four numbers
        found += [(p,) + x for x in shades(it, p, ('attr', NET, 'colors'))]
        it.st = p.st
        sets = gsets(p.st.events)
        has = p.st.bools.get(('in', ('tup', v, v), ('eindex', NG)))
        z = etype_zero(p.st, lpq)
        fills = [s for s in sets if s[2] == 'vertex_fill_color']
        pens = [s for s in sets if s[2] == 'vertex_color']
        for s in sets:
            ob.check(P, R1, s[1] == v if s[0] == 'vp' else None, s[4], 'sets %s of %s' % (s[2], show(s[1])), p, 'the vertex')
        if has is None:
            ob.check(P, R1, None, where, 'existence of a loop', p)
        elif has is False or z is True:
            ob.check(P, R1, bool(fills), where, 'the vertex is not shaded', p, 'vertex_fill_color')
            if fills:
                over = [e for e in nested(p.st.events) if e.kind in ('loop', 'loop0') and e.info and
                        unver(e.info.get('iter') or ()) in (('nin', v), ('ie', NG, v), ('item', ('attr', NET, 'in_edges'), v))]
                wrong = [e for e in nested(p.st.events) if e.kind in ('loop', 'loop0') and e.info and
                         unver(e.info.get('iter') or ())[:1] in (('nout',), ('oe',), ('succ',))]
                maps = [k for e in p.st.events for a in e.args if isinstance(a, (Sym, Lin)) for k in walk(it.deep(a))
                        if k in (('nin', v), ('ie', NG, v))]
                ob.check(P, R1, True if over or maps else (False if wrong else None), fills[-1][4],
                         'shaded by other edges', p, 'in edges')
        elif z is None:
            asked = [b for b in p.st.bools if 'etype' in repr(b) or 'edge_type' in repr(b)]
            ob.check(P, R1, None if asked else False, where,
                     'the vertex of a loop is %s whatever its type' % ('shaded' if fills else 'not shaded'), p)
        elif has is True and z is False:
            ob.check(P, R2, not fills, fills[-1][4] if fills else where, 'the fill color of a vertex with a loop is replaced', p,
                     'unchanged')
        if has is True:
            ob.check(P, R2, not pens, pens[-1][4] if pens else where, 'the pen color of a vertex with a loop is replaced', p,
                     'unchanged')
        elif has is False:
            own = [s for s in pens if s[1] == v]
            ok = bool(own) if own or not [s for s in pens if s[0] == 'vp'] else None
            ob.check(P, 'the pen color of a vertex without a loop is the one of the network', ok, where,
                     'the pen color of a vertex without a loop is not brought up to date', p, 'vertex_color')
            if own and named(own[-1][3]) is not None:
                ob.check(P, 'the pen color of a vertex without a loop is the one of the network',
                         named(own[-1][3]) == 'vertex_color', own[-1][4], 'the pen gets %s' % show(own[-1][3]), p)
    shade_rule(ob, 'the shade gets darker with the number of agents', it, found, where)
    return ob


# -- views of one aspect ------------------------------------------------------------------------
NCOL = ('attr', NET, 'colors')


def named(k):
    """Name of a color of the network."""
    k = unver(k)
    if k[:1] == ('item',) and k[1] == NCOL and k[2][:2] == ('c', 'str'):
        return k[2][2]
    return None


def iteration(e, what):
    """Edge ((u, v), queue) or vertex of an iteration."""
    src, ix = unver(e.info['iter']), e.info['ix']
    if what == 'e':
        if src == ('edges', NG) or src[:2] == SORTED and src[2:] == (('edges', NG),):
            a, b = ('eu', 'ev') if src == ('edges', NG) else ('su', 'sv')
            return (a, NG, ix), (b, NG, ix)
        if src == E2Q:
            return ('esrc', ('Q', ix)), ('etgt', ('Q', ix))
    else:
        if src == ('nodes', NG):
            return ('node', NG, ix)
        if src == NG:
            return ('node', NG, ix)
        if src[:2] == ('view', 'range') and src[2:4] == (('c', 0), ('nV', NG)):
            return ix
    return None


def edges_of(ob, p, rule, R0, cond):
    """Each edge iteration: its color is the one for the truth of `cond` (None: constant term)."""
    n = 0
    for e, q, o in looping(p.st.events):
        if o:
            pass
        sets = [s for s in gsets(q[1].events) if s[0] == 'ep' and s[2] == 'edge_color']
        ed = iteration(e, 'e')
        if ed is None:
            if sets:
                ob.check(P, rule, None, e.loc, 'a loop over %s' % show(e.info['iter']), p)
            continue
        n += 1
        if not sets:
            ob.check(P, rule, None if not e.info.get('complete') else False, e.loc, 'an edge keeps its color', p)
            continue
        s = sets[-1]
        pr = parts_of(s[1])
        ob.check(P, R0, (pr == ed) if pr is not None else None, s[4], 'sets the color of %s' % show(s[1]), p, 'edge of the iteration')
        cond(ed, q, s, e)
        ob.check(P, rule, bool(e.info.get('complete')) or None, e.loc, 'the loop ends early', p)
    return n


def active_of(st, ed):
    u, v = ed
    for qk in ([('Q', ('eidx', NG, u, v))] + ([u[1]] if u[:1] == ('esrc',) else [])):
        b = ('truth', ('attr', qk, '_active'))
        if b in st.bools:
            return st.bools[b]
    others = [x for x in st.bools if x[:1] == ('truth',) and x[1][:1] == ('attr',) and x[1][2] == '_active']
    return 'other' if others else None


def frame(ob, p, where, rule):
    """Draw what was set and then bring the real colors back."""
    ev = [e for e in p.st.events if e.kind in ('stub', 'loop', 'gset')]
    names = [e.name if e.kind == 'stub' else e.kind for e in ev]
    dr = [i for i, n in enumerate(names) if n in ('draw', 'draw_graph')]
    ob.check(P, rule, True if len(dr) == 1 else (None if dr else False), where, 'draws %d times' % len(dr), p, 'drawn once')
    if len(dr) != 1:
        return
    e = ev[dr[0]]
    if e.name == 'draw':
        kw = e.kw or {}
        u = kw.get('update_colors', e.args[1] if len(e.args) > 1 else None)
        ok = False if u is None else (key(u) == key(FALSE) if key(u)[:1] == ('c',) else None)
        ob.check(P, rule, ok, e.loc, 'draw brings the colors up to date first: nothing of the view is left', p, 'update_colors=False')
    late = [i for i, n in enumerate(names) if n in ('loop', 'gset') and i > dr[0]]
    restore = [i for i, n in enumerate(names) if n == '_update_all_colors' and i > dr[0]]
    ob.check(P, rule, True if restore else (None if late else False), where, 'the colors of the view stay after it', p,
             'then _update_all_colors')
    early = [i for i, n in enumerate(names) if n == '_update_all_colors' and i < dr[0] and any(
        m in ('loop', 'gset') and j < i for j, m in enumerate(names))]
    ob.check(P, rule, False if early else True, where, 'the view is overwritten before it is drawn', p, 'view, drawing, colors')


def active_task(prog):
    ob = Obligations()
    R0, R1, R2, R3 = ('a color goes to the edge or vertex it was computed for', 'an edge is active when its queue is',
                      'a vertex is active when a queue into it is', 'a view is drawn and then taken back')
    it, ps, where = explore_net_method(prog, 'show_active')
    ob.absorb(it, 'show_active', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue

        def cond(ed, q, s, e):
            a, c = active_of(q[1], ed), named(s[3])
            if a in (True, False) and c in ('edge_active', 'edge_inactive'):
                ok = (c == 'edge_active') == a
            elif a == 'other':
                ok = False if c else None
            elif c and not q[1].bools:
                ok = False
            else:
                ok = None
            ob.check(P, R1, ok, s[4], 'an edge gets %s when %s' % (show(s[3]), {True: 'its queue is active', False:
                     'its queue is not active', 'other': 'another queue is active'}.get(a, 'anything')), p, 'by its own queue')
        n = edges_of(ob, p, R1, R0, cond)
        for e, q, o in looping(p.st.events):
            v = iteration(e, 'v')
            sets = [s for s in gsets(q[1].events) if s[0] == 'vp' and s[2] == 'vertex_fill_color']
            if v is None or unver(e.info['iter'])[:1] == ('ie',):
                if sets and v is None:
                    ob.check(P, R2, None, e.loc, 'a loop over %s' % show(e.info['iter']), p)
                continue
            if not sets:
                ob.check(P, R2, False, e.loc, 'a vertex keeps its color', p)
                continue
            s = sets[-1]
            ob.check(P, R0, unver(s[1]) == v, s[4], 'sets the color of %s' % show(s[1]), p, 'the vertex')
            c = named(s[3])
            ob.check(P, R2, vertex_active(q, v, c), s[4], 'the vertex gets %s' % show(s[3]), p, 'by the queues into it')
        frame(ob, p, where, R3)
    return ob


def vertex_active(q, v, c):
    if c not in ('vertex_active', 'vertex_inactive'):
        return False if c else None
    st = q[1]
    hits, other = [], False
    for b, val in st.bools.items():
        if b[:1] == ('truth',) and b[1][:1] == ('attr',) and b[1][2] == '_active' and b[1][1][:1] == ('Q',):
            k = b[1][1][1]
            into = k[:1] == ('eidx',) and unver(k[3]) == v
            hits.append((into, val))
        elif b[:1] == ('truth',) and isinstance(b[1], tuple) and b[1][:2] == ('call', 'builtins.any'):
            m = b[1][2]
            srcs = [x for x in walk(m) if isinstance(x, tuple) and x[:1] in (('ie',), ('nin',))]
            if '_active' in repr(m) and srcs and all(x[-1] == v for x in srcs):
                return (c == 'vertex_active') == val
            other = True
        elif '_active' in repr(b):
            other = True
    inner = [e for e in st.events if e.kind in ('loop', 'loop0') and e.info and unver(e.info.get('iter') or ())[:1] in (
        ('ie',), ('nin',), ('oe',), ('nout',), ('pred',), ('succ',))]
    if other:
        return None
    if c == 'vertex_active':
        if any(i and val for i, val in hits):
            return True
        if inner and hits:
            return False
        return None if inner else False
    # inactive: no queue into it is active
    if any(i and val for i, val in hits):
        return False
    if len(inner) != 1:
        return None if inner else False
    e = inner[0]
    src = unver(e.info.get('iter'))
    if src not in (('ie', NG, v), ('nin', v)):
        return False if src[:1] in (('oe',), ('nout',), ('succ',)) else None
    if e.kind == 'loop0':
        return True
    return bool(e.info.get('complete')) or None


def type_task(prog):
    ob = Obligations()
    R0, R1, R2, R3 = ('a color goes to the edge or vertex it was computed for', 'an edge stands out when it has the type',
                      'a vertex stands out when it has a loop of the type', 'a view is drawn and then taken back')
    et = ('arg', 'edge_type')
    it, ps, where = explore_net_method(prog, 'show_type', [Sym(et)])
    ob.absorb(it, 'show_type', ps)

    def typed(st, u, v):
        """Truth of: the edge (u, v) has the type."""
        for t in [('ep', NG, 'edge_type', u, v)] + ([('etype', u[1])] if u[:1] == ('esrc',) else []) + [
                ('etype', ('Q', ('eidx', NG, u, v)))]:
            for b in (('==', t, et), ('==', et, t)):
                if b in st.bools:
                    return st.bools[b]
        return 'other' if any(et in walk(b) for b in st.bools) else None
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue

        def cond(ed, q, s, e):
            a, c = typed(q[1], *ed), named(s[3])
            if a in (True, False) and c:
                ok = c == ('edge_active' if a else 'edge_inactive')
            elif c and not q[1].bools:
                ok = False
            else:
                ok = None
            ob.check(P, R1, ok, s[4], 'an edge gets %s when %s' % (show(s[3]), {True: 'it has the type', False:
                     'it does not have the type'}.get(a, 'something else')), p, 'by its type')
        edges_of(ob, p, R1, R0, cond)
        for e, q, o in looping(p.st.events):
            v = iteration(e, 'v')
            sets = [s for s in gsets(q[1].events) if s[0] == 'vp' and s[2] == 'vertex_fill_color']
            if v is None:
                if sets:
                    ob.check(P, R2, None, e.loc, 'a loop over %s' % show(e.info['iter']), p)
                continue
            has = q[1].bools.get(('in', ('tup', v, v), ('eindex', NG)))
            t = typed(q[1], v, v)
            if not sets:
                ob.check(P, R2, False, e.loc, 'a vertex keeps its color', p)
                continue
            s = sets[-1]
            c = named(s[3])
            ob.check(P, R0, unver(s[1]) == v, s[4], 'sets the color of %s' % show(s[1]), p, 'the vertex')
            if has is False:
                ok = c == 'vertex_inactive' if c else None
            elif has is True and t in (True, False):
                ok = c == ('vertex_highlight' if t else 'vertex_inactive') if c else None
            elif c and has is None and t is None and not q[1].bools:
                ok = False
            elif has is True and c and not any(et in walk(b) for b in q[1].bools):
                ok = False
            else:
                ok = None
            ob.check(P, R2, ok, s[4], 'a vertex gets %s when %s' % (show(s[3]), 'it has no loop' if has is False else
                     'its loop %s the type' % ('has' if t is True else 'does not have' if t is False else '...')), p, 'by its loop')
        frame(ob, p, where, R3)
    return ob


def reset_task(prog):
    ob = Obligations()
    R0, R1 = 'a color goes to the edge or vertex it was computed for', 'reset_colors gives every edge and vertex its default'
    it, ps, where = explore_net_method(prog, 'reset_colors')
    ob.absorb(it, 'reset_colors', ps)
    R2 = 'draw brings the colors up to date unless told not to'
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        loops = {unver(e.info.get('iter') or ())[:1] for e in p.st.events if e.kind in ('loop', 'loop0') and e.info}
        loops |= {('edges',)} if any(unver(e.info.get('iter') or ()) == E2Q for e in p.st.events if e.info and e.kind in (
            'loop', 'loop0')) else set()
        for k, w in ((('edges',), 'edges'), (('nodes',), 'vertices')):
            ob.check(P, R1, True if k in loops else (None if len(loops) > 1 or any(x[:1] == ('view',) for x in loops)
                     else False), where, 'no loop over the %s' % w, p, w)

        def cond(ed, q, s, e):
            val = unver(s[3])
            ok = None
            if val[:1] == ('item',) and val[1][:1] == ('attr',) and val[1][2] == 'colors':
                own = val[1][1]
                mine = own[:1] == ('Q',) and (any(pr == ed for pr in queue_ends(own)))
                ok = val[2] == ('c', 'str', 'edge_color') and mine
                if own[:1] == ('Q',) and not mine and own[1][:1] not in (('eidx',), ('ix',), ('c',)):
                    ok = None
            ob.check(P, R1, ok, s[4], 'an edge gets %s' % show(val), p, 'edge_color of its own queue')
        edges_of(ob, p, R1, R0, cond)
        for e, q, o in looping(p.st.events):
            v = iteration(e, 'v')
            sets = [s for s in gsets(q[1].events) if s[0] == 'vp' and s[2] == 'vertex_fill_color']
            if v is None:
                continue
            if not sets:
                ob.check(P, R1, False if e.info.get('complete') else None, e.loc, 'a vertex keeps its color', p)
                continue
            s = sets[-1]
            ob.check(P, R0, unver(s[1]) == v, s[4], 'sets the color of %s' % show(s[1]), p, 'the vertex')
            c = named(s[3])
            ob.check(P, R1, c == 'vertex_fill_color' if c else None, s[4], 'a vertex gets %s' % show(s[3]), p, 'vertex_fill_color')
    # draw
    for upd in (True, False):
        it, ps, where = explore_net_method(prog, 'draw', [], {'update_colors': Const(upd)})
        ob.absorb(it, 'draw(update_colors=%s)' % upd, ps)
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                continue
            names = [e.name for e in p.st.events if e.kind == 'stub']
            dr = [i for i, n in enumerate(names) if n == 'draw_graph']
            ob.check(P, R2, len(dr) == 1, where, 'the graph is drawn %d times' % len(dr), p, 'once')
            before = '_update_all_colors' in names[:dr[0]] if dr else None
            if before is not None:
                ob.check(P, R2, before == upd, where, 'the colors are %s' % (
                    'not brought up to date' if upd else 'overwritten although update_colors is False'), p, 'update_colors=%s' % upd)
    return ob


# -- looking does not touch ------------------------------------------------------------------------
QROOTS = ('self', 'net', 'arg', 'Q', 'edge', 'glob', 'cls', 'clsobj', 'rp', 'nin', 'nout', 'eindex', 'hd', 'mid')
LOOKS = {
    'display': [('draw', (), {}), ('draw', (), {'update_colors': False}), ('show_active', (), {}),
                ('show_type', ('edge_type',), {}), ('reset_colors', (), {}), ('_update_all_colors', (), {}),
                ('_update_vertex_color', ('v',), {}), ('_update_graph_colors', ('qedge',), {})],
    'data': [('get_queue_data', (), {'return_header': True}), ('get_queue_data', (), {}), ('get_queue_data', ('queues',), {}),
             ('get_queue_data', (), {'edge': 'edge'}), ('get_queue_data', (), {'edge_type': 'edge_type'}),
             ('get_agent_data', (), {'return_header': True}), ('get_agent_data', (), {}), ('get_agent_data', ('queues',), {}),
             ('get_agent_data', (), {'edge': 'edge'}), ('get_agent_data', (), {'edge_type': 'edge_type'})],
    'state': [('transitions', (), {}), ('transitions', (), {'return_matrix': False}), ('next_event_description', (), {}),
              ('__repr__', (), {}), ('time', None, None), ('current_time', None, None), ('num_vertices', None, None),
              ('num_nodes', None, None), ('num_edges', None, None), ('blocking', None, None)],
}
QLOOKS = ['active', 'time', 'current_time', 'num_arrivals']
QCALLS = [('__repr__', ()), ('at_capacity', ()), ('_current_color', (0,)), ('_current_color', (1,)), ('_current_color', (2,)),
          ('fetch_data', (False,)), ('fetch_data', (True,)), ('number_queued', ()), ('next_event_description', ()), ('_key', ())]


def rooted(k):
    """'old': part of an object that was there before, 'new': made by the call, None: not known."""
    hops = 0
    while isinstance(k, tuple) and k and hops < 60:
        hops += 1
        h = k[0]
        if h in ('at', 'was'):
            k = k[1]
        elif h == 'attr' and len(k) == 3:
            k = k[1]
        elif h == 'item' and len(k) >= 3:
            k = k[1]
        elif h == 'new':
            return 'new'
        elif h in QROOTS:
            return 'old'
        elif h in ('call', 'view', 'mcall', 'mres', 'slice', 'op'):
            return None
        else:
            return None
    return None


SAFE_MCALLS = ('copy', 'items', 'keys', 'values', 'get', 'format', 'lower', 'index', 'count', 'nodes', 'edges', 'out_edges',
               'in_edges', 'ep', 'vp', 'is_edge', 'number_of_edges', 'number_of_nodes', 'tolist', 'astype', 'sum', 'any', 'all',
               'upper', 'join', 'mean', 'min', 'max', 'number_of_queued', 'get_edge_type')


def touches(ob, it, p, where, rule, rule2, display, label):
    """Nothing that was there before is changed, and nothing is drawn or called."""
    n = 0
    for e in nested(p.st.events):
        loc = e.loc or where
        if e.kind in ('setattr', 'setitem', 'delitem', 'delattr', 'mutate', 'setclsattr', 'setglobal', 'heappush', 'heappop',
                      'heapify'):
            if e.kind == 'setglobal':
                tgt, r = ('glob', e.name), 'old'
            else:
                a = e.args[0]
                tgt = key(a) if isinstance(a, Value) else ('glob', str(a))
                r = 'old' if e.kind == 'setclsattr' else rooted(tgt)
                if r is None and tgt[:1] in (('loc',), ('lv',), ('kwargs',)):
                    r = 'new'
            ob.check(P, rule, {'old': False, 'new': True}.get(r), loc, '%s changes %s of %s' % (
                label, e.name if e.kind in ('setattr', 'delattr', 'setclsattr') else 'the content', show(tgt)), p, 'own objects')
            n += 1
        elif e.kind == 'gset':
            prop = key(e.args[2])[-1] if len(e.args) > 2 else None
            ob.check(P, rule, display and prop in DISPLAY or (None if not isinstance(prop, str) else False), loc,
                     '%s sets %s' % (label, prop), p, 'display')
            n += 1
        elif e.kind in ('random', 'seed', 'draw'):
            ob.check(P, rule2, False, loc, '%s uses the random numbers' % label, p)
        elif e.kind == 'callback' and not (e.name or '').startswith('<glob'):
            ob.check(P, rule2, False if rooted(key(e.args[0])) == 'old' else None, loc, '%s calls %s' % (label, e.name), p)
        elif e.kind in ('qop', 'obs', 'stub') and e.name not in PURE and e.kind == 'qop':
            ob.check(P, rule, False if e.name in CHANGING else None, loc, '%s calls %s of a queue' % (label, e.name), p)
        elif e.kind == 'netop' or e.kind == 'stub' and e.name not in (
                '_update_all_colors', '_update_vertex_color', 'draw', 'draw_graph'):
            ob.check(P, rule, None, loc, '%s calls %s' % (label, e.name), p)
        elif e.kind == 'mcall' and e.name not in SAFE_MCALLS:
            r = rooted(key(e.args[0])) if e.args and isinstance(e.args[0], Value) else None
            if r == 'old':
                ob.check(P, rule, None, loc, '%s calls %s of %s' % (label, e.name, show(key(e.args[0]))), p)
    ob.check(P, rule, True, where, '', p, '%s leaves every object as it was' % label)
    ob.check(P, rule2, True, where, '', p, label)


PURE = ('fetch_data', '_current_color', 'next_event_description', 'number_queued', 'at_capacity', '_key')
CHANGING = ('next_event', 'clear', '_add_arrival', 'delay_service', 'simulate', 'set_active', 'set_inactive', 'set_num_servers',
            '_update_time', '_service_from_queue', 'initialize')


def effect_task(prog, group):
    ob = Obligations()
    R1, R2 = 'looking changes nothing but colors', 'looking draws no random number and calls no function of the user'
    if group in LOOKS:
        for name, args, kw in LOOKS[group]:
            label = '%s(%s)' % (name, ', '.join(list(args or ()) + ['%s=%s' % x for x in (kw or {}).items()]))
            cfg = ColorCfg()
            if args is None:
                it, ps, where = get_property(prog, name, cfg)
            else:
                it, ps, where = explore_net_method(
                    prog, name, [Sym(('arg', a)) for a in args],
                    {k: Const(v) if isinstance(v, bool) else Sym(('arg', v)) for k, v in kw.items()}, None, cfg)
            ob.absorb(it, label, ps)
            for p in ps:
                it.st = p.st
                touches(ob, it, p, where, R1, R2, group == 'display', label)
    else:
        for name, args in QCALLS + [(x, None) for x in QLOOKS]:
            cfg = QueueCfg(group)
            label = '%s.%s(%s)' % (group, name, ', '.join(map(str, args or ())))
            if args is None:
                it = Interp(prog, cfg)
                it.get_class(cfg_class(cfg))
                ps = it.explore(cfg.setup, lambda it, ctx: it.getattr(ctx['self'], name, None))
            else:
                from .qenv import run_method as rm
                it, ps = rm(cfg, prog, name, lambda it, ctx: ([Const(a) if isinstance(a, bool) else const(a) for a in args], {}))
            ob.absorb(it, label, ps)
            for p in ps:
                it.st = p.st
                touches(ob, it, p, label, R1, R2, False, label)
    return ob


def cfg_class(cfg):
    return CLS[cfg.qname]


def get_property(prog, name, cfg):
    cfg.drawing = ()
    it = Interp(prog, cfg)
    it.get_class(NETCLS)
    ps = it.explore(lambda it: {}, lambda it, _: it.getattr(Sym(NET), name, None))
    return it, ps, 'QueueNetwork.%s' % name


def shade_task(prog, qcls):
    """Which of its colors a queue shows."""
    from .qenv import run_method as rm, SELF
    ob = Obligations()
    R = 'a queue shows the color it was asked for'
    colors = ('attr', SELF, 'colors')
    for w in (0, 1, 2):
        cfg = QueueCfg(qcls)
        it, ps = rm(cfg, prog, '_current_color', lambda it, ctx: ([const(w)], {}))
        ob.absorb(it, '%s._current_color(%d)' % (qcls, w), ps)
        where = '%s._current_color' % qcls
        found = []
        for p in ps:
            it.st = p.st
            if p.kind != 'return':
                continue          # colors with fewer than four numbers
            if w == 0:
                found += [(p,) + x for x in shades(it, p, colors)]
                it.st = p.st
            ks = [it.deep(p.value)] + [e.info.get('iter') for e in nested(p.st.events) if e.kind in ('loop', 'loop0') and e.info]
            names = {k[2][2] for x in ks if x for k in walk(x) if k[:1] == ('item',) and unver(k[1]) == colors and
                     k[2][:2] == ('c', 'str')}
            lp = next((v for b, v in p.st.bools.items() if b[:1] == ('==',) and {b[1], b[2]} == {('edge', 'u'), ('edge', 'v')}),
                      None)
            if w == 1:
                want = {'edge_loop_color'}
            elif w == 2:
                want = {'vertex_color', 'vertex_pen_color'}
            elif lp is None:
                want = None
            else:
                want = {'vertex_fill_color'} if lp else {'edge_color'}
            if not names or want is None:
                ob.check(P, R, False if names and want is None and len(names) == 1 else None, where,
                         'color %d is %s whether or not the edge is a loop' % (w, sorted(names)), p)
                continue
            ob.check(P, R, names <= want, where, 'color %d is taken from %s' % (w, ', '.join(sorted(names))), p, ', '.join(sorted(want)))
        if w == 0:
            it.st = ps[0].st if ps else it.st
            shade_rule(ob, 'the shade gets darker with the number of agents', it, found, where,
                       atom(('n', 'D')) + atom(('n', 'Q')))
    return ob
