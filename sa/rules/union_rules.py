"""Union-find and the random graph built with it (C22)."""
from .common import *  # noqa
from .graphenv import *  # noqa

UFC = 'queueing_tool.union_find.UnionFind'
UF = ('uf',)
L, SZ, NC = ('attr', UF, '_leader'), ('attr', UF, '_size'), ('attr', UF, 'nClusters')
A, B = ('arg', 'a'), ('arg', 'b')
P = 'C22'


def unver(k):
    """A term without the versions of the objects in it."""
    if not isinstance(k, tuple):
        return k
    if k[:1] == ('at',) and len(k) == 3:
        return unver(k[1])
    return tuple(unver(x) for x in k)


def nested(events):
    """All events, those of loops included."""
    for e in events:
        yield e
        if e.kind == 'loop' and e.info and e.info.get('paths'):
            for q in e.info['paths']:
                yield from nested(q[1].events)


class UFCfg(GraphCfg):
    graphs = ()

    def __init__(self, contract):
        GraphCfg.__init__(self)
        self.contract = contract

    def typeof(self, it, k):
        return UFC if k == UF else GraphCfg.typeof(self, it, k)

    def call(self, it, f, args, kw, node):
        if isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key == UF and isinstance(f.fn, Fn) and \
                f.fn.node.name == 'find' and len(args) + len(kw) == 1:
            inside = any(fr.fn is not None and getattr(fr.fn, 'node', None) is f.fn.node for fr in it.frames)
            if self.contract or inside:
                x = args[0] if args else list(kw.values())[0]
                n = sum(1 for e in it.st.events if e.kind in ('setitem', 'loop'))
                return Sym(('root', key(x), n))
        return GraphCfg.call(self, it, f, args, kw, node)

    def loop_entry(self, it, node, lid, ix, trip):
        at = {}
        for fid, ls in it.st.locals.items():
            for n, v in ls.items():
                at[('local', fid, n)] = v
        lists = {}
        for k, c in it.st.content.items():
            if isinstance(c, LList):
                lists[k] = tuple(key(x) for x in c.items)
        it.event('entry', 'entry', [], node, info={'lid': lid, 'at': at, 'lists': lists})


class Chain:
    """Which terms name elements on the way from s to its leader."""

    def __init__(self, it, path):
        self.evs = list(nested(path.st.events))
        self.entry = {}
        self.iters = {}
        self.appends = {}
        self.lists = {}
        for e in self.evs:
            if e.kind == 'entry':
                self.entry[e.info['lid']] = e.info
                for k, c in e.info['lists'].items():
                    self.lists.setdefault(k, c)
            elif e.kind == 'loop' and e.info and e.info.get('paths'):
                self.iters.setdefault(e.info['ix'][1], []).extend(e.info['paths'])
            elif e.kind == 'mutate':
                self.appends.setdefault(unver(key(e.args[0])), []).append(e)
        self.busy = set()

    def on(self, k):
        """True, False (it is something else), None (unclear)."""
        if k == A:
            return True
        if k in self.busy:
            return True             # inductively
        self.busy.add(k)
        try:
            return self.on_(k)
        finally:
            self.busy.discard(k)

    def all(self, rs):
        rs = list(rs)
        return None if not rs else (False if False in rs else (None if None in rs else True))

    def on_(self, k):
        if not isinstance(k, tuple):
            return None
        if k[0] == 'item' and unver(k[1]) == L:
            return self.on(k[2])
        if k[0] == 'root':
            return self.on(k[1])
        if k[0] == 'lv' and len(k[2]) == 2 and isinstance(k[2][0], int):
            lid, loc = k[1], ('local',) + k[2]
            e = self.entry.get(lid)
            if e is None or loc not in e['at']:
                return None
            rs = [self.on(key(e['at'][loc]))]
            for q in self.iters.get(lid, ()):
                if q[0] is None or q[0][0] == 'continue':
                    v = q[1].locals.get(loc[1], {}).get(loc[2])
                    rs.append(self.on(key(v)) if v is not None else None)
            return self.all(rs)
        if k[0] in ('elem', 'item') and k[1][:1] == ('was',) and k[2] == key(const(0)) and k[1][1][:1] == ('map',) and \
                len(k[1][1]) == 6 and k[1][1][5]:
            return self.on(k[1][1][5][0])
        if k[0] == 'elem' or k[0] == 'item':
            l = unver(k[1])
            rs = [self.on(x) for x in self.lists[l]] if l in self.lists else [None]
            for e in self.appends.get(l, ()):
                if e.name in ('append', 'add', 'appendleft'):
                    rs.append(self.on(key(e.args[1])))
                elif e.name not in ('pop', 'popleft', 'reverse'):
                    rs.append(None)
            return self.all(rs)
        if k[0] == 'mres' and len(k) >= 3 and k[2] in ('pop', 'popleft'):
            return self.on(('elem', k[1], None))
        if k == B or k[0] == 'c' or k[0] in ('lin', 'arg'):
            return False
        return None


def run_method(prog, name, args, contract):
    it = Interp(prog, UFCfg(contract))

    def run(it, ctx):
        m = it.class_attr(it.get_class(UFC), name)
        if m is None:
            raise AnchorMissing('UnionFind.' + name)
        ctx['where'] = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
        return it.call(Bound(Sym(UF), m[0]), [Sym(x) for x in args], {}, None)
    ctx = {}
    ps = it.explore(lambda it: ctx, run)
    return it, ps, ctx.get('where', '?')


def writes(p, base):
    return [e for e in nested(p.st.events) if e.kind == 'setitem' and unver(key(e.args[0])) == base]


def strange(p, bases):
    """Changes of the structure other than stores into the given dicts."""
    for e in nested(p.st.events):
        if e.kind == 'setattr' and isinstance(e.args[0], Sym) and e.args[0].key == UF:
            yield e, e.name
        elif e.kind in ('setitem', 'delitem', 'mutate') and unver(key(e.args[0]))[:2] == ('attr', UF) and (
                e.kind != 'setitem' or unver(key(e.args[0])) not in bases):
            yield e, unver(key(e.args[0]))[2]


def find_task(prog):
    ob = Obligations()
    it, ps, where = run_method(prog, 'find', (A,), False)
    ob.absorb(it, 'UnionFind.find', ps)
    R1, R2, R3 = ('find returns the leader of the set', 'a path is only shortened towards the leader',
                  'a search changes nothing else')
    for p in ps:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind != 'return':
            ob.check(P, R1, None, where, 'find ends with %s' % (p.value,), p)
            continue
        ch = Chain(it, p)
        r = p.value
        k = key(r)
        on = ch.on(k)
        fixed = fixpoint(it, p.st, v, k, {unver(key(e.args[1])): e for e in writes(p, L)})
        if on and fixed is None and not soft(k):
            fixed = False
        ob.check(P, R1, False if on is False or on and fixed is False else on and fixed, where,
                 'find returns %s' % show(k), p, 'reached from s by leaders, and its own leader')
        for e in writes(p, L):
            i, x = key(e.args[1]), key(e.args[2])
            a, b = ch.on(i), ch.on(x)
            ok = None
            if a and b and (x == k or unver(x) == unver(k) or ahead(x, i) or x[0] == 'root'):
                ok = True
            elif a and fixpoint(it, p.st, v, x, {}) and b:
                ok = True
            elif a is False or b is False or a and b:
                ok = False
            ob.check(P, R2, ok, e.loc, 'the leader of %s becomes %s' % (show(i), show(x)), p,
                     'elements on the way get the leader')
        bad = list(strange(p, (L,)))
        for e, n in bad:
            ob.check(P, R3, False, e.loc, 'find changes %s' % n, p)
        if not bad:
            ob.check(P, R3, True, where, '', p, 'only leaders are stored')
    return ob


def soft(k):
    """Terms about which nothing can be known."""
    if not isinstance(k, tuple):
        return False
    return k[:1] in (('call',), ('mcall',), ('mres',), ('at',)) or any(soft(x) for x in k)


def ahead(x, i):
    """Is x reached from i by following leaders?"""
    while isinstance(x, tuple) and x[0] == 'item' and unver(x[1]) == L:
        x = x[2]
        if x == i:
            return True
    return False


def fixpoint(it, st, v, k, stored):
    if isinstance(k, tuple) and k[0] == 'root':
        return True
    for b, yes in st.bools.items():
        # equal to something that is its own leader
        if yes is True and isinstance(b, tuple) and b[0] == '==' and k in b[1:]:
            o = b[2] if b[1] == k else b[1]
            if unver(k) == ('item', L, o) or isinstance(o, tuple) and o[0] == 'root':
                return True
    n = num(from_key(k))
    versions = set()

    def collect(x):
        if isinstance(x, tuple):
            if x and unver(x) == L and x[0] in ('at', 'attr'):
                versions.add(x)
            for y in x:
                collect(y)
    for l, _ in st.lin:
        for a in l.t:
            collect(a)
    for b in st.bools:
        collect(b)
    versions.add(L)
    for ver in versions:
        t = ('item', ver, k)
        if v.ent(atom(t) - n, '==') or st.bools.get(('==', t, k)) or st.bools.get(('==', k, t)):
            return True
    return None


def union_task(prog):
    ob = Obligations()
    it, ps, where = run_method(prog, 'union', (A, B), True)
    ob.absorb(it, 'UnionFind.union', ps)
    R1, R2, R3, R4 = ('two sets become one', 'the number of sets drops by one exactly when two sets become one',
                      'the size of the new set is the sum', 'elements already together stay as they are')
    for p in ps:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind != 'return':
            ob.check(P, R1, None, where, 'union ends with %s' % (p.value,), p)
            continue
        roots = sorted({k for k in mentions(p) if k[1] in (A, B)}, key=repr)
        ra = [k for k in roots if k[1] == A][:1]
        rb = [k for k in roots if k[1] == B][:1]
        rs = {ra[0], rb[0]} if ra and rb else None
        ws, ss = writes(p, L), writes(p, SZ)
        n = p.st.attrs.get((UF, 'nClusters'))
        n = num(n) if n is not None else atom(NC)
        d = None if n is None else n - atom(NC)
        together = rs is not None and (same(v, ra[0], rb[0]))
        if together:
            ok = not ws and not ss and d is not None and not d.t and d.c == 0
            ob.check(P, R4, ok, where, 'union changes something although both are in one set', p,
                     'nothing is stored, the number of sets is kept')
            continue
        if rs is not None and not v.feas((atom(ra[0]) - atom(rb[0]), '<')) and not v.feas(
                (atom(rb[0]) - atom(ra[0]), '<')):
            continue
        apart = rs is not None and (p.st.bools.get(('==', ra[0], rb[0])) is False or
                                    p.st.bools.get(('==', rb[0], ra[0])) is False)
        ends = [(key(e.args[1]), key(e.args[2])) for e in ws]
        merged = len(ends) == 1 and rs is not None and set(ends[0]) == rs
        ok = merged
        if not ok and (rs is None or any(soft(x) for y in ends for x in y)):
            ok = None if ws else False
        ob.check(P, R1, ok, ws[0].loc if ws else where, 'the leaders become %s' % (
            ', '.join('%s -> %s' % (show(i), show(x)) for i, x in ends) or 'nothing new'), p,
            'the leader of one set gets the other leader')
        if not merged:
            continue
        ok = d is not None and not d.t and d.c == -1 and apart
        if d is None or d.t:
            ok = None
        ob.check(P, R2, ok, where, 'nClusters changes by %s%s' % (
            show(key(d)) if d is not None else '?', '' if apart else ', also if they are one set'), p, 'one less')
        new = ends[0][1]
        got = [e for e in ss if key(e.args[1]) == new]
        old = sum((atom(('item', SZ, x)) for x in sorted(rs, key=repr)), const(0))
        val = num(got[-1].args[2]) if got else None
        ok = val is not None and unlin(val) == old
        if val is not None and not ok and soft(key(val)):
            ok = None
        ob.check(P, R3, ok, got[-1].loc if got else where, 'the size of the new set becomes %s' % (
            show(key(val)) if val is not None else 'stale'), p, 'sum of both sizes')
        for e, name in strange(p, (L, SZ)):
            if name not in ('nClusters', '_rank'):
                ob.check(P, R3, None, e.loc, 'union changes %s' % name, p)
    # size
    it, ps, where = run_method(prog, 'size', (A,), True)
    ob.absorb(it, 'UnionFind.size', ps)
    for p in ps:
        k = key(p.value) if p.kind == 'return' else None
        ok = k is not None and k[0] == 'item' and k[1] == SZ and isinstance(k[2], tuple) and k[2][0] == 'root' and \
            k[2][1] == A
        if p.kind == 'undecided' or not ok and soft(k):
            ok = None
        ob.check(P, 'the size is that of the whole set', ok, where, 'size is %s' % show(k), p, 'size of the leader')
    return ob


def unlin(l):
    out = const(l.c)
    for a, c in l.t.items():
        out = out + atom(unver(a)).scale(c)
    return out


def same(v, a, b):
    return a == b or v.st.bools.get(('==', a, b)) or v.st.bools.get(('==', b, a)) or v.ent(atom(a) - atom(b), '==')


def mentions(p):
    out = set()

    def rec(k):
        if isinstance(k, tuple):
            if len(k) == 3 and k[0] == 'root':
                out.add(k)
            for x in k:
                rec(x)
    for b in p.st.bools:
        rec(b)
    for l, _ in p.st.lin:
        for a in l.t:
            rec(a)
    for e in nested(p.st.events):
        for a in e.args:
            if isinstance(a, (Sym, Lin)):
                rec(key(a))
    return out


def flat(d):
    """A dict made from the keys of another dict, as made from what that one is made from."""
    def sub(k, a, b):
        return b if k == a else (tuple(sub(x, a, b) for x in k) if isinstance(k, tuple) else k)
    while isinstance(d, tuple) and d[:1] == ('mapdict',) and isinstance(d[1], tuple):
        src = d[1]
        if src[:2] == ('view', 'keys') and len(src) == 3:
            src = src[2]
        if src[:1] != ('mapdict',) or src[4]:
            break
        k = src[2]
        for el in (('elem', d[1], ('bound',)), ('dkey', src, ('bound',)), ('elem', src, ('bound',))):
            d = ('mapdict', d[1]) + tuple(sub(x, el, k) for x in d[2:])
        d = ('mapdict', src[1]) + d[2:]
    return d


def ufinit_task(prog):
    ob = Obligations()
    it, ps, where = run_method(prog, '__init__', (('arg', 'S'),), False)
    ob.absorb(it, 'UnionFind.__init__', ps)
    S = ('arg', 'S')
    R = 'at first every element is a set of its own'
    EL = ('elem', S, ('bound',))
    for p in ps:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind != 'return':
            ob.check(P, R, None, where, '__init__ ends with %s' % (p.value,), p)
            continue
        empty = v.ent(atom(('len', S)), '<=')
        for name, val in (('_leader', EL), ('_size', key(const(1)))):
            x = p.st.attrs.get((UF, name))
            d = flat(it.deep(x)) if x is not None else None
            want = ('mapdict', S, EL, val, ())
            ok = d == want or empty and isinstance(d, tuple) and d[:1] == ('dict',)
            if not ok and (d is None or d[:1] != ('mapdict',)):
                ok = None
            ob.check(P, R, ok, where, '%s starts as %s' % (name, show(d)), p, 'every element maps to %s' % show(val))
        n = p.st.attrs.get((UF, 'nClusters'))
        k = key(n) if n is not None else None
        ok = k in (('len', S), key(const(0))) if empty else k is not None and (
            k == ('len', S) or k[:1] == ('len',) and flat(k[1])[:3] == ('mapdict', S, EL))
        if not ok and k is not None and k[0] not in ('c', 'lin', 'len'):
            ok = None
        ob.check(P, R, ok, where, 'nClusters starts as %s' % show(k), p, 'the number of elements')
    return ob


# -- the random graph built with it
GEN = 'queueing_tool.graph.graph_generation'
UFO, NG2 = ('ufobj',), ('arg', 'ng')
N = ('arg', 'n')
NO = ('c', 'NoneType', None)
ONE = const(1)


class MinCfg(GraphCfg):
    graphs = ()

    def typeof(self, it, k):
        return UFC if k == UFO else GraphCfg.typeof(self, it, k)

    def is_int(self, a):
        return a in (N, ('nC',)) or isinstance(a, tuple) and a[:1] == ('ncl',) or GraphCfg.is_int(self, a)

    def init_attr(self, it, okey, name):
        if okey == UFO and name == 'nClusters':
            return atom(N)
        return GraphCfg.init_attr(self, it, okey, name)

    def length(self, it, v):
        k = it.deep(v)
        if ispoints(k):
            return atom(N)
        if isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ('numpy.sort', 'builtins.sorted', 'numpy.array'):
            return atom(('nC',))
        return GraphCfg.length(self, it, v)

    def call(self, it, f, args, kw, node):
        if isinstance(f, ClassV) and f.qual.split('.')[-1] == 'UnionFind' and len(args) == 1:
            it.event('newuf', it.deep(args[0]), [args[0]], node)
            return Sym(UFO)
        if isinstance(f, ClassV) and f.qual.split('.')[-1] == 'QueueNetworkDiGraph' and args:
            it.event('ngraph', it.deep(args[0]), list(args), node)
            return Sym(NG2)
        if isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key == UFO and \
                f.fn.node.name == 'union' and len(args) == 2:
            it.event('union', 'union', list(args), node)
            t = ('ncl', it.deep(args[0]), it.deep(args[1]))
            it.assume(ONE - atom(t), '<=')
            it.st.attrs[(UFO, 'nClusters')] = Sym(t)
            return NONE
        if isinstance(f, (Bound, ExtMeth)) and isinstance(f.self_, Sym) and root_(f.self_.key) == NG2:
            n = f.name if isinstance(f, ExtMeth) else f.fn.node.name
            it.event('ng', n, list(args) + [x for _, x in sorted(kw.items())], node,
                     info=[it.deep(a) for a in args] + [it.deep(x) for _, x in sorted(kw.items())])
            return NONE
        return GraphCfg.call(self, it, f, args, kw, node)


def root_(k):
    while isinstance(k, tuple) and k[:1] == ('at',):
        k = k[1]
    return k


def ispoints(k):
    """The array of random points, possibly scaled."""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == 'rnd':
        return True
    if k[0] == 'lin' and len(k[1]) == 1:
        return ispoints(k[1][0][0])
    return k[0] == 'bin' and k[1] in ('Mult', 'Div') and (ispoints(k[2]) or ispoints(k[3]))


def point(k):
    """The index of the point a term is, or None."""
    if isinstance(k, tuple) and k and k[0] in ('item', 'elem') and ispoints(k[1]):
        return k[2]
    return None


def coord(k):
    """(a, b, axis) of a difference of coordinates of points a and b."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] in ('item', 'elem'):
        l, ax = k[1], k[2]
        ab = diff(l)
        return ab + (ax,) if ab else None
    if k[0] == 'lin' and k[2] == 0 and len(k[1]) == 2:
        out = []
        for t, c in k[1]:
            if t[0] != 'item' or c not in (1, -1):
                return None
            p = point(t[1])
            if p is None and t[2][0] == 'tup' and len(t[2]) == 3 and ispoints(t[1]):
                p, ax = t[2][1], t[2][2]
            else:
                ax = t[2]
            if p is None:
                return None
            out.append((p, ax))
        return (out[0][0], out[1][0], out[0][1]) if out[0][1] == out[1][1] else None
    return None


def diff(k):
    if isinstance(k, tuple) and k[:1] == ('lin',) and k[2] == 0 and len(k[1]) == 2:
        ps = [point(t) for t, c in k[1] if c in (1, -1)]
        if len(ps) == 2 and None not in ps and k[1][0][1] == -k[1][1][1]:
            return tuple(ps)
    return None


def distance(k):
    """The two points whose (squared) distance a term is: a pair, False (another number made
    from points), None (unclear)."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] == 'call' and k[1] in ('numpy.sqrt', 'math.sqrt') and len(k) == 3:
        return distance(k[2])
    if k[0] == 'call' and k[1] in ('numpy.linalg.norm',) and len(k) == 3:
        return diff(k[2])
    if k[0] == 'call' and k[1] in ('numpy.hypot', 'math.hypot') and len(k) == 4:
        terms = [(k[2], 1), (k[3], 1)]
    elif k[0] == 'call' and k[1] in ('numpy.sum', 'builtins.sum') and len(k) == 3 and k[2][:2] == ('bin', 'Pow') \
            and k[2][3] == key(const(2)):
        return diff(k[2][2])
    elif k[0] == 'lin' and k[2] == 0:
        terms = []
        for t, c in k[1]:
            if t[:2] == ('bin', 'Pow') and t[3] == key(const(2)):
                terms.append((t[2], c))
            elif t[:2] == ('bin', 'Mult') and t[2] == t[3]:
                terms.append((t[2], c))
            elif coord(t) is not None:
                return False
            else:
                return None
    elif k[:2] == ('bin', 'Pow'):
        terms = [(k[2], 1)]
    else:
        return None
    cs = [coord(t) if t is not None else None for t, c in terms]
    if len(cs) == 2 and None not in cs and {repr(x[2]) for x in cs} == {repr(key(const(0))), repr(key(const(1)))} and \
            set(cs[0][:2]) == set(cs[1][:2]) and all(c == terms[0][1] > 0 for _, c in terms):
        return cs[0][:2]
    if any(x is None and (t is None or soft(t)) for x, (t, c) in zip(cs, terms)):
        return None
    return False


def prange(k):
    """(start, stop) of a range with step 1."""
    if isinstance(k, tuple) and k[:2] == ('view', 'range') and len(k) == 5 and k[4] == key(const(1)):
        return num(from_key(k[2])), num(from_key(k[3]))
    return None


def looping(events, outer=()):
    for e in events:
        if e.kind == 'loop' and e.info and e.info.get('paths'):
            for q in e.info['paths']:
                yield e, q, outer
                yield from looping(q[1].events, outer + ((e, q),))


def covers(v, a, b, loops):
    """Are the pairs (a, b) all pairs of different vertices, each once?"""
    if not (2 == len(loops) and all(e.info.get('complete') for e, q in loops)):
        return None
    if any(q[0] is not None and q[0][0] != 'continue' for e, q in loops):
        return None
    (e1, _), (e2, _) = loops
    ro, ri = prange(e1.info['iter']), prange(e2.info['iter'])
    if ro is None or ri is None:
        return None
    i, j = atom(e1.info['ix']), atom(e2.info['ix'])
    x, y = ro[0] + i, ri[0] + j                 # values of the two loop variables
    n = atom(N)
    if a is None or b is None:
        return None

    def same_(p, q):
        d = p - q
        return not d.t and d.c == 0
    if not (same_(a, x) and same_(b, y) or same_(a, y) and same_(b, x)):
        return None if len(a.t) + len(b.t) > 4 else False
    if not same_(ro[0], const(0)):
        return same_(ro[0], const(1)) and same_(ro[1], n) and same_(ri[0], const(0)) and same_(ri[1], x)
    up = same_(ri[0], x + ONE) and same_(ri[1], n) and (same_(ro[1], n) or same_(ro[1], n - ONE))
    down = same_(ri[0], const(0)) and same_(ri[1], x) and same_(ro[1], n)
    return up or down


def graph_task(prog):
    ob = Obligations()
    cfg = MinCfg()
    where = ['?']

    def pre(low):
        def pre(it):
            it.st.bools[('isinst', ('arg', 'seed'), ('ext', 'numbers.Integral'))] = False
            if low:
                it.assume(const(2) - atom(N), '<=')
                it.assume(ONE - atom(('nC',)), '<=')
            return {}
        return pre

    def run(n):
        def run(it, ctx):
            f = it.module_attr(it.prog.module(GEN), 'minimal_random_graph')
            if f is None:
                raise AnchorMissing('minimal_random_graph')
            where[0] = '%s:%s' % (f.mod.rel, f.node.lineno)
            return it.call(f, [n, Sym(('arg', 'seed'))], {}, None)
        return run
    it = Interp(prog, cfg)
    ps = it.explore(pre(True), run(Sym(N)))
    ob.absorb(it, 'minimal_random_graph', ps)
    joined = any(e.kind == 'union' for p in ps for e in nested(p.st.events))
    for p in ps:
        it.st = p.st
        one_graph(ob, it, p, where[0], joined)
    it = Interp(prog, MinCfg())
    ps = it.explore(pre(False), run(const(1)))
    ob.absorb(it, 'minimal_random_graph (1)', ps)
    R = 'a graph of one vertex has this vertex'
    for p in ps:
        if p.kind != 'return':
            ob.check(P, R, None, where[0], '%s' % (p.value,), p)
            continue
        evs = [e for e in nested(p.st.events) if e.kind in ('mutate', 'mcall', 'ng') and e.name.startswith('add_')]
        zero = [e for e in evs if e.name == 'add_node' and key(e.args[1 if e.kind != 'ng' else 0]) == key(const(0))]
        ob.check(P, R, True if zero else (None if evs else False), where[0], 'no vertex is added', p, 'add_node(0)')
    return ob


def one_graph(ob, it, p, where, joined):
    v = PV(it, p.st, None, None, p, 'top')
    R1, R2, R3, R4, R5, R6 = (
        'all pairs of vertices are candidates', 'candidates are ordered by distance',
        'a chosen pair joins the two sets and becomes an edge', 'pairs are chosen until everything is one set',
        'the result is the chosen graph with edges in both directions', 'vertex j is at point j')
    if p.kind != 'return':
        ob.check(P, R4, None, where, '%s' % (p.value,), p)
        return
    nuf = [e for e in p.st.events if e.kind == 'newuf']
    if len(nuf) != 1:
        ob.check(P, R3, None, where, 'no union-find of the vertices', p)
        return
    k = strip_map(nuf[0].name)
    r = prange(k)
    ok = None
    if r is not None:
        ok = r[0].t == {} and r[0].c == 0 and not (r[1] - atom(N)).t and (r[1] - atom(N)).c == 0
    ob.check(P, R3, ok, nuf[0].loc, 'the sets at first are %s' % show(k), p, 'the vertices')
    # the loop that chooses
    chosen = [(e, q, o) for e, q, o in looping(p.st.events) if any(x.kind == 'union' for x in q[1].events)]
    if not chosen:
        ok = None if joined else False
        ob.check(P, R3, ok, where, 'pairs are never joined', p)
        return
    gr = None
    for e, q, o in chosen:
        if o:
            ob.check(P, R3, None, e.loc, 'pairs are joined in an inner loop', p)
            continue
        qv = PV(it, q[1], q[2], q[0], p, 'iter')
        ix = e.info['ix']
        un = [x for x in q[1].events if x.kind == 'union']
        ad = [x for x in q[1].events if x.kind == 'mutate' and x.name == 'add_edge']
        el = e.info['iter']
        want = [('item', ('elem', el, ix), key(const(i))) for i in (0, 1)]
        el = inplace(it, p, el, e)
        nm = named(el)
        iu = [byname(key(a), nm) for a in un[0].args]
        okp = len(un) == 1 and set(map(repr, iu)) == set(map(repr, want))
        if not okp and (len(un) > 1 or any(deepsoft(x) for x in iu if x not in want)):
            okp = None
        ob.check(P, R3, okp, un[0].loc, 'union joins %s and %s' % tuple(map(show, iu)), p, 'both ends of the pair')
        if len(ad) != 1:
            ob.check(P, R3, False if not ad and not any(
                x.kind in ('mutate', 'mcall', 'enter') and x.name != 'union' for x in q[1].events) else None,
                e.loc, 'a joined pair does not become an edge', p)
        else:
            ia = [byname(key(a), nm) for a in ad[0].args[1:3]]
            ok = set(map(repr, ia)) == set(map(repr, want))
            if not ok and (len(ia) != 2 or any(deepsoft(x) for x in ia if x not in want)):
                ok = None
            ob.check(P, R3, ok, ad[0].loc, 'the edge is (%s)' % ', '.join(map(show, ia)), p, 'the joined pair')
            gr = key(ad[0].args[0])
        listed = el[:1] == ('call',) or el[:1] == ('slice',)
        t = num(q[1].attrs.get((UFO, 'nClusters'))) if (UFO, 'nClusters') in q[1].attrs else None
        if q[0] is not None and q[0][0] in ('break', 'return'):
            ok = t is not None and bool(qv.ent(t - ONE, '<=') or one_known(q[1], t))
            if not ok and (t is None or others(q)):
                ok = None
            ob.check(P, R4, ok, e.loc, 'the choice stops although there can be more than one set', p,
                     'stops at nClusters == 1')
        elif q[0] is None or q[0][0] == 'continue':
            if t is not None and (qv.ent(t - ONE, '<=') or one_known(q[1], t)):
                ob.check(P, R4, False, e.loc, 'the choice goes on although everything is connected', p)
            elif t is not None:
                apart = not qv.feas((t - ONE, '<=')) or one_known(q[1], t) is False
                ok = True if apart else None
                if not apart and not others(q) and listed and isinstance(e.info['node'], ast.For):
                    ok = False
                ob.check(P, R4, ok, e.loc, 'the choice goes on although everything can be connected', p,
                         'goes on while nClusters != 1')
        candidates(ob, it, p, v, el, R1, R2, e)
    ng = [e for e in p.st.events if e.kind == 'ngraph']
    if len(ng) != 1 or gr is None:
        ob.check(P, R5, None, where, 'no graph is made', p)
        return
    k = unver(ng[0].name)
    ok = None
    r = p.st.origin.get(gr) if hasattr(p.st, 'origin') else None
    cls = gr[1] if gr[:1] == ('new',) else None
    base = unver(graph_term(it, gr))
    if cls == 'networkx.Graph':
        ok = k in (('mcall', base, 'to_directed'), base, ('call', 'networkx.DiGraph', base)) or None
        if ok is None and k[:1] == ('call',) and base not in walk(k):
            ok = False
        elif ok is None and base not in walk(k):
            ok = False if k[:1] == ('mcall',) else None
    elif cls == 'networkx.DiGraph' and k in (base, ('mcall', base, 'copy'), ('mcall', base, 'to_directed')):
        ok = False
    ob.check(P, R5, ok, ng[0].loc, 'the result is made from %s' % show(k), p, 'both directions of every edge')
    ok = root_(key(p.value)) == NG2 if isinstance(p.value, Value) else None
    ob.check(P, R5, ok or None, where, 'another graph is returned', p, 'the graph')
    sp = [e for e in p.st.events if e.kind == 'ng' and e.name == 'set_pos']
    if not sp:
        ob.check(P, R6, False if not any(e.kind == 'ng' for e in p.st.events) else None, where,
                 'no positions are set', p)
        return
    k = sp[-1].info[0] if sp[-1].info else ('c', 'NoneType', None)
    ok = None
    if k[:1] == ('mapdict',) and not k[4]:
        j, pt = k[2], point(k[3])
        if pt is not None:
            ok = j == pt
            if ok:
                src = k[1]
                full = src[:2] == ('view', 'enumerate') and ispoints(src[2]) and src[3] == key(const(0))
                r = prange(src)
                full = full or r is not None and r[0].c == 0 and not r[0].t and key(r[1]) == N
                ok = (j == ('bound',) and full) or None
    elif k == ('c', 'NoneType', None) or not sp[-1].info:
        ok = False
    ob.check(P, R6, ok, sp[-1].loc, 'positions are %s' % show(k), p, 'the points')


def graph_term(it, gr):
    return it.deep(Sym(gr)) if not isinstance(gr, Value) else it.deep(gr)


def walk(k):
    if isinstance(k, tuple):
        yield k
        for x in k:
            yield from walk(x)


def strip_map(k):
    """The sequence behind an identity map, list(), set() or tuple() of it."""
    while isinstance(k, tuple):
        if k[:1] == ('map',) and k[2] in (('bound',), ('elem', k[1], ('bound',))) and not k[3] and not k[4]:
            k = k[1]
        elif k[:1] == ('call',) and k[1] in ('builtins.list', 'builtins.set', 'builtins.tuple') and len(k) == 3:
            k = k[2]
        else:
            return k
    return k


def one_known(st, t):
    """Is a number known to be 1 (True) or not (False)?"""
    for a, b in ((key(t), key(const(1))), (key(const(1)), key(t))):
        if ('==', a, b) in st.bools:
            return st.bools[('==', a, b)]
    return None


def others(q):
    """Did the iteration decide something about anything but the number of sets?"""
    def known(k):
        return any(x[:1] == ('ncl',) for x in walk(k))
    return any(not known(k) for k in q[4]) or any(not known(a) and a[0] != 'len' for l, _ in q[3] for a in l.t)


def deepsoft(k):
    """Is the term something other than a field of a candidate?"""
    return not (isinstance(k, tuple) and (k[0] == 'item' and isinstance(k[1], tuple) and k[1][0] == 'elem' or
                                          k[0] in ('ix', 'lin', 'c'))) or k[0] == 'item' and k[2][:2] == ('c', 'str')


def inplace(it, p, el, loop):
    """An array or list that was sorted in place: what it was made from, sorted."""
    r = root_(el)
    o = p.st.origin.get(r)
    if not isinstance(r, tuple) or r[:1] != ('new',) or not isinstance(o, tuple) or o[:1] != ('call',):
        return el
    done = [x for x in p.st.events[:p.st.events.index(loop)] if x.kind == 'mutate' and root_(key(x.args[0])) == r]
    if any(x.name != 'sort' for x in done):
        return el
    for x in done:
        kws = tuple(('kw', n, it.deep(a)) for n, a in sorted(x.kw.items()))
        o = ('call', 'numpy.sort' if o[1].startswith('numpy.') else 'builtins.sorted', o) + kws
    return o


def named(el):
    """The names of the fields of an array of records."""
    for x in walk(el):
        if x[:1] == ('kw',) and x[1] == 'dtype' and x[2][:1] == ('list',):
            return [y[1] for y in x[2][1:] if y[0] == 'tup' and len(y) > 1]
    return []


def byname(k, names):
    if isinstance(k, tuple) and k[:1] == ('item',) and k[2] in names:
        return ('item', k[1], key(const(names.index(k[2]))))
    return k


def candidates(ob, it, p, v, el, R1, R2, e):
    """What the choosing loop runs over."""
    k = el
    ordered = back = False
    field = None
    dtype = None
    for _ in range(6):
        if not isinstance(k, tuple):
            break
        kws = {x[1]: x[2] for x in k if isinstance(x, tuple) and x[:1] == ('kw',)}
        if k[:2] == ('call', 'numpy.sort'):
            field, ordered = kws.get('order'), True
            k = k[2]
        elif k[:2] == ('call', 'builtins.sorted'):
            field, ordered = ('key', kws.get('key'), kws.get('reverse')), True
            k = k[2]
        elif k[:2] in (('call', 'numpy.array'), ('call', 'numpy.asarray')):
            dtype = kws.get('dtype')
            k = k[2]
        elif k[:2] == ('call', 'builtins.list') and len(k) == 3:
            k = k[2]
        elif k[0] == 'slice' and len(k) == 5 and k[2] == k[3] == NO and k[4] in (NO, key(const(1)), key(const(-1))):
            back = back != (k[4] == key(const(-1)))
            k = k[1]
        else:
            break
    k = root_(k)
    evs = [(l, q, o, x) for l, q, o in looping(p.st.events) for x in q[1].events
           if x.kind == 'mutate' and x.name == 'append' and root_(key(x.args[0])) == k]
    sorts = [x for x in p.st.events if x.kind == 'mutate' and x.name == 'sort' and root_(key(x.args[0])) == k]
    ok = None
    if ordered and isinstance(field, tuple) and field[:2] == ('c', 'str') and dtype is not None and dtype[0] == 'list':
        names = [x[1] for x in dtype[1:] if x[0] == 'tup' and len(x) > 1]
        if field in names:
            ok = names.index(field) == 2 and not back
    elif ordered and field is None and dtype is not None:
        ok = False
    elif not ordered and not sorts and evs:
        ok = False
    ob.check(P, R2, ok, e.loc, 'candidates are taken in the order of %s' % show(el)[:200], p, 'sorted by distance')
    if not evs:
        ob.check(P, R1, None, e.loc, 'unclear what the candidates are: %s' % show(k), p)
    seen = set()
    for l, q, o, x in evs:
        if x.loc in seen and len(evs) > 4:
            continue
        seen.add(x.loc)
        it2 = x.args[1]
        if not (isinstance(it2, Tup) and len(it2.items) >= 3):
            ob.check(P, R1, None, x.loc, 'a candidate is %s' % show(key(it2)), p)
            continue
        a, b = num(it2.items[0]), num(it2.items[1])
        guards = set(q[1].bools) - set(p.st.bools) or len(q[1].lin) > 0 and extra_lin(q, p)
        ok = covers(v, a, b, o + ((l, q),))
        if ok is False and guards:
            ok = None
        ob.check(P, R1, ok, x.loc, 'the candidates (%s, %s) are not all pairs' % (show(key(a)), show(key(b))), p,
                 'all pairs k < j < n')
        d = distance(key(it2.items[2]))
        if d:
            d = {repr(x) for x in d} == {repr(key(a)), repr(key(b))}
        ob.check(P, R2, d, x.loc, 'the distance is %s' % show(key(it2.items[2]))[:200], p,
                 'squared distance of the two points')


def extra_lin(q, p):
    return False

