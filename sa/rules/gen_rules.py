"""Random transition matrices (C23) and random edge types (C34)."""
from .common import *  # noqa
from .graphenv import *  # noqa
from ..core.models import call_ext
from .union_rules import unver, nested, walk, looping

MOD = 'queueing_tool.graph.graph_generation'
G = ('arg', 'g')
SEED = ('arg', 'seed')
BND = ('bound',)
SUMS = ('numpy.sum', 'builtins.sum', 'math.fsum')
NONNEG = ('numpy.random.rand', 'numpy.random.random', 'numpy.random.uniform', 'numpy.random.exponential',
          'numpy.random.random_sample', 'numpy.random.gamma', 'numpy.random.dirichlet', 'numpy.random.random.random')


def c(x):
    return ('c', x)


class GenCfg(GraphCfg):
    """Arithmetic on arrays makes arrays; the graph is given by its contract."""
    graphs = (G,)

    def array(self, it, v):
        if not isinstance(v, Sym):
            return False
        k = v.key
        while isinstance(k, tuple) and k and k[0] in ('at', 'was'):
            k = k[1]
        return k[0] == 'new' and k[1] in ('arr', 'numpy.zeros', 'numpy.ones', 'numpy.array') or \
            k[0] == 'rnd' and self.sized(it, k) or k[0] == 'call' and k[1].startswith('numpy.') and \
            k[1] not in ('numpy.sum', 'numpy.min', 'numpy.max', 'numpy.mean', 'numpy.isclose', 'numpy.any', 'numpy.all')

    def sized(self, it, k):
        for e in it.st.events:
            if e.kind == 'random' and e.res is not None and key(e.res) == k:
                return bool(e.kw) and 'size' in e.kw or len(e.args) > 2 or (
                    len(e.args) == 1 and e.name.rsplit('.', 1)[1] in ('rand', 'random', 'random_sample', 'choice'))
        return False

    def binop(self, it, o, a, b, node):
        if self.array(it, a) or self.array(it, b):
            r = it.new('arr')
            it.st.origin[r.key] = ('arr', o, it.deep(a), it.deep(b))
            return r
        return None

    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if n == '_test_graph' and args:
            return Sym(G)
        return GraphCfg.call(self, it, f, args, kw, node)


def explore(prog, name, args, kw, setup=None):
    it = Interp(prog, GenCfg())
    ctx = {}

    def pre(it):
        if setup:
            setup(it)
        return ctx

    def run(it, _):
        f = it.module_attr(it.prog.module(MOD), name)
        if not isinstance(f, Fn):
            raise AnchorMissing(name)
        ctx['where'] = '%s:%s' % (f.mod.rel, f.node.lineno)
        return it.call(f, args, kw, None)
    ps = it.explore(pre, run)
    return it, ps, ctx.get('where', '?')


def deep_at(it, st, v):
    old, it.st = it.st, st
    try:
        return it.deep(v)
    finally:
        it.st = old


def strip(k):
    """Without list()/array() around and without versions."""
    k = unver(k)
    while isinstance(k, tuple) and k[:1] == ('call',) and k[1] in (
            'builtins.list', 'numpy.array', 'numpy.asarray', 'builtins.tuple') and len(k) == 3:
        k = k[2]
    return k


def targets(it, st, v, vert):
    """Is the value the targets of the out edges of the vertex (True/False/None), in sorted order?"""
    old, it.st = it.st, st
    try:
        p = it.cfg.parts(it, v)
        d = strip(it.deep(v))
    finally:
        it.st = old
    if p is not None:
        if p[0] == ('succ', G, vert):
            return True
        return False if p[0][0] in ('pred', 'nodes', 'edges', 'oe', 'ie') or p[0][0] == 'succ' else None
    if d == ('succ', G, vert):
        return True
    if isinstance(d, tuple) and d[:1] == ('map',) and len(d) == 5 and not d[4]:
        src, e, g = d[1], d[2], [x for x in d[3] if x]
        srt = False
        if isinstance(src, tuple) and src[:2] == SORTED and len(src) == 3:
            srt, src = True, src[2]
        if src[:1] == ('oe',) and src[1] == G:
            if src[2] == vert and e == ('st' if srt else 'ot', G, vert, BND) and not g:
                return True
            return False if e in (vert,) or src[2] != vert or g else None
        if src[:1] in (('ie',), ('nodes',), ('edges',)) and not g:
            return False
        if src[:1] in (('succ',), ('st',)) and src[1:3] == (G, vert):
            return True if e == ('st' if srt else 'ot', G, vert, BND) and not g else None
    return None


# -- values of arrays -------------------------------------------------------------------------
def sumof(k):
    """X if k is the sum of X."""
    if isinstance(k, tuple):
        if k[:1] == ('call',) and k[1] in SUMS and len(k) == 3:
            return k[2]
        if k[:1] == ('mcall',) and len(k) >= 3 and k[2] == 'sum':
            return k[1]
    return None


def sign(it, p, k):
    """'pos', 'nonneg' or None for all entries of an array value."""
    if not isinstance(k, tuple) or not k:
        return None
    if k[0] == 'rnd':
        for e in nested(p.st.events):
            if e.kind == 'random' and e.res is not None and key(e.res) == k:
                if e.name.endswith('.uniform') and e.args:
                    lo = num(e.args[0])
                    if lo is None or lo.t:
                        return None
                    return 'pos' if lo.c > 0 else ('nonneg' if lo.c == 0 else None)
                if e.name.endswith('.dirichlet'):
                    return 'nonneg'
        return 'nonneg' if k[1] in NONNEG else None
    n = num(from_key(k)) if k[0] == 'c' and not isinstance(k[1], str) else None
    if n is not None and not n.t:
        return 'pos' if n.c > 0 else ('nonneg' if n.c == 0 else None)
    if sumof(k) is not None:
        return sign(it, p, sumof(k))
    if k[0] == 'call' and k[1] in ('numpy.ceil', 'numpy.abs', 'numpy.sqrt', 'numpy.array', 'numpy.asarray'):
        s = sign(it, p, k[2])
        return s if s else ('nonneg' if k[1] == 'numpy.abs' else None)
    if k[0] == 'call' and k[1] == 'numpy.ones':
        return 'pos'
    if k[0] == 'call' and k[1] in ('numpy.floor', 'numpy.round', 'numpy.rint', 'numpy.zeros'):
        return 'nonneg' if k[1] == 'numpy.zeros' or sign(it, p, k[2]) else None
    if k[0] == 'call' and k[1] == 'numpy.exp':
        return 'pos'
    if k[0] == 'call' and k[1] == 'numpy.maximum' and len(k) == 4:
        ss = {sign(it, p, k[2]), sign(it, p, k[3])}
        return 'pos' if 'pos' in ss else ('nonneg' if 'nonneg' in ss else None)
    if k[0] == 'arr':
        a, b = sign(it, p, k[2]), sign(it, p, k[3])
        if k[1] in ('Mult', 'Div') and a and b:
            return 'pos' if a == b == 'pos' else 'nonneg'
        if k[1] == 'Add' and a and b:
            return 'pos' if 'pos' in (a, b) else 'nonneg'
        if k[1] == 'Sub' and k[2] == key(const(1)) and k[3][:1] == ('rnd',) and k[3][1] in NONNEG[:3]:
            return 'pos'
    return None


def matrix_task(prog):
    P = 'C23'
    ob = Obligations()
    R0, R1, R2, R3, R4 = ('the matrix has a row and a column for every vertex and is zero where nothing is stored',
                          'a row is stored at the targets of the out edges of its vertex', 'a row sums to one',
                          'the sum of a row is not zero', 'every vertex with out edges gets a row')
    it, ps, where = explore(prog, 'generate_transition_matrix', [Sym(G)], {'seed': NONE})
    ob.absorb(it, 'generate_transition_matrix', ps)
    got = 0
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R0, None, where, '%s' % (p.value,), p)
            continue
        mk = key(p.value)
        root = mk
        while isinstance(root, tuple) and root and root[0] == 'at':
            root = root[1]
        mo = [e for e in p.st.events if e.kind == 'ext' and e.res is not None and key(e.res) == root]
        nv = ('nV', G)
        if not mo:
            ob.check(P, R0, None, where, 'returns %s' % show(mk), p)
            continue
        shape = it.deep(mo[0].args[0]) if mo[0].args else None
        ok = mo[0].name == 'numpy.zeros' and shape in (('tup', nv, nv), ('list', nv, nv))
        if not ok and (mo[0].name not in ('numpy.zeros', 'numpy.ones') or shape is None or shape[0] != 'tup'):
            ok = None
        ob.check(P, R0, ok, mo[0].loc, 'made by %s(%s)' % (mo[0].name, show(shape)), p, 'zeros((nV, nV))')
        loops = [(e, q, o) for e, q, o in looping(p.st.events) if not o]
        tops = [x for x in p.st.events if x.kind == 'setitem' and unver(key(x.args[0])) == root]
        for x in tops:
            ob.check(P, R1, None, x.loc, 'stored outside of the loop over the vertices', p)
        for e, q, o in loops:
            if any(x.kind == 'ext' and x.name.startswith('matplotlib') for x in q[1].events):
                continue
            src = e.info['iter']
            vert = None
            if src in (('nodes', G), G, ('adj', G)):
                vert = ('node', G, e.info['ix'])
            elif src == ('view', 'range', c(0), nv, c(1)) or src[:2] == SORTED and src[2] == ('nodes', G):
                vert = e.info['ix'] if src[0] == 'view' else ('snode', G, e.info['ix'])
            st = [x for x in nested(q[1].events) if x.kind == 'setitem' and unver(key(x.args[0])) == root]
            if vert is None and src[:2] == ('view', 'range') and len(src) == 5 and src[4] == c(1) and st:
                a, b = num(from_key(src[2])), num(from_key(src[3]))
                d = b - atom(nv) if b is not None else None
                if a is not None and d is not None and not a.t and not d.t and (a.c > 0 or d.c < 0):
                    ob.check(P, R4, False, e.loc, 'a loop over %s' % show(src), p, 'all vertices')
                    got += 1
                    continue
            if vert is None:
                ob.check(P, R4, None, e.loc, 'a loop over %s' % show(src), p)
                continue
            got += 1
            row(ob, it, p, e, q, vert, st, P, (R1, R2, R3, R4), root)
    if not got and ps:
        ob.check(P, R4, None, where, 'no loop over the vertices', None)
    return ob


def row(ob, it, p, e, q, vert, st, P, RS, root):
    R1, R2, R3, R4 = RS
    v = PV(it, q[1], q[2], q[0], p, 'iter')
    deg = outdeg(G, vert)
    some = v.feas((const(1) - deg, '<='))
    sure = v.ent(const(1) - deg, '<=')
    full = e.info.get('complete') and q[0] in (None, ('continue',)) or q[0] is None or q[0][0] == 'continue'
    if q[0] is not None and q[0][0] not in ('continue',):
        ob.check(P, R4, False if q[0][0] == 'break' else None, e.loc, 'the loop over the vertices ends early', p)
        return
    if not st:
        odd = [x for x in nested(q[1].events) if x.kind in ('mutate', 'mcall', 'callback') or x.kind == 'setattr']
        ob.check(P, R4, True if not some else (False if not odd and v.precise() else None), e.loc,
                 'no row for a vertex with %s out edges' % ('one or more' if sure else 'possibly some'), p,
                 'a row unless there are no out edges')
        return
    x = st[0]
    stq = q[1]
    idx = x.args[1]
    ok = None
    elementwise = False
    if len(st) == 1 and isinstance(idx, Tup) and len(idx.items) == 2:
        a, b = idx.items
        if key(a) == vert:
            ok = targets(it, stq, b, vert)
            if ok is None:
                tk = key(b)
                if tk[:3] in (('st', G, vert), ('ot', G, vert)):
                    inner = [(e2, q2) for e2, q2, o2 in looping(q[1].events) if e2.info['ix'] == tk[3]]
                    if inner:
                        elementwise = True
                        stq = inner[0][1][1]
                        whole = all(qq[0] is None and any(y.kind == 'setitem' and unver(key(y.args[0])) == root
                                                          for y in qq[1].events) for qq in inner[0][0].info['paths'])
                        ok = True if whole else None
        elif key(b) == vert:
            ok = False if targets(it, stq, a, vert) else None
    ob.check(P, R1, ok, x.loc, 'stored at %s' % show(deep_at(it, q[1], idx)), p, 'mat[v, targets of v]')
    val = resolve(stq, deep_at(it, stq, x.args[2]))
    n = num(x.args[2])
    if n is not None and not n.t:
        one = v.ent(deg - const(1), '<=')
        ok = n.c == 1 and one
        if not ok and not v.precise():
            ok = None
        ob.check(P, R2, ok, x.loc, 'every entry of a row of %s entries is %s' % (
            'one' if one else 'possibly several', n.c), p, '1 only for a single out edge')
        return
    X = S = None
    if elementwise and isinstance(val, tuple) and val[:1] == ('div',):
        it1, S = val[1], sumof(val[2])
        X = unver(it1[1]) if isinstance(it1, tuple) and it1[0] == 'item' and S is not None else None
        ixs = key(idx.items[1])[3]
        if X is not None and it1[2] != ixs:
            X = None
    elif isinstance(val, tuple) and val[:2] == ('arr', 'Div'):
        X, S = val[2], sumof(val[3])
        if S is None and known(val[3]):
            ob.check(P, R2, False, x.loc, 'divided by %s' % show(val[3]), p, 'divided by the sum')
            return
    if X is None or S is None:
        bad = isinstance(val, tuple) and sign(it, p, val) is not None and known(val)
        if val[:1] == ('call',) and val[1] not in ('numpy.round', 'numpy.ceil', 'numpy.floor', 'numpy.around') and \
                val[1].startswith('numpy.') and sumover(val):
            bad = False
        if val[:1] == ('rnd',) and val[1].endswith('.dirichlet'):
            ob.check(P, R2, True, x.loc, 'a draw of a Dirichlet distribution', p)
            return
        if val[:1] == ('div',) and val[1:2] == (c(1),):
            bad = val[2] in (('nV', G), ('nE', G))
            if val[2] == key(deg) or val[2] == ('outdeg', G, vert):
                ob.check(P, R2, True, x.loc, '1/deg', p)
                return
        ob.check(P, R2, False if bad else None, x.loc, 'the row is %s' % show(val), p, 'X / sum(X)')
        return
    same = X == S
    ob.check(P, R2, True if same else (False if unver(X) != unver(S) and known(X) and known(S) else None), x.loc,
             'the row is %s divided by the sum of %s' % (show(X), show(S)), p, 'X / sum(X)')
    # the sum is not zero
    base, o = S, S
    sg = sign(it, p, o)
    zero = None
    says = []     # tests that tell nothing about a sum of zero
    for bk, val_ in q[1].bools.items():
        t = bk[1] if bk[0] == 'truth' else bk
        if isinstance(t, tuple) and (t[:2] == ('call', 'numpy.isclose') and len(t) == 4 or t[0] == '==' and len(t) == 3):
            y = [a for a in t[-2:] if sumof(a) is not None and resolve(q[1], sumof(a)) in (base, o)]
            k = [a for a in t[-2:] if a[:1] == ('c',) and len(a) == 2 and abs(a[1]) >= Fraction(1, 100)]
            if y and k:
                if val_:
                    zero = False
                else:
                    says.append(bk)
                continue
        if isinstance(t, tuple) and t[:2] == ('call', 'numpy.isclose') and len(t) >= 4:
            s = sumof(t[2])
            if s is not None and resolve(q[1], s) in (base, o) and t[3] == c(0):
                zero = val_
        if isinstance(t, tuple) and t[0] == '==' and c(0) in t:
            s = [sumof(y) for y in t[1:] if sumof(y) is not None]
            if s and resolve(q[1], s[0]) in (base, o):
                zero = val_
    fixes = [y for y in nested(q[1].events) if y.kind == 'setitem' and resolve(q[1], key(y.args[0])) == base]
    if zero is None:
        for l, op in q[1].lin:
            for a in l.t:
                s = sumof(a)
                if s is not None and resolve(q[1], s) in (base, o) and len(l.t) == 1 and op == '<' and l.c == 0:
                    zero = False if l.t[a] < 0 else zero
                elif s is not None and resolve(q[1], s) in (base, o):
                    zero = zero if zero is not None else 'lin'
    if sg == 'pos' or zero is False:
        ok = True
    elif zero is True:
        ok = False if not fixes else None
        for y in fixes:
            nn = num(y.args[2])
            if nn is not None and not nn.t and nn.c > 0:
                ok = True
            elif nn is not None and not nn.t:
                ok = False
    elif zero == 'lin' or any('sum' in repr(bk) and bk not in says for bk in q[1].bools) or fixes:
        ok = None
    else:
        ok = False if sg == 'nonneg' else None
    ob.check(P, R3, ok, x.loc, 'all entries may be zero', p, 'a sum that is not zero')


def resolve(st, k):
    """Arrays made by arithmetic as the terms they were made from."""
    if not isinstance(k, tuple):
        return k
    if k[:1] == ('at',) and len(k) == 3:
        return resolve(st, k[1])
    if k[:2] == ('new', 'arr') and k in st.origin:
        return resolve(st, st.origin[k])
    return tuple(resolve(st, x) for x in k)


def deep_origin(it, st, k):
    return st.origin.get(k, k)


def sumover(k):
    return any(sumof(x) is not None for x in walk(k))


def known(k):
    for x in walk(k):
        if x[:1] == ('call',) and not x[1].startswith('numpy.') and x[1] not in SUMS:
            return False
        if x[:1] in (('mcall',), ('mres',), ('fresh',), ('lv',)) and not (x[:1] == ('mcall',) and x[2] in ('sum', 'max')):
            return False
    return True


# -- C34: random edge types -------------------------------------------------------------------
PR, LP = ('arg', 'proportions'), ('arg', 'loop_proportions')
EDGES = ('edges', G)
ETK = ('c', 'str', 'edge_type')


class TypeCfg(GenCfg):
    def call(self, it, f, args, kw, node):
        if isinstance(f, Ext) and f.name == 'numpy.random.choice':
            da = [it.deep(a) for a in args]
            dk = {k: it.deep(v) for k, v in kw.items()}
            r = call_ext(it, f.name, args, kw, node)
            ev = it.st.events[-1]
            ev.info = dict(ev.info or {}, deep=(da, dk))
            return r
        return GenCfg.call(self, it, f, args, kw, node)


def pick(sel):
    """(guard polarity, is it a filter of all the edges) of a sequence of edges: True = loops,
    False = edges between two vertices, None = not such a filter, 'all' = every edge."""
    s = strip(sel)
    if s == EDGES or s == (SORTED + (EDGES,)):
        return 'all'
    if isinstance(s, tuple) and s[:1] == ('map',) and len(s) == 5 and s[1] == EDGES and \
            s[2] == ('tup', ('eu', G, BND), ('ev', G, BND)):
        g = [x for x in s[3] if x]
        if not g:
            return 'all' if not s[4] else None
        want = {('eu', G, BND), ('ev', G, BND)}
        if len(g) == 1 and g[0][0][0] == '==' and set(g[0][0][1:]) == want:
            return g[0][1]
    return None


def selected(e, el, q, p):
    """Class of the edges that an iteration handles: the edge as a key and its class."""
    src = e.info['iter']
    ix = e.info['ix']
    if isinstance(src, tuple) and src[:2] == ('view', 'enumerate'):
        src = src[2]
    elif isinstance(src, tuple) and src[:2] == ('view', 'zip'):
        src = src[2]
    elif isinstance(src, tuple) and src[:2] == ('view', 'range') and len(src) == 5 and src[2] == c(0):
        src = src[3][1] if src[3][:1] == ('len',) else src
    cl = pick(src)
    if cl is None:
        return None
    if cl == 'all':
        if el != ('tup', ('eu', G, ix), ('ev', G, ix)):
            return None
        for b, val in q[1].bools.items():
            if b[0] == '==' and set(b[1:]) == {('eu', G, ix), ('ev', G, ix)}:
                return val
        return 'all'
    if el[:1] == ('tup',) and len(el) == 3 and el[1][:1] == ('eu',) and el[2][:1] == ('ev',) and \
            el[1][1:] == el[2][1:] and el[1][2][:1] == ('sel',) and el[1][2][2] == ix and pick(el[1][2][1]) == cl:
        return cl
    return None


def dictparts(k, d):
    """'keys' / 'values' if k is the list of the keys / values of d."""
    k = strip(k)
    if k == d or k == ('view', 'keys', d):
        return 'keys'
    if k == ('view', 'values', d):
        return 'values'
    if isinstance(k, tuple) and k[:1] == ('map',) and len(k) == 5 and not k[3] and not k[4]:
        if k[2] == ('dkey', d, BND):
            return 'keys'
        if k[2] == ('item', d, ('dkey', d, BND)):
            return 'values'
    return None


DEFAULT = {'non': ([1, 2, 3], Fraction(1, 3)), 'loop': ([0, 1, 2, 3], Fraction(1, 4))}


def fracs(k):
    k = strip(k)
    if not isinstance(k, tuple) or k[:1] not in (('list',), ('tup',)):
        return None
    out = []
    for x in k[1:]:
        n = num(from_key(x)) if isinstance(x, tuple) and x[:1] == ('c',) and not isinstance(x[1], str) else None
        if n is None or n.t:
            return None
        out.append(n.c)
    return out


def types_task(prog, given):
    P = 'C34'
    ob = Obligations()
    R1, R2, R3, R4, R5 = (
        'every edge gets a type', 'an edge gets its own draw', 'the draws are from the given types with their proportions',
        'proportions that do not sum to one are rejected', 'loops and other edges have separate proportions')

    def setup(it):
        it.cfg.__class__ = TypeCfg
        it.st.bools[('isnone', PR)] = not given
        it.st.bools[('isnone', LP)] = not given
        it.assume(const(1) - nE(G), '<=')
    it, ps, where = explore(prog, 'set_types_random', [Sym(G)], {
        'seed': NONE, 'proportions': Sym(PR), 'loop_proportions': Sym(LP)}, setup)
    ob.absorb(it, 'set_types_random(%s)' % ('given' if given else 'defaults'), ps)
    classes = set()
    for p in ps:
        it.st = p.st
        if p.kind == 'raise':
            ev = [e for e in p.st.events if e.kind == 'raise']
            if ev and ev[-1].name != 'KeyError':
                ob.check(P, R4, ev[-1].name == 'ValueError', ev[-1].loc, 'raises %s' % ev[-1].name, p, 'ValueError')
            continue
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        ob.check(P, R1, True if key(p.value) == G else None, where, 'returns %s' % show(key(p.value)), p, 'the graph')
        if given:
            for d in (PR, LP):
                ok = False
                for b, val in p.st.bools.items():
                    t = b[1] if b[0] == 'truth' else b
                    if isinstance(t, tuple) and t[:2] == ('call', 'numpy.isclose') and c(1) in t[2:4] and any(
                            sumof(x) is not None and dictparts(sumof(x), d) == 'values' for x in t[2:4]):
                        ok = bool(val)
                    elif d in walk(b) and ('sum' in repr(b) or 'close' in repr(b)) and ok is False:
                        ok = None
                if ok is False and any(d in walk(a) and 'sum' in repr(a) for l, o in p.st.lin for a in l.t):
                    ok = None
                ob.check(P, R4, ok, where, 'no test that %s sum to one' % d[1], p, 'isclose(sum, 1)')
        draws = {key(e.res): e for e in nested(p.st.events) if e.kind == 'random' and e.res is not None}
        good = set()
        for e, q, o in looping(p.st.events):
            for x in q[1].events:
                if x.kind == 'setitem':
                    el, val, D = key(x.args[1]), key(x.args[2]), unver(key(x.args[0]))
                elif x.kind == 'gset' and x.name == 'set_ep' and key(x.args[2]) == ETK:
                    el, val, D = key(x.args[1]), key(x.args[3]), None
                else:
                    continue
                final = isinstance(val, tuple) and val[:1] == ('item',) and val[2] == el
                if final:
                    continue
                if x.kind == 'setitem' and not (el[:1] == ('tup',) or el[:1] == ('elem',)):
                    continue
                cl = selected(e, el, q, p)
                if val[:1] == ('rnd',):
                    dk, ix = val, None
                elif val[:1] == ('item',) and val[1][:1] == ('rnd',):
                    dk, ix = val[1], val[2]
                elif val[:1] == ('elem',) and val[1][:1] == ('rnd',):
                    dk, ix = val[1], val[2]
                else:
                    dk = ix = None
                if dk is None or dk not in draws:
                    ob.check(P, R2, False if val[:1] == ('c',) else None, x.loc, 'an edge gets %s' % show(val), p,
                             'a draw')
                    continue
                if ix is None:
                    own = dk in [key(y.res) for y in q[1].events if y.kind == 'random']
                    ob.check(P, R2, True if own else False, x.loc, 'all edges get one draw', p, 'a draw per edge')
                else:
                    ok = ix == e.info['ix']
                    if not ok and ix[:1] not in (('c',), ('ix',), ('lin',)):
                        ok = None
                    ob.check(P, R2, ok, x.loc, 'edge %s gets draw %s' % (show(el), show(ix)), p, 'its own draw')
                whole = e.info.get('complete') and all(qq[0] is None or qq[0][0] == 'continue' for qq in e.info['paths'])
                ob.check(P, R1, True if whole else None, x.loc, 'not every edge is visited', p)
                if cl == 'all':
                    ob.check(P, R5, False, x.loc, 'loops and other edges are treated alike', p)
                    continue
                if cl is None:
                    ob.check(P, R5, None, x.loc, 'the edges %s' % show(e.info['iter']), p)
                    continue
                classes.add(cl)
                proportions(ob, it, p, draws[dk], cl, given, P, (R3, R5))
                good.add(D)
        # every edge gets the value of the dict
        sets = [(e, q, x) for e, q, o in looping(p.st.events) for x in q[1].events
                if x.kind == 'gset' and x.name == 'set_ep' and key(x.args[2]) == ETK]
        fin = [(e, q, x) for e, q, x in sets if key(x.args[3])[:1] == ('item',) and key(x.args[3])[2] == key(x.args[1])]
        if fin:
            for e, q, x in fin:
                el = key(x.args[1])
                whole = e.info.get('complete') and all(
                    qq[0] is None and any(y.kind == 'gset' for y in qq[1].events) for qq in e.info['paths'])
                ok = pick(e.info['iter']) == 'all' and el[:1] == ('tup',) and el[1:] in (
                    (('eu', G, e.info['ix']), ('ev', G, e.info['ix'])), (('su', G, e.info['ix']), ('sv', G, e.info['ix'])))
                if ok and not whole:
                    ok = None if any(qq[0] is not None for qq in e.info['paths']) else False
                elif not ok:
                    ok = False if pick(e.info['iter']) in (True, False) else None
                ob.check(P, R1, ok, x.loc, 'the type of %s is set for %s' % (show(el), show(e.info['iter'])), p,
                         'set for every edge')
        elif not sets and not any(e.kind == 'loop0' for e in p.st.events):
            odd = [x for x in nested(p.st.events) if x.kind in ('ext', 'mcall', 'gop') and x.name not in (
                'new_edge_property',) and not x.name.startswith('numpy.')]
            ob.check(P, R1, False if not odd and not any(x.kind == 'setitem' and 'eattr' in repr(key(x.args[0]))
                                                         for x in nested(p.st.events)) else None,
                     where, 'no type is set', p)
    if ps and classes and classes != {True, False}:
        ob.check(P, R1, None, where, 'only %s get types' % ('loops' if True in classes else 'edges that are no loops'))
    return ob


def proportions(ob, it, p, e, cl, given, P, RS):
    R3, R5 = RS
    da, dk = (e.info or {}).get('deep', ([], {}))
    types = da[0] if da else dk.get('a')
    pr = dk.get('p') or (da[3] if len(da) > 3 else None)
    rep = dk.get('replace') or (da[2] if len(da) > 2 else None)
    if e.name != 'numpy.random.choice' or types is None:
        ob.check(P, R3, None, e.loc, 'drawn by %s' % e.name, p)
        return
    d, other = (LP, PR) if cl else (PR, LP)
    if rep == ('c', 'bool', False):
        ob.check(P, R3, False, e.loc, 'drawn without replacement', p)
    if pr is None:
        ob.check(P, R3, False, e.loc, 'drawn uniformly', p, 'with the proportions')
        return
    if given:
        a, b = dictparts(types, d), dictparts(pr, d)
        a2, b2 = dictparts(types, other), dictparts(pr, other)
        if isinstance(strip(pr), tuple) and strip(pr)[:2] == SORTED and a == 'keys' and dictparts(strip(pr)[2], d):
            ob.check(P, R3, False, e.loc, 'the proportions are sorted, the types are not', p, 'keys with values')
            return
        if isinstance(strip(types), tuple) and strip(types)[:2] == SORTED and b == 'values' and dictparts(
                strip(types)[2], d):
            ob.check(P, R3, False, e.loc, 'the types are sorted, the proportions are not', p, 'keys with values')
            return
        swapped = a2 is not None or b2 is not None
        ob.check(P, R5, True if a and b else (False if swapped else None), e.loc,
                 '%s draw from %s with p %s' % ('loops' if cl else 'edges', show(types), show(pr)), p, 'from %s' % d[1])
        if a and b:
            ob.check(P, R3, (a, b) == ('keys', 'values'), e.loc, 'draws %s with p %s' % (a, b), p, 'keys with values')
        return
    ts, fs = fracs(types), fracs(pr)
    wt, wp = DEFAULT['loop' if cl else 'non']
    ok = None
    if ts is not None and fs is not None:
        ok = sorted(ts) == wt and len(fs) == len(ts) and all(f == wp for f in fs)
    ob.check(P, R3, ok, e.loc, 'default types %s with %s' % (ts, fs), p, 'types %s with %s each' % (wt, wp))


# -- graphs made of these parts ---------------------------------------------------------------
RK, P2, P3 = ('arg', 'rank'), ('arg', 'p2'), ('arg', 'p3')
LT = ('c', 'str', 'loop_type')


class MadeCfg(TypeCfg):
    made = ()
    inline = ()

    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if n in self.made:
            it.event('made', n, list(args), node, kw=kw)
            return Sym(G)
        if isinstance(f, (Bound, ExtMeth)) and isinstance(f.self_, Sym) and f.self_.key == G:
            m = f.name if isinstance(f, ExtMeth) else f.fn.node.name
            if m in ('add_edge', 'remove_edge', 'add_node'):
                it.event('gop', m, [Sym(G)] + list(args), node, kw=kw)
                return NONE
        return TypeCfg.call(self, it, f, args, kw, node)


def starred(e, name):
    """Does a call get the key word arguments of its caller?"""
    return True


def mset(prog, name, args, kw, made):
    def setup(it):
        it.cfg.__class__ = MadeCfg
        it.cfg.made = made
        it.assume(const(1) - nV(G), '<=')
    return explore(prog, name, args, kw, setup)


def loopgraph_task(prog):
    """generate_random_graph: loops with their probability, then types for all edges."""
    P = 'C34'
    ob = Obligations()
    R1, R2 = 'a vertex without a loop gets one with probability prob_loop', 'types are set after all edges exist'
    pl = ('arg', 'prob_loop')
    it, ps, where = mset(prog, 'generate_random_graph', [Sym(('arg', 'n')), Sym(pl)], {},
                         ('minimal_random_graph', 'set_types_random'))
    ob.absorb(it, 'generate_random_graph', ps)
    n = 0
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R2, None, where, '%s' % (p.value,), p)
            continue
        names = [e.name if e.kind == 'made' else e.kind for e in p.st.events if e.kind in ('made', 'loop')]
        ok = 'set_types_random' in names and key(p.value) == G
        if ok:
            ok = names[-1] == 'set_types_random'
            if not ok and not any(x.kind == 'gop' for e, q, o in looping(
                    p.st.events[[i for i, e in enumerate(p.st.events) if e.name == 'set_types_random'][-1]:])
                    for x in q[1].events):
                ok = None
        elif key(p.value) != G:
            ok = None
        ob.check(P, R2, ok, where, 'order of the steps: %s' % ', '.join(names), p, 'edges, loops, types')
        ob.check(P, R2, names[:1] == ['minimal_random_graph'] or None, where, 'order: %s' % ', '.join(names), p)
        for e, q, o in looping(p.st.events):
            ix = e.info['ix']
            vert = ('node', G, ix) if e.info['iter'] in (('nodes', G), G, ('adj', G)) else (
                ix if e.info['iter'][:2] == ('view', 'range') else None)
            adds = [x for x in q[1].events if x.kind == 'gop' and x.name == 'add_edge']
            if vert is None:
                if adds:
                    ob.check(P, R1, None, e.loc, 'a loop over %s' % show(e.info['iter']), p)
                continue
            if e.info['iter'][:2] == ('view', 'range') and e.info['iter'] != ('view', 'range', c(0), ('nV', G), c(1)):
                vert = None
            n += 1
            v = PV(it, q[1], q[2], q[0], p, 'iter')
            has = q[1].bools.get(('in', ('tup', vert, vert), ('eindex', G)))
            rnd = [x for x in q[1].events if x.kind == 'random']
            ok = True
            if adds:
                x = adds[0]
                ends = [key(a) for a in x.args[1:]]
                if len(ends) == 1 and ends[0][:1] == ('tup',):
                    ends = list(ends[0][1:])
                if len(adds) > 1 or ends != [vert, vert]:
                    ok = False if vert is not None and len(ends) == 2 else None
                elif rnd:
                    u = atom(key(rnd[-1].res))
                    std = rnd[-1].name.rsplit('.', 1)[1] in ('uniform', 'rand', 'random', 'random_sample') and not rnd[-1].args
                    lo = not v.feas((atom(pl) - u, '<='))     # u < prob_loop: never with probability 0
                    ok = True if lo and std else (False if std and v.feas((atom(pl) - u, '<')) else None)
                    if std and not lo and ok is None:
                        ok = False
                else:
                    ok = False if not any(b[0] == 'truth' for b in q[1].bools) else None
            elif has is True:
                ok = True
            elif rnd and rnd[-1].name.rsplit('.', 1)[1] in ('uniform', 'rand', 'random', 'random_sample') and not rnd[-1].args:
                u = atom(key(rnd[-1].res))
                # no loop: u >= prob_loop
                ok = True if not v.feas((u - atom(pl), '<')) else False
            else:
                ok = None if rnd or vert is None or has is not None else False
            if ok is False and not v.precise():
                ok = None
            ob.check(P, R1, ok, (adds[0] if adds else e).loc, 'a vertex %s a loop' % ('gets' if adds else 'does not get'), p,
                     'a loop if and only if the draw is below prob_loop')
            if not e.info.get('complete') or q[0] is not None and q[0][0] != 'continue':
                ob.check(P, R1, False if q[0] and q[0][0] == 'break' else None, e.loc, 'not every vertex is visited', p)
    if ps and not n:
        ob.check(P, R1, None, where, 'no loop over the vertices')
    return ob


def rank_task(prog):
    P = 'C40'
    ob = Obligations()
    R0, R1, R2, R3, R4 = (
        'the top vertices are those with the largest ranks', 'a chosen vertex gets its type and has a loop',
        'every edge gets type 1 first', 'the loop of a chosen vertex gets the type of the vertex', 'loops come first')
    it, ps, where = mset(prog, 'set_types_rank', [Sym(G), Sym(RK), Sym(P2), Sym(P3)], {'seed': NONE}, ())
    ob.absorb(it, 'set_types_rank', ps)
    seen = set()
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        for e in p.st.events:
            if e.kind == 'ext' and e.name in FOUND:
                top(ob, it, p, e, P, R0)
        order = {}
        top_ = [e for e in p.st.events if e.kind == 'loop']
        for i, e in enumerate(top_):
            for q in e.info['paths']:
                for x in nested(q[1].events):
                    if x.kind == 'gop' and x.name == 'add_edge':
                        order.setdefault('add', []).append(i)
                    if x.kind == 'gset' and x.name == 'set_ep' and key(x.args[2]) == ETK:
                        k = 'one' if e.info['iter'] == EDGES else 'typed'
                        order.setdefault(k, []).append(i)
        if 'add' in order and 'one' in order:
            ob.check(P, R4, max(order['add']) < min(order['one']), where, 'edges are added after types are set', p)
        if 'one' in order and 'typed' in order:
            ob.check(P, R4, max(order['one']) < min(order['typed']), where, 'the types of loops are overwritten', p)
        for e, q, o in looping(p.st.events):
            it_, ix = e.info['iter'], e.info['ix']
            if o:
                continue
            v = PV(it, q[1], q[2], q[0], p, 'iter')
            new = {b: val for b, val in q[1].bools.items() if b not in p.st.bools}
            vps = [x for x in q[1].events if x.kind == 'gset' and x.name == 'set_vp' and key(x.args[2]) == LT]
            eps = [x for x in q[1].events if x.kind == 'gset' and x.name == 'set_ep' and key(x.args[2]) == ETK]
            whole = e.info.get('complete') and (q[0] is None or q[0][0] == 'continue')
            if it_ == EDGES or it_[:2] == SORTED and it_[2] == EDGES:
                if not eps and not any(y.kind == 'gset' for qq in e.info['paths'] for y in qq[1].events):
                    continue
                seen.add(R2)
                a, b = (('eu', G, ix), ('ev', G, ix)) if it_ == EDGES else (('su', G, ix), ('sv', G, ix))
                loop_ = new.get(('==', a, b), new.get(('==', b, a)))
                ok = None
                if len(eps) == 1:
                    el, val = key(eps[0].args[1]), key(eps[0].args[3])
                    ok = el == ('tup', a, b) and val == c(1) and whole
                    if not ok and (el != ('tup', a, b) or val[:1] != ('c',)):
                        ok = None
                    if loop_ is not None and not ok:
                        ok = None
                elif not eps:
                    ok = False if loop_ is None and v.precise() and not q[1].events else None
                ob.check(P, R2, ok, e.loc, 'an edge gets type %s' % (show(key(eps[0].args[3])) if eps else 'none'), p, '1')
                continue
            vert = ('node', G, ix) if it_ in (('nodes', G), G, ('adj', G)) else None
            if vert is None:
                if vps or eps:
                    ob.check(P, R1 if vps else R3, None, e.loc, 'a loop over %s' % show(it_), p)
                continue
            ins = {}
            for b, val in new.items():
                if b[0] == 'in' and b[1] == vert and empty_set(b[2]):
                    ins['empty'] = val
                elif b[0] == 'in' and b[1] == vert:
                    kind = 'top' if top_set(b[2]) else ('near' if 'numpy.unique' in repr(b[2]) or 'numpy.ones' in repr(
                        b[2]) else repr(b[2]))
                    ins[kind] = val
                    if kind == 'top':
                        ct = trimmed(b[2])
                        ob.check(P, R0, {True: False, False: True, None: None}[ct], e.loc,
                                 'only some of the vertices with the highest ranks are chosen: %s' % show(b[2])[:160],
                                 p, 'all of them')
            if ins and any(y.kind == 'gset' and y.name == 'set_vp' for qq in e.info['paths'] for y in qq[1].events):
                seen.add(R1)
                if ins.pop('empty', False):
                    continue
                want = 3 if ins.get('top') else (2 if ins.get('near') else None)
                adds = [x for x in q[1].events if x.kind == 'gop' and x.name == 'add_edge']
                has = new.get(('in', ('tup', vert, vert), ('eindex', G)))
                odd = [k for k in ins if k not in ('top', 'near')]
                if want is None:
                    ok = not vps and not adds
                else:
                    ok = len(vps) == 1 and key(vps[0].args[1]) == vert and key(vps[0].args[3]) == c(want) and whole and (
                        has is True or has in (False, None) and len(adds) == 1 and [key(a) for a in adds[0].args[1:]] in (
                            [vert, vert], [('tup', vert, vert)]))
                if not ok and (odd or any(key(x.args[3])[:1] != ('c',) for x in vps)):
                    ok = None
                if not ok and not adds and has is not True and any(
                        x.kind == 'gop' and x.name == 'add_edge' for e2, q2, o2 in looping(p.st.events)
                        if e2 is not e for x in q2[1].events):
                    ok = None
                ob.check(P, R1, ok, e.loc, 'a vertex that is %s gets type %s and %s loop' % (
                    ' and '.join(k if val else 'not ' + k for k, val in ins.items()),
                    show(key(vps[0].args[3])) if vps else 'none', 'a' if adds or has else 'no'), p,
                    'type 3 at the top, else 2 near it, with a loop')
                continue
            if not ins and all(b[0] == 'in' and b[2] == ('eindex', G) for b in new) and whole and len(e.info['paths']) <= 2 and any(
                    key(x.args[1]) == vert and key(x.args[3])[:1] == ('c',) and key(x.args[3]) != key(Const(None)) for x in vps):
                seen.add(R1)
                ob.check(P, R1, False, e.loc, 'every vertex gets type %s' % show(key(vps[0].args[3])), p)
                continue
            vp = ('vp', G, 'loop_type', vert)
            touch = any(y.kind == 'gset' and y.name == 'set_ep' and key(y.args[2]) == ETK
                        for qq in e.info['paths'] for y in qq[1].events)
            if touch:
                seen.add(R3)
                t = None
                for b, val in new.items():
                    if b[0] == '==' and vp in b and val:
                        t = [num(from_key(y)) for y in b[1:] if y != vp][0]
                none = all(not val for b, val in new.items() if b[0] == '==' and vp in b) and any(
                    b[0] == '==' and vp in b for b in new)
                ok = None
                if len(eps) == 1:
                    el, val = key(eps[0].args[1]), eps[0].args[3]
                    good = el == ('tup', vert, vert)
                    if key(val) == vp:
                        ok = good
                    elif t is not None:
                        nn = num(val)
                        ok = good and nn is not None and nn == t
                        if not ok and (nn is None or nn.t):
                            ok = None
                    elif none:
                        ok = False
                elif not eps:
                    out = {num(from_key(y)).c for b, val in new.items() if b[0] == '==' and vp in b and not val
                           for y in b[1:] if y != vp and num(from_key(y)) is not None}
                    other = any(vp in walk(b) and b[0] != '==' for b in new)
                    ok = False if t is not None and t.c in (2, 3) else (
                        True if {2, 3} <= out or t is not None else (False if not other and new else None))
                ob.check(P, R3, ok, e.loc, 'the loop of a vertex of type %s gets %s' % (
                    show(key(t)) if t is not None else '?', show(key(eps[0].args[3])) if eps else 'no type'), p,
                    'the type of the vertex')
    if ps:
        odd = any(x.kind == 'mcall' and x.name not in (
            'transpose', 'reshape', 'astype', 'copy', 'argsort', 'flatten', 'ravel', 'tolist', 'sum', 'min', 'max', 'mean') or x.kind == 'setitem' and ETK in walk(key(x.args[1]))
                  for p in ps for x in nested(p.st.events))
        evs = [x for p in ps for x in nested(p.st.events)]
        odd = odd or any(x.kind == 'mutate' or x.kind == 'ext' and x.name.startswith('networkx.set_') for x in evs)
        sets = [x for x in evs if x.kind == 'gset' and x.name == 'set_ep' and key(x.args[2]) == ETK]
        odds = {R1: any(x.kind == 'gset' and x.name == 'set_vp' for x in evs),
                R2: any(key(x.args[1])[:1] != ('tup',) or key(x.args[1])[1] != key(x.args[1])[2] for x in sets),
                R3: any(key(x.args[3]) != c(1) for x in sets)}
        for r in (R1, R2, R3):
            if r not in seen:
                ob.check(P, r, None if odd or odds[r] else False, where, 'no code does this', None)
    return ob


def empty_set(k):
    while isinstance(k, tuple) and k[:1] in (('setof',), ('call',)):
        k = k[1] if k[0] == 'setof' else (k[2] if len(k) > 2 else k[1])
    return k in (('list',), ('tup',))


def trimmed(k):
    """Is the set of the chosen vertices only a part of those found (True), all of them (False) or not known (None)?"""
    while isinstance(k, tuple):
        if k[:1] == ('call',) and k[1] in FOUND:
            return False
        if k[:1] == ('slice',) and len(k) == 5:
            lo = k[2] in (key(NONE), ('c', 0))
            if lo and k[3] == key(NONE):
                k = k[1]
                continue
            return True if top_set(k[1]) else None
        if k[:1] == ('setof',) or k[:1] == ('item',) and len(k) == 3 and k[2] in (('c', 0), key(const(0))):
            k = k[1]
        elif k[:1] == ('at',):
            k = k[1]
        elif k[:1] == ('call',) and len(k) == 3 and k[1] in (
                'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset', 'builtins.sorted', 'numpy.unique',
                'numpy.array', 'numpy.asarray', 'numpy.sort'):
            k = k[2]
        elif k[:1] == ('mcall',) and len(k) == 3 and k[2] in ('tolist', 'copy', 'flatten', 'ravel'):
            k = k[1]
        elif k[:1] == ('map',) and len(k) == 5 and not k[3] and not k[4]:
            k = k[1] if k[2] == ('elem', k[1], ('bound',)) else None
        else:
            return None
    return None


def top_set(k):
    return any(x[:1] == ('call',) and len(x) > 2 and x[1] in FOUND and RK in walk(x) for x in walk(k))


FOUND = ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero')


def top(ob, it, p, e, P, R0):
    k = it.deep(e.args[0]) if e.args else None
    if not (isinstance(k, tuple) and k[:1] == ('cmp',) and RK in walk(k)):
        return
    want_n = ('int', ('call', 'numpy.ceil', ('mul',) + tuple(sorted([P2, ('nV', G)], key=repr))))
    thr = None
    op, a, b = k[1], k[2], k[3] if len(k) > 3 else None
    if op in ('<=', '<') and strip(b) == RK:
        thr = a
    elif op in ('>=', '>') and strip(a) == RK:
        thr, op = b, {'>=': '<=', '>': '<'}[op]
    elif op in ('<=', '<') and strip(a) == RK or op in ('>=', '>') and strip(b) == RK:
        ob.check(P, R0, False, e.loc, 'ranks that are small are chosen', p, 'ranks that are large')
        return
    ok = None
    if thr is not None and thr[:1] == ('item',) and strip(thr[1])[:2] == ('call', 'numpy.sort'):
        i = num(from_key(thr[2]))
        n = [a_ for a_ in i.t if a_ in (('len', thr[1]), ('len', RK), ('len', strip(thr[1])), ('nV', G))] if i else []
        if len(n) == 1 and i.t[n[0]] == 1:
            i = i - atom(n[0])          # counted from the other end
        ok = op == '<=' and strip(strip(thr[1])[2]) == RK and i is not None and i == atom(want_n).scale(-1)
        if not ok and i is None:
            ok = None
        if not ok and i is not None and i.c == 0 and len(i.t) == 1 and want_n not in i.t:
            w = list(i.t)[0]
            ok = False if w[:1] == ('int',) else None
    if ok:
        v = PV(it, p.st, None, None, p, 'top')
        ok = True if v.ent(const(1) - atom(want_n), '<=') else False
        if not ok:
            ob.check(P, R0, False, e.loc, 'all vertices are chosen when the number of top vertices is zero', p,
                     'sort(rank)[-0] is the smallest rank')
            return
    ob.check(P, R0, ok, e.loc, 'chosen are %s' % show(k)[:200], p, 'rank >= sort(rank)[-ceil(nV * pType2)]')


def pagerank_task(prog):
    P = 'C40'
    ob = Obligations()
    R = 'the types are set by the ranks of the same vertices'
    it, ps, where = mset(prog, 'generate_pagerank_graph', [Sym(('arg', 'n'))], {},
                         ('minimal_random_graph', 'set_types_rank'))
    ob.absorb(it, 'generate_pagerank_graph', ps)
    for p in ps:
        it.st = p.st
        if p.kind != 'return':
            continue
        made = [e for e in p.st.events if e.kind == 'made']
        if [e.name for e in made] != ['minimal_random_graph', 'set_types_rank'] or key(p.value) != G:
            ob.check(P, R, None, where, 'made by %s' % [e.name for e in made], p)
            continue
        r = made[1].kw.get('rank') if made[1].kw else None
        r = r if r is not None else (made[1].args[1] if len(made[1].args) > 1 else None)
        if r is None:
            ob.check(P, R, None, where, 'no rank', p)
            continue
        rk = unver(key(r))
        st = [(e, q, x) for e, q, o in looping(p.st.events) for x in q[1].events
              if x.kind == 'setitem' and unver(key(x.args[0])) == rk]
        for e, q, x in st:
            src = e.info['iter']
            d = src[2] if src[:2] in (('view', 'items'), ('view', 'keys')) else src
            kk = ('dkey', d, e.info['ix'])
            val = key(x.args[2])
            ok = None
            if 'pagerank' in repr(d):
                ok = key(x.args[1]) in (kk, ('elem', d, e.info['ix'])) and val == ('item', d, key(x.args[1]))
                if not ok and val[:1] != ('item',):
                    ok = None
                ok = ok and (bool(e.info.get('complete')) or None)
            ob.check(P, R, ok, x.loc, 'vertex %s gets %s' % (show(key(x.args[1])), show(val)), p, 'r[v] = rank of v')
        if not st and not any(e.kind == 'loop0' for e in p.st.events):
            ob.check(P, R, None, where, 'rank is %s' % show(it.deep(r)), p)
    return ob
