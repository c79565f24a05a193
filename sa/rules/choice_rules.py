"""The draw and the minimum that routing is built on: _choice and _argmin (C28).

Loops are decided by inductive invariants: what a local holds at the head of iteration k is
guessed from what one iteration does to it (a running sum of the probabilities, the value of
the last iteration, the running minimum and its index) and every guess is checked on entry
and on every continuing iteration before it is used.
"""
from .common import *  # noqa

MOD = 'queueing_tool.queues.choice'
PR, U, N, A = ('arg', 'pr'), ('arg', 'u'), ('arg', 'n'), ('arg', 'a')


def S(j):
    """Sum of the first j probabilities."""
    if not j.t:
        if j.c <= 0:
            return const(0)
    return atom(('S', key(j)))


def P_(j):
    return S(j + const(1)) - S(j)


def M(j):
    return atom(('M', key(j)))


def I(j):
    if j == const(1):
        return const(0)
    return atom(('I', key(j)))


class ChoiceCfg(Config):
    def __init__(self):
        Config.__init__(self)
        self.values = {}        # loop -> {location: (kind, ...)}: value at the head of iteration k
        self.rel = {}           # loop -> set of relations that hold at the head
        self.entry = {}
        self.broken = []        # what an iteration precisely does wrong

    def is_int(self, a):
        if a in (N,) or isinstance(a, tuple) and a and a[0] == 'I':
            return True
        return Config.is_int(self, a)

    def typeof(self, it, k):
        return None

    def seq(self, it, v):
        """(array, offset) of a slice from a fixed place to the end."""
        k = it.deep(v) if isinstance(v, Sym) else None
        off = const(0)
        while isinstance(k, tuple) and k[:1] == ('slice',) and len(k) == 5 and k[3] == key(NONE) and \
                k[4] in (key(NONE), key(const(1))):
            lo = num(from_key(k[2])) if k[2] != key(NONE) else const(0)
            if not isinstance(lo, Lin) or lo.t or lo.c < 0:
                return None
            off = off + lo
            k = k[1]
        return (k, off) if k in (PR, A) else None

    def length(self, it, v):
        s = self.seq(it, v)
        if s is not None:
            return atom(N) - s[1]
        return None

    def cell(self, it, v, i):
        s = self.seq(it, v)
        if s is None or not isinstance(i, (Lin, Sym)):
            return None
        i = it.num(i)
        if i is None:
            return None
        if not i.t and i.c < 0:
            i = atom(N) + i
            j = i
        else:
            j = i + s[1]
        it.event('cell', s[0][1], [j], None)
        if s[0] == PR:
            return P_(j)
        if j == const(0):
            return M(const(1))
        return atom(('a', key(j)))

    def elem(self, it, v, i):
        return self.cell(it, v, i)

    def norm_item(self, it, base, idx):
        if isinstance(base, Sym) and isinstance(idx, (Lin, Sym)):
            return self.cell(it, base, idx)
        return None

    def call(self, it, f, args, kw, node):
        if isinstance(f, Ext) and f.name == 'builtins.len' and len(args) == 1:
            n = self.length(it, args[0])
            if n is not None:
                return n
        if isinstance(f, Ext) and f.name in ('builtins.sum', 'numpy.sum') and len(args) == 1 and not kw:
            k = it.deep(args[0])
            if k == PR:
                return S(atom(N))
            if k[:1] == ('slice',) and k[1] == PR and k[2] in (key(NONE), key(const(0))) and k[4] == key(NONE):
                hi = it.num(from_key(k[3]))
                if hi is not None:
                    return S(hi)
        if isinstance(f, Ext) and f.name == 'builtins.min' and len(args) == 1 and not kw and it.deep(args[0]) == A:
            return M(atom(N))
        if isinstance(f, ExtMeth) and f.name == 'index' and isinstance(f.self_, Sym) and f.self_.key == A and \
                len(args) == 1 and args[0] == M(atom(N)):
            return I(atom(N))
        return NotImplemented

    # -- invariants
    def loop_entry(self, it, node, lid, ix, trip):
        e = {}
        for fid, loc in it.st.locals.items():
            for n, v in loc.items():
                if isinstance(v, (Lin, Sym)):
                    e[('local', fid, n)] = it.num(v)
        self.entry[lid] = e
        v = PV(it, it.st)
        for r in list(self.rel.get(lid, ())):
            if not v.ent(*self.relation(r, const(0), e)):
                self.rel[lid].discard(r)
        for loc, t in list(self.values.get(lid, {}).items()):
            if t[0] in ('min', 'arg'):
                x, y = e.get(loc), self.value(t, const(0), None)
                if x is not None and (v.ent(x - y, '==') or t[1] == 0 and t[0] == 'min' and x == M(const(1))
                                      or t[1] == 0 and t[0] == 'arg' and x == const(t[2])):
                    continue
                if x is not None and t[0] == 'min' and t[1] > 1 and x == M(const(1)):
                    self.broken.append('elements before index %d are never compared' % t[1])
                self.values[lid][loc] = ('no',)

    def value(self, t, k, e0):
        if t[0] == 'acc':
            return e0 + (S(k + const(t[2])) - S(const(t[2]))).scale(t[1])
        if t[0] == 'min':
            return M(k + const(t[1]))
        if t[0] == 'arg':
            return I(k + const(t[1])) + const(t[2])
        return None

    def relation(self, r, k, e):
        op, c, strict = r
        return (S(k + const(c)) - atom(U)).scale(op), '<' if strict else '<='

    def loop_head(self, it, lid, k, hav, final):
        e = self.entry.get(lid, {})
        k = it.num(k) if not isinstance(k, Lin) else k
        if k is None:
            return
        for loc, t in self.values.get(lid, {}).items():
            e0 = e.get(loc)
            if t[0] == 'no' or loc not in hav or loc[1] not in it.st.locals or \
                    e0 is None and t[0] not in ('last', 'min', 'arg'):
                continue
            if t[0] == 'last':
                if e0 is not None and it.decide_lin(k, '<=', None):
                    it.st.locals[loc[1]][loc[2]] = it.unwrap(e0)
                else:
                    it.st.locals[loc[1]][loc[2]] = it.unwrap(subval(t[1], {t[2]: key(k - const(1))}))
                continue
            it.st.locals[loc[1]][loc[2]] = it.unwrap(self.value(t, k, e0))
        for r in self.rel.get(lid, ()):
            it.assume(*self.relation(r, k, e))


def loops(p):
    def rec(events):
        for e in events:
            if e.kind == 'loop' and e.info and e.info.get('paths'):
                yield e
                for q in e.info['paths']:
                    yield from rec(q[1].events)
    yield from rec(p.st.events)


def lid_of(e):
    return e.info['ix'][1]


def sumstep(d, ix):
    """(sign, c) when d is plus or minus the probability with index k + c."""
    for s in (1, -1):
        x = d.scale(s)
        for c in range(-1, 4):
            if x == P_(atom(ix) + const(c)):
                return s, c
    return None


def step_cell(e, ix):
    """c when an iteration looks at the one element with index k + c."""
    cs = {key(x.args[0]) for q in e.info['paths'] for x in q[1].events if x.kind == 'cell'}
    if len(cs) != 1:
        return None
    d = num(from_key(next(iter(cs))))
    if d is None:
        return None
    d = d - atom(ix)
    return int(d.c) if not d.t and d.c.denominator == 1 and 0 <= d.c <= 3 else None


def lvs(x):
    return any(isinstance(a, tuple) and mention(a, 'lv') for a in x.t)


def mention(k, tag):
    return isinstance(k, tuple) and (k[:1] == (tag,) or any(mention(x, tag) for x in k))


def infer(cfg, it, paths, kinds):
    """Guess values of locals at the head of iterations; True if something new was found."""
    new = False
    for p in paths:
        for e in loops(p):
            lid, ix = lid_of(e), e.info['ix']
            good = [q for q in e.info['paths'] if q[0] is None or q[0][0] == 'continue']
            tab = cfg.values.setdefault(lid, {})
            if lid not in cfg.rel and 'sum' in kinds:
                cfg.rel[lid] = {(op, c, st) for op in (1, -1) for c in range(-1, 3) for st in (True, False)}
                new = True
            locs = {}
            for q in good:
                for fid, loc in q[2].locals.items():
                    for n, v0 in loc.items():
                        v = q[1].locals.get(fid, {}).get(n)
                        if not isinstance(v0, Sym) or v0.key[:1] != ('lv',) or not isinstance(v, (Lin, Sym)):
                            continue
                        locs.setdefault(('local', fid, n), []).append((it.num(v0), it.num(v)))
            for loc, vs in locs.items():
                if loc in tab or len(vs) != len(good) or any(b is None for _, b in vs):
                    continue
                ds = {key(b - a) for a, b in vs}
                if len(ds) == 1 and 'sum' in kinds:
                    st = sumstep(vs[0][1] - vs[0][0], ix)
                    if st is not None:
                        tab[loc] = ('acc',) + st
                        new = True
                        continue
                bs = {key(b) for _, b in vs}
                if len(bs) == 1 and not lvs(vs[0][1]):
                    tab[loc] = ('last', vs[0][1], ix)
                    new = True
                    continue
                if 'min' in kinds:
                    e0 = cfg.entry.get(lid, {}).get(loc)
                    if e0 is None:
                        continue
                    c = step_cell(e, ix)
                    if c is None:
                        continue
                    if e0 == M(const(1)):
                        tab[loc] = ('min', c)
                        new = True
                    elif not e0.t and e0.c.denominator == 1 and abs(e0.c) <= 1:
                        tab[loc] = ('arg', c, int(e0.c))
                        new = True
    return new


def inductive(cfg, it, paths):
    """Drop guesses that an iteration does not keep; True if some were dropped."""
    dropped = False
    for p in paths:
        for e in loops(p):
            lid, ix = lid_of(e), e.info['ix']
            k1 = atom(ix) + const(1)
            for q in e.info['paths']:
                if q[0] is not None and q[0][0] != 'continue':
                    continue
                it.st = q[1]
                v = PV(it, q[1], q[2], q[0], p, 'iter')
                for r in list(cfg.rel.get(lid, ())):
                    if not v.ent(*cfg.relation(r, k1, {})):
                        cfg.rel[lid].discard(r)
                        dropped = True
                for loc, t in list(cfg.values.get(lid, {}).items()):
                    if t[0] not in ('min', 'arg'):
                        continue
                    b = q[1].locals.get(loc[1], {}).get(loc[2])
                    b = it.num(b) if b is not None else None
                    k = atom(ix) + const(t[1])
                    d = const(t[2]) if t[0] == 'arg' else const(0)
                    if b is None or not step_min(cfg, v, k, b - d, t, loc[2]):
                        cfg.values[lid][loc] = ('no',)
                        dropped = True
    return dropped


def step_min(cfg, v, k, b, t, name):
    """b is the running minimum (or its index) over one element more than the first k."""
    a = atom(('a', key(k)))
    cases = []
    if t[1] == 0:
        cases.append(((k, '=='), (M(k) - a, '=='), (I(k), '==')))
        cases.append(((const(1) - k, '<='),))
    else:
        cases.append(())
    ok = True
    for c in cases:
        for less in (True, False):
            ex = c + (((a - M(k), '<') if less else (M(k) - a, '<=')),)
            if not v.feas(*ex):
                continue
            want = (a if t[0] == 'min' else k) if less else (M(k) if t[0] == 'min' else I(k))
            if v.ent(b - want, '==', ex):
                continue
            ok = False
            mine = {y[0] if isinstance(y, tuple) else y for l, _ in v.st.lin for y in l.t} | \
                {y[0] for y in b.t if isinstance(y, tuple)}
            at = {y for l, _ in v.st.lin for y in l.t if isinstance(y, tuple) and y[:1] == ('M',)}
            if mine <= {'a', 'M', 'I', 'ix', 'arg', 'S'} and at <= set(M(k).t) | set(M(const(1)).t) and not opaque(key(b)):
                cfg.broken.append('%s becomes %s where %s is right' % (name, show(key(b)), show(key(want))))
    return ok


def solve(prog, name, args, pre, kinds):
    cfg = ChoiceCfg()
    for rnd in range(12):
        it = Interp(prog, cfg)

        def run(it, ctx):
            f = it.module_attr(it.prog.module(MOD), name)
            if not isinstance(f, Fn):
                raise AnchorMissing(name)
            names = [a.arg for a in f.node.args.args]
            return it.call(f, [args(n, i) for i, n in enumerate(names)], {}, None)
        paths = it.explore(lambda it: pre(it) or {}, run)
        dropped = inductive(cfg, it, paths)
        if not infer(cfg, it, paths, kinds) and not dropped:
            return cfg, it, paths
    return cfg, it, paths


def opaque(k):
    return mention(k, 'lv') or any(mention(k, t) for t in ('call', 'mcall', 'item', 'elem', 'bin', 'slice', 'at', 'undef'))


def lossy(p, v):
    return any(opaque(a) for l, _ in p.st.lin for a in l.t) or any(opaque(k) for k in p.st.bools)


def where_of(it, name):
    f = it.module_attr(it.prog.module(MOD), name)
    return '%s:%s' % (f.mod.rel, f.node.lineno)


def choice_task(prog):
    P = 'C28'
    ob = Obligations()

    def pre(it):
        it.assume(const(2) - atom(N), '<=')
        it.assume(atom(U).scale(-1), '<=')
        it.assume(atom(U) - const(1), '<')
    order = (PR, U, N)
    cfg, it, paths = solve(prog, '_choice', lambda n, i: Sym(order[i]) if i < 3 else Sym(('arg', n)), pre, ('sum',))
    ob.absorb(it, '_choice', paths)
    where = where_of(it, '_choice')
    for p in paths:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        cells(ob, P, it, p, where)
        if p.kind != 'return':
            ob.check(P, 'a draw always gives an out edge', None if p.kind == 'undecided' or lossy(p, v) else False, where,
                     'the draw ends with %s' % (p.value,), p)
            continue
        r = it.num(p.value) if isinstance(p.value, (Lin, Sym, Const)) else None
        if r is None or opaque(key(r)):
            ob.check(P, 'a draw always gives an out edge', None, where, 'the draw gives %s' % (p.value,), p)
            continue
        lost = lossy(p, v)

        def tell(rule, ok, msg, sample):
            ob.check(P, rule, True if ok else None if lost else False, where, msg, p, sample)
        tell('the index is one of the n edges', v.ent(r.scale(-1), '<=') and v.ent(r - atom(N) + const(1), '<='),
             'the draw can give %s' % show(key(r)), '0 <= k < n')
        below = (S(r) - atom(U), '<=')
        # the first edge needs no lower bound
        ok = v.ent(*below) or v.ent(r, '<=') or v.ent(*below, extra=((const(1) - r, '<='),))
        tell('an edge is drawn only when u reaches the sum of the ones before it', ok,
             'edge %s can be drawn although u is below the sum of the probabilities before it' % show(key(r)),
             'S(k) <= u')
        above = (atom(U) - S(r + const(1)), '<=')
        last = (atom(N) - r - const(1), '<=')
        ok = v.ent(*above) or v.ent(*last) or v.ent(*above, extra=((r - atom(N) + const(2), '<='),))
        tell('an edge is drawn only when u does not exceed the sum up to it', ok,
             'edge %s can be drawn although u exceeds the sum of the probabilities up to it' % show(key(r)),
             'u <= S(k+1), or the last edge')
    return ob


def cells(ob, P, it, p, where):
    """No access outside the array: bounds are not checked at run time."""
    R = 'no element outside the array is read'
    for pv in segments(it, p):
        it.st = pv.st
        for e in pv.events:
            if e.kind != 'cell':
                continue
            j = e.args[0]
            ok = pv.ent(j.scale(-1), '<=') and pv.ent(j - atom(N) + const(1), '<=')
            ob.check(P, R, True if ok else None if opaque(key(j)) or mention(key(j), 'bound') or lossy(pv, pv) else False,
                     where if not e.loc or e.loc == '?' else e.loc, 'element %s is read' % show(key(j)), p,
                     '0 <= index < n')


def argmin_task(prog):
    P = 'C28'
    ob = Obligations()

    def pre(it):
        it.assume(const(1) - atom(N), '<=')
    cfg, it, paths = solve(prog, '_argmin', lambda n, i: Sym(A) if i == 0 else Sym(('arg', n)), pre, ('min',))
    ob.absorb(it, '_argmin', paths)
    where = where_of(it, '_argmin')
    for p in paths:
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        cells(ob, P, it, p, where)
        R = 'the index is that of the first smallest element'
        if p.kind != 'return':
            ob.check(P, R, None if p.kind == 'undecided' or lossy(p, v) else False, where,
                     'the minimum ends with %s' % (p.value,), p)
            continue
        r = it.num(p.value) if isinstance(p.value, (Lin, Sym, Const)) else None
        if r is None:
            ob.check(P, R, None, where, 'gives %s' % (p.value,), p)
            continue
        if v.ent(atom(N) - const(1), '<='):
            ok = v.ent(r, '==')
        else:
            ok = v.ent(r - I(atom(N)), '==') or last_step(v, r)
        if not ok:
            ok = (False if cfg.broken else None) if opaque(key(r)) or lossy(p, v) or whole(p) else False
        ob.check(P, R, ok, where, 'the index is %s%s' % (show(key(r)), ''.join('; ' + m for m in cfg.broken[:1])), p,
                 'index of the first minimum of all elements')
    return ob



def last_step(v, r):
    """The loop ended in an iteration of its own: the index over all elements, one step back."""
    for l, _ in v.st.lin:
        for y in l.t:
            j = num(from_key(y[1])) if isinstance(y, tuple) and y[:1] == ('a',) else None
            if j is None or not v.ent(j - atom(N) + const(1), '=='):
                continue
            a = atom(y)
            return all(not v.feas(ex) or v.ent(r - w, '==', (ex,))
                       for ex, w in (((a - M(j), '<'), j), ((M(j) - a, '<='), I(j))))
    return False


def whole(p):
    """The path compared elements with the minimum of them all: one of them is equal to it."""
    m = ('M', key(atom(N)))
    return any(any(has(k, m) for k in st.bools) or any(has(a, m) for l, _ in st.lin for a in l.t)
               for st in [p.st] + [q[1] for e in loops(p) for q in e.info['paths']])


def has(k, x):
    return k == x or isinstance(k, tuple) and any(has(y, x) for y in k)
