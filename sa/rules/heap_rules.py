"""The schedule of a network, PriorityQueue (C26, C27).

The heap is decided with an abstract domain for a binary heap in two parallel arrays:

  heap(s, n)      every cell j < n whose parent is at s or later is not below its parent
  hole(s, n, p)   the same, except for the edges at cell p, which is being filled with an
                  item x; plus, of the following, those that every iteration keeps:
                  up:   the parent of p is not above the children of p
                  low:  x is not above the children of p
                  high: the parent of p is not above x

A loop that moves one hole is recognised by what its iterations store (the pair of one other
cell into the hole, and the hole moves there), not by names.  Relations between the integers
of a loop are found by dropping candidates that are not inductive.  An edge of the tree is a
pair of fresh indices; they are compared with every index that was stored to, and the facts
about the heap are instantiated at the indices at hand.
"""
import time
from .common import *  # noqa

CLS = 'queueing_tool.network.priority_queue.PriorityQueue'
PQ = ('pq',)
VIEWS = {'sorted_times': 'T', 'sorted_edges': 'E', 'q_times': 'Q'}
ARRS = {'array_times': 'T', 'array_edges': 'E'}
SIZE, CAP, NQ = ('attr', PQ, 'size'), ('attr', PQ, 'actual_size'), ('nq',)
NT, NN = ('attr', PQ, 'next_time'), ('attr', PQ, 'next_node')
T_, K_ = ('arg', 't'), ('arg', 'k')
KEYS = ('arg', 'keys')
INV = ('up', 'low', 'high')


def mention(k, tags):
    return isinstance(k, tuple) and (len(k) > 0 and k[0] in tags or any(mention(x, tags) for x in k))


def below(st):
    """Pairs of cells of which the first is known to be the second or somewhere below it."""
    return [(num(from_key(b[1])), num(from_key(b[2]))) for b in st.bools if b[0] == 'below']


def tok(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, Sym):
        return atom(v.key)
    return None


class OutOfTime(Exception):
    pass


class HeapCfg(Config):
    def __init__(self):
        Config.__init__(self)
        self.rel = {}           # loop -> candidate relations between integers at its head
        self.entry = {}
        self.ints = set()
        self.contracts = ()
        self.deadline = None

    def typeof(self, it, k):
        return CLS if k == PQ else None

    def is_int(self, a):
        if isinstance(a, tuple) and a:
            if a[0] in ('sk', 'par') or a in (K_, NN, NQ):
                return True
            if a[0] == 'lv' and a[:3] in self.ints:
                return True
            if a[0] == 'b' and a[1] == 'E' or a[0] == 'cell' and a[1] == 'E':
                return True
        return Config.is_int(self, a)

    def init_attr(self, it, okey, name):
        if okey != PQ:
            return None
        if name in VIEWS:
            return Sym(('mv', VIEWS[name]))
        if name in ARRS:
            return Sym(('arr', ARRS[name]))
        return None

    def hurry(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()

    # -- arrays
    def array(self, it, base):
        """T, E or Q, and whether it is reached through a view."""
        k = base.key
        if k[0] in ('mv', 'arr'):
            return k[1]
        for name, x in list(VIEWS.items()) + list(ARRS.items()):
            v = it.st.attrs.get((PQ, name))
            if isinstance(v, Sym) and v.key == k:
                return x
        return None

    def version(self, it):
        n = sum(1 for e in it.st.events if e.kind in ('store', 'loop', 'popped'))
        return (it.cur_ix[-1] if it.cur_ix else None, len(it.cur_ix), n)

    def norm_item(self, it, base, idx):
        if not isinstance(base, Sym) or not isinstance(idx, (Lin, Sym)):
            return None
        x = self.array(it, base)
        i = it.num(idx)
        if x is None or i is None:
            return None
        v = Sym(('cell', x, key(i), self.version(it)))
        it.event('load', x, [base, i, v], getattr(it, 'at_node', None))
        return v

    def store(self, it, base, idx, v, node):
        if not isinstance(base, Sym) or not isinstance(idx, (Lin, Sym)):
            return False
        x = self.array(it, base)
        i = it.num(idx)
        if x is None or i is None:
            return False
        it.event('store', x, [base, i, v], node)
        return True

    def length(self, it, v):
        if isinstance(v, Sym) and self.array(it, v) in ('T', 'E'):
            return atom(CAP)
        return None

    def call(self, it, f, args, kw, node):
        self.hurry()
        if isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key == PQ and isinstance(f.fn, Fn) and \
                f.fn.node.name in self.contracts and not args:
            v = self.version(it)
            t, e = (Sym(('cell', x, key(const(0)), v)) for x in ('T', 'E'))
            n = it.num(it.getattr(Sym(PQ), 'size')) - const(1)
            it.event('popped', f.fn.node.name, [t, e, n], node)
            for name, x in (('size', n), ('next_time', t), ('next_node', e)):
                it.st.attrs[(PQ, name)] = x
            return NONE
        n = f.name if isinstance(f, Ext) else None
        if n in ('array.resize_smart', 'array.resize') and len(args) == 2 and isinstance(args[0], Sym):
            x = self.array(it, args[0])
            l = it.num(args[1]) if isinstance(args[1], (Lin, Sym)) else None
            if x is not None and l is not None:
                it.event('resize', x, [args[0], l], node)
                return NONE
        if n == 'array.array' and len(args) in (1, 2):
            c = it.st.counters.get('arrays', 0)
            it.st.counters['arrays'] = c + 1
            s = Sym(('newarr', c))
            src = args[1] if len(args) == 2 else it.mklist([])
            it.event('newarray', 'array', list(args), node, res=s, info={'of': it.deep(src), 'len': it.length(src)})
            return s
        return NotImplemented

    # -- relations between integers
    def points(self, it):
        out = {}
        fid = it.frames[-1].fid if it.frames else self.fid
        for n, v in it.st.locals.get(fid, {}).items():
            if isinstance(v, (Lin, Sym)):
                out[('local', fid, n)] = it.num(v)
        for n in ('size', 'actual_size'):
            v = it.st.attrs.get((PQ, n))
            if v is None:
                v = Sym(('attr', PQ, n))
            if isinstance(v, (Lin, Sym)):
                out[('attr', (PQ, n))] = it.num(v)
        out = {k: v for k, v in out.items() if v is not None and all(self.is_int(a) for a in v.t)}
        seen = set(key(v) for v in out.values())
        for f in reversed(it.frames[:-1]):
            for n, v in it.st.locals.get(f.fid, {}).items():
                v = it.num(v) if isinstance(v, (Lin, Sym)) else None
                if v is not None and v.t and all(self.is_int(a) for a in v.t) and key(v) not in seen:
                    seen.add(key(v))
                    out[('local', f.fid, n)] = v
        return out

    def points_at(self, st, lid):
        """The same, at the end of an iteration."""
        out = {}
        for r in self.rel.get(lid, ()):
            for loc in r[:2]:
                if loc is None or loc in out:
                    continue
                v = st.locals.get(loc[1], {}).get(loc[2]) if loc[0] == 'local' else \
                    st.attrs.get(loc[1], Sym(('attr',) + loc[1]))
                v = tok(v) if isinstance(v, (Lin, Sym)) else None
                if v is not None and all(self.is_int(a) for a in v.t):
                    out[loc] = v
        return out

    @staticmethod
    def here(it, lid):
        """A loop in a call: its locals are named after the frame, which depends on the calls made before."""
        return lid, it.frames[-1].fid if it.frames else None

    def loop_entry(self, it, node, lid, ix, trip):
        e = self.points(it)
        nxt = [it.st.attrs.get((PQ, n)) for n in ('next_time', 'next_node')]
        it.event('entry', 'entry', [], node, info={'lid': lid, 'at': e, 'next': nxt})
        lid = self.here(it, lid)
        if lid not in self.rel:
            names = list(e)
            r = set()
            for a in names:
                for c in (-1, 0, 1):
                    r.add((a, None, 1, c, '>='))
                for b in names:
                    if a != b:
                        r |= {(a, b, 1, c, op) for c in (-1, 0, 1) for op in ('<=', '>=')}
                        r |= {(a, b, 2, c, '==') for c in (1, 2)}
                        r.add((a, b, 1, 0, 'below'))
            self.rel[lid] = r
            self.entry[lid] = 0
        self.entry[lid] += 1
        v = PV(it, it.st)
        for r in list(self.rel[lid]):
            if not self.holds(r, e, v, it.st):
                self.rel[lid].discard(r)

    def holds(self, r, at, v, st):
        if r[4] != 'below':
            c = self.relation(r, at)
            return c is not None and v.ent(*c)
        if r[0] not in at or r[1] not in at:
            return False
        a, b = at[r[0]], at[r[1]]
        if a == b:
            return True
        for x, y in below(st):
            if y == b or v.ent(y - b, '=='):
                if x == a or all(v.ent(*c) for c in child(x, a)) or \
                        v.ent(y - x, '<') and all(v.ent(*c) for c in child(a, x)) or v.ent(x - a, '=='):
                    return True
        return v.ent(a - b, '==')

    @staticmethod
    def relation(r, at):
        a, b, m, c, op = r
        if a not in at or b is not None and b not in at:
            return None
        l = at[a] - (at[b].scale(m) if b is not None else const(0)) - const(c)
        return (l.scale(-1), '<=') if op == '>=' else (l, op)

    def loop_head(self, it, lid, k, hav, final):
        lid, at_ = self.here(it, lid), lid
        for loc, d in hav.items():
            if loc in self.known_ints(lid):
                self.ints.add(('lv', at_, loc[1:] if loc[0] != 'attr' else loc[1]))
        at = self.points_at(it.st, lid)
        best = {}
        for r in self.rel.get(lid, ()):
            if r[0] not in hav and (r[1] is None or r[1] not in hav):
                continue
            if r[4] == 'below':
                if r[0] in at and r[1] in at:
                    it.st.bools[('below', key(at[r[0]]), key(at[r[1]]))] = True
                    it.assume(at[r[1]] - at[r[0]], '<=')
                continue
            k = r[:3] + r[4:]
            if k not in best or (r[3] < best[k] if r[4] == '<=' else r[3] > best[k]):
                best[k] = r[3]
        for k, c in sorted(best.items(), key=repr):
            c = self.relation(k[:3] + (c,) + k[3:], at)
            if c is not None:
                it.assume(*c)

    def known_ints(self, lid):
        out = set()
        for a, b, m, c, op in self.rel.get(lid, ()):
            out.add(a)
            if b is not None:
                out.add(b)
        return out


def each_loop(events):
    for e in events:
        if e.kind == 'loop' and e.info and e.info.get('paths'):
            yield e
            for q in e.info['paths']:
                yield from each_loop(q[1].events)


def inductive(cfg, it, paths):
    dropped = False
    for p in paths:
        for e in each_loop(p.st.events):
            lid = e.info['ix'][1], e.info['fid']
            for q in e.info['paths']:
                if q[0] is not None and q[0][0] != 'continue':
                    continue
                it.st = q[1]
                v = PV(it, q[1])
                at = cfg.points_at(q[1], lid)
                for r in list(cfg.rel.get(lid, ())):
                    if not cfg.holds(r, at, v, q[1]):
                        cfg.rel[lid].discard(r)
                        dropped = True
    return dropped


def solve(prog, run, pre, contracts=(), limit=None):
    cfg = HeapCfg()
    cfg.contracts = contracts
    cfg.deadline = time.time() + limit if limit else None
    for rnd in range(15):
        it = Interp(prog, cfg)
        paths = it.explore(pre, run)
        if not inductive(cfg, it, paths):
            break
    else:
        for p in paths:
            p.kind, p.value = 'undecided', 'no inductive relations found'
    return cfg, it, paths


# ---------------------------------------------------------------- the heap domain

class Base:
    """What is known of the arrays at some moment: order, missing item, and how many entries."""
    count = [0]

    def __init__(self, s, n, hole=None, inv=(), x=None, order=True):
        self.s, self.n, self.hole, self.inv, self.x, self.order = s, n, hole, frozenset(inv), x, order
        Base.count[0] += 1
        self.tag = Base.count[0]

    def cell(self, x, i):
        if self.hole is not None and i == self.hole:
            return self.x[0 if x == 'T' else 1]
        return atom(('b', x, key(i), self.tag))


def subst(l, f):
    """Replace atoms by linear expressions."""
    out = const(l.c)
    for a, v in l.t.items():
        r = f(a)
        out = out + (r if r is not None else atom(a)).scale(v)
    return out


SI, SJ = atom(('sk', 'i')), atom(('sk', 'j'))


def child(i, j):
    return [(i.scale(2) + const(1) - j, '<='), (j - i.scale(2) - const(2), '<=')]


class Walk:
    """Goes through the events of a path (or iteration) and keeps the heap state."""

    def __init__(self, rule, st, base, up=None):
        self.r, self.st, self.base = rule, st, base
        self.it, self.ob = rule.it, rule.ob
        self.w = []             # stores since the base: (array, index, value)
        self.vers = dict(up.vers) if up else {}
        self.lens = dict(up.lens) if up else {'T': atom(CAP), 'E': atom(CAP)}
        self.stale = set(up.stale) if up else set()
        self.lost = up.lost if up else None
        self.size = None
        self.attrs = {}
        self.log = []           # removed and added pairs, in order
        self.qstores = []
        self.qloads = list(up.qloads) if up else []
        self.facts_ = None

    # -- terms
    def res(self, l):
        def f(a):
            if not (isinstance(a, tuple) and a and a[0] == 'cell'):
                return None
            got = self.vers.get((a[1], a[2], a[3]))
            return got
        for _ in range(6):
            n = subst(l, f)
            if n == l:
                return l
            l = n
        return l

    def facts(self):
        # loads are resolved as they are met; what is not yet met stays as it is
        f = [(self.res(l), op) for l, op in self.st.lin]
        k = (len(f), len(self.st.bools))
        if self.facts_ is None or self.facts_[0] != k:
            x = []
            for a, b in below(self.st):
                if self.it.dom.entails(f, (self.res(b - a), '<')):
                    x.append((b.scale(2) + const(1) - a, '<='))
            self.facts_ = (k, x)
        return f + [(self.res(l), op) for l, op in self.facts_[1]]

    def ent(self, l, op, extra=()):
        return self.it.dom.entails(self.facts() + list(extra), (self.res(l), op))

    def same(self, a, b):
        return a == b or self.ent(a - b, '==')

    def cmp(self, a, b):
        if a == b or self.ent(a - b, '=='):
            return '='
        if self.ent(a - b, '<') or self.ent(b - a, '<'):
            return '#'
        return None

    def get(self, x, i):
        """Value of a cell now, or None if it is not clear which store it comes from."""
        for y, j, v in reversed(self.w):
            if y != x:
                continue
            c = self.cmp(i, j)
            if c == '=':
                return v
            if c is None:
                return None
        if self.base.hole is not None:
            c = self.cmp(i, self.base.hole)
            if c is None:
                return None
            if c == '=':
                return self.base.cell(x, self.base.hole)
        return self.base.cell(x, i)

    def opaque(self, *ls):
        return self.lost is not None or any(mention(a, ('call', 'mcall', 'bin', 'item', 'div', 'un')) for l in ls
                                            if l is not None for a in l.t)

    # -- events
    def run(self, events, end=True):
        ents = {}
        for e in events:
            self.it.cfg.hurry()
            if e.kind == 'entry':
                ents[e.info['lid']] = e
            elif e.kind == 'load':
                self.load(e)
            elif e.kind == 'store':
                self.store(e)
            elif e.kind == 'resize':
                self.resize(e)
            elif e.kind == 'setattr' and isinstance(e.args[0], Sym) and e.args[0].key == PQ:
                self.attrs[e.name] = (e.args[1], e.loc)
                if e.name == 'size':
                    self.size = tok(e.args[1]) if isinstance(e.args[1], (Lin, Sym)) else None
            elif e.kind == 'popped':
                self.popped(e)
            elif e.kind == 'loop' and e.info and e.info.get('paths'):
                self.loop(e, ents.get(e.info['ix'][1]))

    def load(self, e):
        base, i, v = e.args
        i = self.res(i)
        self.access(e, base, i)
        if e.name == 'Q':
            self.qloads.append((i, tok(v), len(self.qstores)))
            return
        got = self.get(e.name, i)
        if got is not None:
            self.vers[(e.name,) + v.key[2:]] = got

    def store(self, e):
        base, i, v = e.args
        i = self.res(i)
        v = tok(v) if isinstance(v, (Lin, Sym)) else None
        self.access(e, base, i)
        if e.name == 'Q':
            self.qstores.append((i, self.res(v) if v is not None else None, e))
            return
        self.w.append((e.name, i, self.res(v) if v is not None else atom(('call', 'unknown', e.loc))))
        self.where = e.loc

    def resize(self, e):
        l = self.res(e.args[1])
        self.lens[e.name] = l
        self.stale.add(('mv', e.name))
        ok = self.ent(self.base.n - l, '<=')
        self.r.check('C27', 'no entry is cut off', ok, e.loc, 'the array of %d entries is resized to %s' % (
            0, show(key(l))) if False else 'the array is resized to %s' % show(key(l)), self, l)

    def access(self, e, base, i):
        r = self.r
        if base.key in self.stale:
            r.check('C27', 'no access through a stale view', False, e.loc or r.where,
                    'array %s was resized and is used through the old view' % e.name, self)
            return
        if e.name == 'Q':
            ok = self.qok(i)
            r.check('C27', 'every index is inside its array', ok, e.loc or r.where,
                    'q_times is accessed at %s' % show(key(i)), self, i, sample='q_times at a valid queue')
            return
        n = self.lens[e.name]
        ok = self.ent(i.scale(-1), '<=') and self.ent(i - n + const(1), '<=')
        r.check('C27', 'every index is inside its array', ok, e.loc or r.where,
                'cell %s of an array of %s' % (show(key(i)), show(key(n))), self, i, n, sample='0 <= index < length')

    def qok(self, i):
        """Is i an index of a queue?  The one given, or one stored in the heap."""
        a = i.single()
        if a == K_ or isinstance(a, tuple) and a[:1] == ('item',) and a[1][:2] == ('elem', KEYS) and \
                a[2] == key(const(1)):
            return True
        if isinstance(a, tuple) and a and a[0] == 'b' and a[1] == 'E':
            j = num(from_key(a[2]))
            n = self.r.sizes.get(a[3], self.base.n)
            return j is not None and self.ent(j.scale(-1), '<=') and self.ent(j - n + const(1), '<=')
        if isinstance(a, tuple) and a and a[0] == 'lv':
            return self.r.nodes.get(a[1])
        return False

    # -- what the stores of a stretch of code did
    def pairs(self):
        """Last pair stored at each index; None when the indices cannot be told apart."""
        out = []
        for x, i, v in self.w:
            for o in out:
                c = self.cmp(i, o[0])
                if c is None:
                    return None
                if c == '=':
                    o[1][x] = v
                    break
            else:
                out.append([i, {x: v}])
        return out

    def together(self):
        ps = self.pairs()
        if ps is None:
            return None
        for i, d in ps:
            ok = 'T' in d and 'E' in d
            self.r.check('C26', 'times and queues are stored together', ok, self.where,
                         'cell %s gets a %s of its own' % (show(key(i)), 'time' if 'T' in d else 'queue'), self, i,
                         sample='both arrays at the same index')
            if not ok:
                return None
        return [(i, d['T'], d['E']) for i, d in ps]

    def item(self, i):
        return (self.base.cell('T', i), self.base.cell('E', i))

    def equal(self, p, q):
        if p == q:
            return True
        a, b = [x.single() for x in p], [x.single() for x in q]
        if all(isinstance(x, tuple) and x[:1] == ('b',) for x in a + b) and a[0][3] == b[0][3] == a[1][3] == b[1][3]:
            ia, ib, ja, jb = [num(from_key(x[2])) for x in (a[0], b[0], a[1], b[1])]
            return a[0][1] == b[0][1] and a[1][1] == b[1][1] and self.same(ia, ib) and self.same(ja, jb)
        return self.same(p[0], q[0]) and self.same(p[1], q[1])

    def settle(self, n1):
        """Entries that the stores since the base removed and added, when n1 cells count now."""
        if self.lost:
            return None
        ps = self.together()
        n0 = self.base.n
        d = self.res(n1 - n0)
        if ps is None:
            return None
        if d.t:
            for k in range(-2, 3):
                if self.ent(d - const(k), '=='):
                    d = const(k)
                    break
            else:
                return None
        removed, added = [], []
        for i, t, e in ps:
            if self.ent(i - n0 + const(1), '<='):
                removed.append(self.item(i))
            elif not self.ent(n0 - i, '<='):
                return None
            if self.ent(i - n1 + const(1), '<='):
                added.append((t, e))
            elif not self.ent(n1 - i, '<='):
                return None
        for k in range(int(abs(d.c))):
            i = (n1 if d.c < 0 else n0) + const(k)
            hit = [p for p in ps if self.same(p[0], i)]
            if d.c < 0 and not hit:
                removed.append(self.item(i))
            elif d.c > 0 and not hit:
                self.r.check('C26', 'only given entries are in the heap', False, self.r.where,
                             'cell %s becomes an entry without being set' % show(key(i)), self, i)
                return None
        for p in list(removed):
            for q in list(added):
                if self.equal(p, q):
                    removed.remove(p)
                    added.remove(q)
                    break
        return removed, added

    def close(self, n1, s=None, where=None):
        """The stores since the base leave a heap of n1 cells; log what left and what came."""
        r = self.settle(n1)
        if r is None:
            self.lose('stores that are not understood')
            return
        s = const(0) if s is None else s
        bad = self.order(s, n1, None, (), None)
        ok = bad is None
        self.r.check('C26', 'the earliest time is at the root', ok, where or self.r.where,
                     'the heap is left out of order (%s)' % bad, self, n1, sample='every parent is not above its children')
        for p in r[0]:
            root = self.base.order and self.base.s == const(0) and self.base.hole is None and \
                self.equal(p, self.item(const(0)))
            self.log.append(('out', p, root))
        for p in r[1]:
            self.log.append(('in', p, None))
        self.base = Base(s, self.res(n1))
        self.r.sizes[self.base.tag] = self.base.n
        self.w = []

    def lose(self, why):
        if self.lost is None:
            self.lost = why
        self.w = []
        self.base = Base(const(0), self.base.n, order=False)
        self.r.sizes[self.base.tag] = self.base.n

    # -- order
    def order(self, s, n, hole, inv, x, only=None):
        """None if the order holds, else what fails (with hole: the invariants named, too)."""
        F = self.facts()
        T = [(i, v) for a, i, v in self.w if a == 'T']
        b = self.base
        pos = [(s - SI, '<='), (SI.scale(-1), '<=')]
        specials = [i for i, _ in T] + ([b.hole] if b.hole is not None else []) + ([hole] if hole is not None else [])
        if only is None:
            cons = child(SI, SJ) + pos + [(SJ - n + const(1), '<=')]
            if not self.prove(F, cons, (SI, SJ), specials, hole, lambda V: (V(SI), V(SJ)), T):
                return 'a cell and its parent'
        for k in inv if only is None else (only,):
            cons = []
            terms = ()
            if k in ('up', 'high'):
                cons += child(SI, hole) + pos
                terms += (SI,)
            if k in ('up', 'low'):
                cons += child(hole, SJ) + [(SJ - n + const(1), '<=')]
                terms += (SJ,)
            goal = {'up': lambda V: (V(SI), V(SJ)), 'low': lambda V: (x, V(SJ)), 'high': lambda V: (V(SI), x)}[k]
            if not self.prove(F, cons, terms, specials, hole, goal, T):
                return k
        return None

    def prove(self, F, cons, terms, specials, hole, goal, T):
        dom = self.it.dom
        b = self.base
        sp = []
        for i in specials:
            if i not in sp:
                sp.append(i)

        def rec(cs, todo):
            if dom.infeasible(F + cs):
                return True
            for k, (t, i) in enumerate(todo):
                l = t - i
                ways = [(l, '<'), (l, '=='), (l.scale(-1), '<')]
                if hole is not None and i == hole:
                    ways = [ways[0], ways[2]]
                live = [w for w in ways if not dom.infeasible(F + cs + [w])]
                if not live:
                    return True
                if len(live) == 1:
                    cs = cs + live
                    continue
                return all(rec(cs + [w], todo[k + 1:]) for w in live)
            return leaf(cs, 0)

        def leaf(cs, depth):
            C = F + cs

            def eq(a, c):
                return a == c or dom.entails(C, (a - c, '=='))

            def V(t):
                for i, v in reversed(T):
                    if eq(t, i):
                        return v
                if b.hole is not None and eq(t, b.hole):
                    return b.x[0]
                return atom(('b', 'T', key(t), b.tag))
            lo, hi = goal(V)
            g = self.res(lo) - self.res(hi)
            idx = list(terms) + sp
            for l, _ in C + [(g, '<=')]:
                for a in l.t:
                    if isinstance(a, tuple) and a[:2] == ('b', 'T') and a[3] == b.tag:
                        i = num(from_key(a[2]))
                        if i not in idx:
                            idx.append(i)
            inst = []
            cell = {}
            for i in idx:
                cell[key(i)] = atom(('b', 'T', key(i), b.tag))

            def isin(c):
                return dom.entails(C, c)
            for m, i in enumerate(idx):
                for j in idx[m + 1:]:
                    if eq(i, j):
                        inst.append((cell[key(i)] - cell[key(j)], '=='))
            if b.order:
                par = [(i, j) for i in idx for j in idx if i is not j and all(isin(c) for c in child(i, j))
                       and isin((b.s - i, '<=')) and isin((i.scale(-1), '<=')) and isin((j - b.n + const(1), '<='))]
                for i, j in par:
                    if b.hole is None or not eq(i, b.hole) and not eq(j, b.hole) and all(
                            isin((k - b.hole, '<')) or isin((b.hole - k, '<')) for k in (i, j)):
                        inst.append((cell[key(i)] - cell[key(j)], '<='))
                    elif b.hole is not None:
                        if eq(j, b.hole) and 'high' in b.inv:
                            inst.append((cell[key(i)] - b.x[0], '<='))
                        if eq(i, b.hole) and 'low' in b.inv:
                            inst.append((b.x[0] - cell[key(j)], '<='))
                if b.hole is not None and 'up' in b.inv:
                    for i, p in par:
                        for q, j in par:
                            if eq(p, b.hole) and eq(q, b.hole):
                                inst.append((cell[key(i)] - cell[key(j)], '<='))
            if dom.entails(C + inst, (g, '<=')):
                return True
            if depth < 2:
                # which of the two children is it?
                for t in terms:
                    for i in idx:
                        if i in terms or i in sp:
                            continue
                        ways = [(t - i, '<'), (t - i, '=='), (i - t, '<')]
                        live = [w for w in ways if not dom.infeasible(C + [w])]
                        if len(live) == 2 and live[0][1] != live[1][1]:
                            return all(leaf(cs + [w], depth + 1) for w in live)
            return False
        return rec(list(cons), [(t, i) for t in terms for i in sp])

    # -- loops
    def loop(self, e, ent):
        info = e.info
        good = [q for q in info['paths'] if q[0] is None or q[0][0] == 'continue']
        allev = [x for q in info['paths'] for x in q[1].events]
        nested = any(x.kind == 'loop' and x.info.get('paths') for x in allev) or any(x.kind == 'popped' for x in allev)
        stores = any(x.kind in ('store', 'popped') and x.name != 'Q' for x in allev) or nested
        if not stores:
            self.neutral(e, info, ent)
            return
        if self.lost:
            return
        if nested:
            self.outer(e, info, good, ent)
        else:
            self.holeloop(e, info, good, ent)

    def neutral(self, e, info, ent):
        for q in info['paths']:
            w = Walk(self.r, q[1], self.base, self)
            w.w = list(self.w)
            w.run(q[1].events)
            self.qstores += [(i, v, x) for i, v, x in w.qstores]

    def head(self, l, lid, what, st=None, ent=None):
        """An expression over the values at the head of an iteration, moved to the entry, to
        the next iteration or to the end of the loop."""
        def f(a):
            if isinstance(a, tuple) and a[:1] == ('lv',) and a[1] == lid and len(a) == 3:
                if what == 'end':
                    return atom(a + ('end',))
                loc = ('local',) + a[2] if isinstance(a[2][0], int) else ('attr', a[2])
                if what == 'entry':
                    return ent.info['at'].get(loc) if ent else None
                v = st.locals.get(loc[1], {}).get(loc[2]) if loc[0] == 'local' else st.attrs.get(loc[1])
                return tok(v) if isinstance(v, (Lin, Sym)) else None
            if a == ('ix', lid):
                return {'entry': const(0), 'next': atom(a) + const(1), 'end': None}[what]
            return None
        return self.res(subst(l, f))

    def holeloop(self, e, info, good, ent):
        lid = info['ix'][1]
        base0 = self.base
        iters = []
        p = None
        for q in good:
            w = Walk(self.r, q[1], Base(const(0), self.base.n, order=False), self)
            self.r.sizes[w.base.tag] = self.base.n
            w.run(q[1].events)
            if not w.w:
                self.lose('an iteration that stores nothing')
                return
            i = w.w[0][1]
            if p is None:
                p = i
            elif not w.same(p, i):
                self.lose('iterations that fill different cells')
                return
            iters.append(q)
        if p is None or ent is None:
            self.lose('a loop that ends in its first iteration')
            return
        p0, pend = self.head(p, lid, 'entry', ent=ent), self.head(p, lid, 'end')
        if mention(key(p0), ('lv',)) and p0 == p:
            self.lose('a loop whose cell is not known on entry')
            return
        x = (self.get('T', p0), self.get('E', p0))
        if None in x:
            self.lose('an unknown cell')
            return
        # how far does the order reach, and how many cells count?
        sizes = []
        for n in [self.size] + self.r.finals(self) + [base0.n]:
            n = self.res(n) if n is not None else None
            if n is not None and n not in sizes:
                sizes.append(n)
        ss = [base0.s] if not base0.order or base0.s == const(0) or base0.hole is not None else [base0.s - const(1), base0.s]
        for n in sizes:
            r = self.settle(n)
            if r is None:
                continue
            if not (self.ent(p0.scale(-1), '<=') and self.ent(p0 - n + const(1), '<=')):
                continue
            for s in ss:
                if self.order(s, n, p0, (), x[0]) is None:
                    break
            else:
                continue
            break
        else:
            n, s = sizes[0], ss[-1]
            r = self.settle(n)
            if r is None or self.lost:
                self.lose('stores that are not understood')
                return
            self.r.check('C26', 'the earliest time is at the root', False, e.loc,
                         'the loop starts with a heap that is out of order elsewhere', self, n)
            self.lose('disorder')
            return
        for a in r[0]:
            root = base0.order and base0.s == const(0) and base0.hole is None and self.equal(a, self.item(const(0)))
            self.log.append(('out', a, root))
        for a in r[1]:
            self.log.append(('in', a, None))
        inv = [k for k in INV if self.order(s, n, p0, (), x[0], only=k) is None]
        while True:
            drop = None
            for q in iters:
                b = Base(s, n, p, inv, x)
                w = Walk(self.r, q[1], b, self)
                self.r.sizes[b.tag] = n
                quiet, self.r.quiet = self.r.quiet, True
                w.run(q[1].events)
                self.r.quiet = quiet
                p1 = w.head(p, lid, 'next', st=q[1])
                drop = self.iteration(e, w, q, p, p1, s, n, inv, x)
                if drop:
                    break
            if drop == 'lost':
                self.lose('an iteration that does not move a hole')
                return
            if drop == 'bad':
                self.lose('disorder')
                return
            if drop:
                inv.remove(drop)
                continue
            break
        self.r.check('C26', 'each step of a sift keeps all other cells in order', True, e.loc, '', self,
                     sample='hole moves from %s; kept: %s' % (show(key(p)), ', '.join(inv)))
        self.base = Base(s, n, pend, inv, x)
        self.r.sizes[self.base.tag] = n
        self.w = []

    def iteration(self, e, w, q, p, p1, s, n, inv, x):
        """One iteration of a loop that moves a hole from p to p1; what it breaks."""
        R = 'each step of a sift keeps all other cells in order'
        quiet, self.r.quiet = self.r.quiet, False
        try:
            ps = w.together()
        finally:
            self.r.quiet = quiet
        if ps is None:
            return 'lost' if w.pairs() is None else 'bad'
        fill = [a for a in ps if w.same(a[0], p)]
        rest = [a for a in ps if not w.same(a[0], p)]
        if len(fill) != 1 or len(rest) > 1:
            return 'lost'
        a = [y.single() for y in fill[0][1:]]
        if not all(isinstance(y, tuple) and y[:1] == ('b',) and y[3] == w.base.tag for y in a):
            return 'lost'
        if a[0][1] != 'T' or a[1][1] != 'E':
            return 'lost'
        c, c2 = num(from_key(a[0][2])), num(from_key(a[1][2]))
        where = e.loc
        if not w.same(c, c2):
            self.r.check('C26', 'times and queues are stored together', False, where,
                         'the time comes from cell %s and the queue from cell %s' % (show(key(c)), show(key(c2))), w, c)
            return 'bad'
        if rest and not (w.same(rest[0][0], c) and w.equal(rest[0][1:], x)):
            return 'lost'
        ok = w.same(p1, c)
        self.r.check('C26', 'no entry is lost or doubled', ok, where,
                     'cell %s moves to the hole %s, and the next hole is %s' % (show(key(c)), show(key(p)),
                                                                               show(key(p1))), w, c, p1,
                     sample='the hole moves to the cell that was copied')
        if not ok:
            return 'bad'
        ok = w.ent(c.scale(-1), '<=') and w.ent(c - n + const(1), '<=')
        self.r.check('C26', 'only given entries are in the heap', ok, where,
                     'cell %s is moved although only %s cells count' % (show(key(c)), show(key(n))), w, c,
                     sample='0 <= source < size')
        if not ok:
            return 'bad'
        bad = w.order(s, n, p1, (), x[0])
        if bad is not None:
            self.r.check('C26', R, False, where, 'moving cell %s to %s leaves %s out of order' % (
                show(key(c)), show(key(p)), bad), w, c)
            return 'bad'
        for k in inv:
            if w.order(s, n, p1, (), x[0], only=k) is not None:
                return k
        return None

    def outer(self, e, info, good, ent):
        lid = info['ix'][1]
        ixa = ('ix', lid)
        s_head = None
        if info.get('trip') is not None or info.get('exit_ix') is not None:
            # a loop that makes a heap of everything from some cell on
            for q in good:
                for x in q[1].events:
                    if x.kind == 'entry':
                        for loc, v in x.info['at'].items():
                            if loc[0] == 'local' and ixa in v.t and v.t[ixa] == -1:
                                s_head = v
                                break
                if s_head is None:
                    for x in q[1].events:
                        if x.kind == 'load' and ixa in x.args[1].t and x.args[1].t[ixa] == -1 and x.name == 'T':
                            s_head = x.args[1]
                            break
        if s_head is not None:
            return self.build(e, info, good, s_head + const(1), lid)
        size0 = self.size if self.size is not None else self.base.n
        self.close(size0, where=e.loc)
        if self.lost:
            return
        self.r.enter_outer(self, ent, lid)
        for q in info['paths']:
            st0 = q[2]
            n = tok(st0.attrs.get((PQ, 'size'), Sym(SIZE)))
            b = Base(const(0), n)
            self.r.sizes[b.tag] = n
            w = Walk(self.r, q[1], b, self)
            w.size = n
            w.run(q[1].events)
            if q in good or q[0] is None or q[0][0] == 'continue':
                w.close(w.size if w.size is not None else n, where=e.loc)
                self.r.iterated(self, w, q, lid, e)
                if w.lost:
                    self.lost = self.lost or w.lost
        self.r.left_outer(self, lid, e)

    def build(self, e, info, good, s_head, lid):
        n = self.base.n
        ixa = ('ix', lid)
        R = 'the earliest time is at the root'
        s0 = subst(s_head, lambda a: const(0) if a == ixa else None)
        if self.order(s0, n, None, (), None) is not None:
            self.r.check('C26', R, False, e.loc, 'building the heap starts at cell %s, after cells with children' %
                         show(key(s0 - const(1))), self, s0)
            self.lose('disorder')
            return
        for q in good:
            b = Base(s_head, n)
            self.r.sizes[b.tag] = n
            w = Walk(self.r, q[1], b, self)
            w.size = self.size
            w.run(q[1].events)
            w.close(n, s=s_head - const(1), where=e.loc)
            if w.lost:
                self.lose(w.lost)
                return
            if w.log:
                self.r.check('C26', 'no entry is lost or doubled', False, e.loc, 'building the heap loses entries',
                             w, n)
        s_end = subst(s_head, lambda a: None if a != ixa else (
            info['trip'] if info.get('trip') is not None else atom(info['exit_ix'])))
        self.r.check('C26', R, True, e.loc, '', self, sample='heap from cell %s on' % show(key(s_head)))
        self.base = Base(self.res(s_end), n)
        self.r.sizes[self.base.tag] = n
        self.w = []

    def popped(self, e):
        self.close(self.size if self.size is not None else self.base.n, where=e.loc)
        n = tok(e.args[2])
        if self.lost:
            return
        self.log.append(('out', (atom(('b', 'T', key(const(0)), self.base.tag)),
                                 atom(('b', 'E', key(const(0)), self.base.tag))), True))
        for x, v in (('T', e.args[0]), ('E', e.args[1])):
            self.vers[(x,) + v.key[2:]] = atom(('b', x, key(const(0)), self.base.tag))
        ok = self.ent(const(1) - self.base.n, '<=')
        self.r.check('C27', 'nothing is taken from an empty heap', ok, e.loc, 'an entry is taken although there may be '
                     'none', self, self.base.n, sample='size >= 1')
        self.base = Base(const(0), self.res(n))
        self.r.sizes[self.base.tag] = self.base.n
        self.size = n


# ---------------------------------------------------------------- what the methods have to do

class Rule:
    def __init__(self, prog, props, where):
        self.ob, self.props, self.where = Obligations(), props, where
        self.quiet = False
        self.sizes = {}
        self.nodes = {}
        self.path = None
        self.pend = None

    def check(self, prop, rule, ok, where, msg, w=None, *terms, **kw):
        if self.quiet or prop not in self.props:
            return ok
        if ok is False and w is not None and w.opaque(*terms):
            ok = None
        return self.ob.check(prop, rule, ok, where, msg, self.path, kw.get('sample'))

    def finals(self, w):
        return [tok(e.args[1]) for e in w.st.events if e.kind == 'setattr' and e.name == 'size'
                and isinstance(e.args[1], (Lin, Sym))]

    def enter_outer(self, w, ent, lid):
        pass

    def iterated(self, up, w, q, lid, e):
        if w.log:
            self.check('C26', 'no entry is lost or doubled', None, e.loc, 'entries change in a loop', w)

    def left_outer(self, w, lid, e):
        w.base = Base(const(0), w.head(tok(w.st.attrs.get((PQ, 'size'), Sym(SIZE))), lid, 'end'))
        self.sizes[w.base.tag] = w.base.n

    def stale(self, w, pair):
        """The path knows that this is not the current time of its queue."""
        t, k = pair
        for i, v, n in w.qloads:
            if i == k or w.same(i, k):
                if not w.it.dom.feasible_with(w.facts(), (t - v, '==')):
                    return True
                for b, val in w.st.bools.items():
                    if b[0] == '==' and val is False and len(b) == 3:
                        x, y = num(from_key(b[1])), num(from_key(b[2]))
                        if x is not None and y is not None and {key(w.res(x)), key(w.res(y))} == {key(t), key(v)}:
                            return True
        return False

    def current(self, w, pair):
        t, k = pair
        return any((i == k or w.same(i, k)) and n == 0 and w.same(t, v) for i, v, n in w.qloads)


class PopRule(Rule):
    """pop: every entry that is taken and not returned is not current; the one returned is."""

    def attr(self, st, name):
        v = st.attrs.get((PQ, name), Sym(('attr', PQ, name)))
        return tok(v) if isinstance(v, (Lin, Sym)) else None

    def take(self, w):
        """Pairs taken since the last look."""
        for kind, pair, root in w.log:
            if kind == 'in':
                self.check('C26', 'no entry is lost or doubled', False, self.where, 'a pop adds an entry', w, *pair)
                continue
            self.check('C26', 'the earliest entry is taken', bool(root), self.where,
                       'the entry taken has time %s, which is not the root' % show(key(pair[0])), w, *pair,
                       sample='the root of the heap')
            self.drop(w)
            self.pend = pair
        w.log = []

    def drop(self, w):
        if self.pend is None:
            return
        ok = self.pend != 'lost' and self.stale(w, self.pend)
        if self.pend == 'lost':
            ok = None
        self.check('C26', 'only entries that are not current are passed over', ok, self.where,
                   'an entry is passed over although it may be the current one of its queue', w,
                   *(self.pend if self.pend != 'lost' else ()), sample='its time differs from q_times of its queue')

    def enter_outer(self, w, ent, lid):
        self.take(w)
        at = ent.info['next'] if ent else (None, None)
        at = tuple(w.res(tok(a)) if isinstance(a, (Lin, Sym)) else None for a in at)
        ok = self.pend is not None and self.pend != 'lost' and None not in at and w.equal(self.pend, at)
        self.nodes[lid] = True if ok else None
        self.head = ok
        if not ok:
            self.pend = 'lost'

    def iterated(self, up, w, q, lid, e):
        pend = self.pend
        if self.head:
            self.pend = (self.attr(q[2], 'next_time'), self.attr(q[2], 'next_node'))
        self.take(w)
        end = (w.res(self.attr(q[1], 'next_time')), w.res(self.attr(q[1], 'next_node')))
        ok = self.pend not in (None, 'lost') and w.equal(self.pend, end)
        if not ok:
            if self.nodes[lid]:
                self.check('C27', 'every index is inside its array', None, e.loc, 'next_node is not understood', w)
            self.nodes[lid] = None
            self.head = False
        self.pend = pend

    def left_outer(self, w, lid, e):
        if self.head:
            f = e.info['paths'][0][2]
            p = (self.attr(f, 'next_time'), self.attr(f, 'next_node'))
            self.pend = tuple(w.head(x, lid, 'end') for x in p)
        else:
            self.pend = 'lost'
        n = self.attr(e.info['paths'][0][2], 'size')
        k = e.info.get('exit_ix')

        def f(a):
            if a == ('ix', lid):
                return atom(k) if k else e.info['trip']
            return None
        n = w.head(subst(n, f), lid, 'end')
        w.base = Base(const(0), n)
        self.sizes[w.base.tag] = n
        w.size = n
        w.w = []


def explore(prog, name, args, kw=None, size1=False, contracts=(), limit=None):
    def pre(it):
        it.assume(atom(SIZE).scale(-1), '<=')
        it.assume(atom(SIZE) - atom(CAP), '<=')
        it.assume(atom(K_).scale(-1), '<=')
        it.assume(atom(K_) - atom(NQ) + const(1), '<=')
        if size1:
            it.assume(const(1) - atom(SIZE), '<=')
        it.contracts = contracts
        return {}

    def run(it, ctx):
        m = it.class_attr(it.get_class(CLS), name)
        if m is None:
            raise AnchorMissing('PriorityQueue.' + name)
        return it.call(Bound(Sym(PQ), m[0]), list(args), kw or {}, None)
    return solve(prog, run, pre, contracts, limit)


def where_of(it, name):
    f = it.class_attr(it.get_class(CLS), name)[0]
    return '%s:%s' % (f.mod.rel, f.node.lineno)


def finish(r, w, cap=True):
    """The class keeps: size and capacity match the arrays, and the views are views of them."""
    n = w.size if w.size is not None else w.base.n
    w.close(n)
    if r.quiet:
        return
    c = w.attrs.get('actual_size')
    c = tok(c[0]) if c else atom(CAP)
    R = 'the counters match the arrays'
    ok = c is not None and w.same(c, w.lens['T']) and w.same(c, w.lens['E'])
    r.check('C27', R, ok, r.where, 'the capacity is %s for arrays of %s and %s' % (
        show(key(c)) if c is not None else '?', show(key(w.lens['T'])), show(key(w.lens['E']))), w, c,
        sample='actual_size = length of both arrays')
    ok = w.ent(n.scale(-1), '<=') and w.ent(n - c, '<=')
    r.check('C27', R, ok, r.where, 'the number of entries becomes %s of %s' % (show(key(n)), show(key(c))), w, n, c,
            sample='0 <= size <= capacity')
    for view, arr, x in (('sorted_times', 'array_times', 'T'), ('sorted_edges', 'array_edges', 'E')):
        v = w.attrs.get(view)
        if ('mv', x) in w.stale or v is not None:
            ok = v is not None and isinstance(v[0], Sym) and (
                v[0].key == ('arr', x) or arr in w.attrs and key(v[0]) == key(w.attrs[arr][0]))
            r.check('C27', 'views are renewed with their arrays', ok, v[1] if v else r.where,
                    '%s is not a view of %s' % (view, arr), w, sample='the view is taken after the array was resized')


def method_task(prog, name, args, props, judge, cls=Rule, size1=False, contracts=(), limit=None):
    cfg, it, paths = explore(prog, name, args, size1=size1, contracts=contracts, limit=limit)
    where = where_of(it, name)
    r = cls(prog, props, where)
    r.it = it
    r.ob.absorb(it, 'PriorityQueue.' + name, paths)
    for p in paths:
        it.st = p.st
        r.path = p
        r.pend = None
        if p.kind != 'return':
            r.check('C26', 'the call completes', None if p.kind == 'undecided' else False, where,
                    '%s ends with %s' % (name, p.value))
            continue
        w = Walk(r, p.st, Base(const(0), atom(SIZE)))
        w.size = atom(SIZE)
        r.sizes[w.base.tag] = w.base.n
        w.where = where
        w.run(p.st.events)
        finish(r, w)
        if w.lost:
            r.check('C26', 'every path is understood', None if w.lost != 'disorder' else True, where, w.lost)
        judge(r, w, p)
    return r.ob


def judge_push(r, w, p):
    R = 'a push adds exactly the given entry'
    if not w.lost:
        ins = [x for x in w.log if x[0] == 'in']
        outs = [x for x in w.log if x[0] == 'out']
        ok = len(ins) == 1 and not outs and w.same(ins[0][1][0], atom(T_)) and w.same(ins[0][1][1], atom(K_))
        r.check('C26', R, ok, r.where, 'a push adds %s and removes %s' % (
            [show(tuple(key(y) for y in x[1])) for x in ins], [show(tuple(key(y) for y in x[1])) for x in outs]), w,
            *[y for x in w.log for y in x[1]], sample='(t, k) and nothing else')
    R = 'the pushed time becomes the current one of its queue'
    q = [(i, v) for i, v, e in w.qstores]
    ok = bool(q) and all(w.same(i, atom(K_)) for i, v in q) and q[-1][1] is not None and w.same(q[-1][1], atom(T_))
    r.check('C26', R, ok, w.qstores[-1][2].loc if w.qstores else r.where, 'q_times becomes %s' % (
        ', '.join('[%s] = %s' % (show(key(i)), show(key(v))) for i, v in q if v is not None) or 'unchanged'), w,
        sample='q_times[k] = t')


def judge_root(r, w, p):
    R = 'the earliest entry is taken'
    if w.lost:
        return
    ok = len(w.log) == 1 and w.log[0][0] == 'out' and bool(w.log[0][2])
    r.check('C26', R, ok, r.where, 'taking an entry removes %s' % (
        [show(tuple(key(y) for y in x[1])) for x in w.log if x[0] == 'out'],), w, *[y for x in w.log for y in x[1]],
        sample='the root of the heap, and nothing else')
    if not ok:
        return
    pair = w.log[0][1]
    at = tuple(tok(p.st.attrs[(PQ, n)]) if isinstance(p.st.attrs.get((PQ, n)), (Lin, Sym)) else None
               for n in ('next_time', 'next_node'))
    ok = None not in at and w.equal(pair, tuple(w.res(a) for a in at))
    r.check('C26', 'the entry taken is the next one', ok, r.where, 'next_time and next_node become %s' % (
        [show(key(a)) for a in at if a is not None],), w, sample='time and queue of the entry taken')
    r.check('C26', 'the number of entries is kept', w.same(w.base.n, atom(SIZE) - const(1)), r.where,
            'size becomes %s' % show(key(w.base.n)), w, sample='one less')
    r.check('C26', 'a taken entry does not change current times', not w.qstores, r.where, 'q_times changes', w)


def judge_pop(r, w, p):
    r.take(w)
    v = p.value
    lost = w.lost or r.pend == 'lost'
    if v == NONE or isinstance(v, Const) and v.v is None:
        r.drop(w)
        n = w.base.n
        r.check('C26', 'nothing is returned only when nothing is left', None if lost else w.ent(n, '<='), r.where,
                'None is returned although there may be entries', w, n, sample='size is 0')
        r.check('C26', 'a current time is reset exactly when it is returned', not w.qstores, r.where,
                'q_times changes although nothing is returned', w)
        return
    if not isinstance(v, Tup) or len(v.items) != 2 or not all(isinstance(x, (Lin, Sym)) for x in v.items):
        r.check('C26', 'the entry taken is returned', None, r.where, 'returns %s' % show(key(v)), w)
        return
    pair = tuple(w.res(tok(x)) for x in v.items)
    ok = None if lost else r.pend is not None and w.equal(r.pend, pair)
    r.check('C26', 'the entry taken is returned', ok, r.where, 'returns %s' % show(key(v)), w, sample='(time, queue)')
    if ok:
        r.check('C26', 'the entry returned is the current one of its queue', r.current(w, r.pend), r.where,
                'an entry is returned without its time being that of its queue', w, *pair,
                sample='time == q_times[queue]')
    q = w.qstores
    ok = len(q) >= 1 and all(w.same(i, pair[1]) for i, x, e in q) and q[-1][1] is not None and \
        q[-1][1].single() == INF_ATOM
    r.check('C26', 'a current time is reset exactly when it is returned', ok, q[-1][2].loc if q else r.where,
            'q_times becomes %s' % (', '.join('[%s] = %s' % (show(key(i)), show(key(x))) for i, x, e in q
                                              if x is not None) or 'unchanged'), w, sample='q_times[queue] = inf')


def push_task(prog, props):
    return method_task(prog, 'push', (Sym(T_), Sym(K_)), props, judge_push)


def helpers(prog):
    """Methods without arguments that pop calls, directly or not: name -> calls others of them?"""
    it = Interp(prog, HeapCfg())
    out = {}

    def run(it, ctx):
        todo = ['pop']
        while todo:
            name = todo.pop(0)
            m = it.class_attr(it.get_class(CLS), name)
            if m is None or not isinstance(m[0], Fn):
                if name == 'pop':
                    raise AnchorMissing('PriorityQueue.pop')
                continue
            out[name] = False
            for n in ast.walk(m[0].node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and not n.args and \
                        not n.keywords:
                    out[name] = True
                    if n.func.attr not in out and n.func.attr not in todo:
                        todo.append(n.func.attr)
        return NONE
    it.explore(lambda it: {}, run)
    return [n for n, calls in out.items() if not calls and n != 'pop']


def pop_task(prog, props):
    """Methods that take one entry are decided on their own and then used as contracts."""
    ob = Obligations()
    ok = []
    for name in helpers(prog):
        seen = []

        def judge(r, w, p):
            seen.append('next_time' in w.attrs and 'next_node' in w.attrs)
            judge_root(r, w, p)
        both = method_task(prog, name, (), ('C26', 'C27'), judge, size1=True)
        if (both.fails or both.open) and not (seen and all(seen)):
            continue            # not one that takes an entry, or not understood: part of its caller
        if both.open and not both.fails:
            continue
        # what is wrong with it is reported where it is wrong; its caller may rely on it
        both.fails = [f for f in both.fails if f['property'] in props]
        both.open = [f for f in both.open if f['property'] in props]
        for k in list(both.ok):
            if k[0] not in props:
                del both.ok[k]
        ok.append(name)
        ob.merge(both)
    if ob.fails:
        return ob
    try:
        ob.merge(method_task(prog, 'pop', (), props, judge_pop, cls=PopRule, contracts=tuple(ok), limit=240))
    except OutOfTime:
        for pid in props:
            ob.check(pid, 'every path is understood', None, where_of(Interp(prog, HeapCfg()), 'pop'),
                     'pop is too involved to go through')
    return ob


def init_task(prog, props, given):
    """A new schedule: the arrays hold the given keys, in heap order, and q_times their times."""
    def pre(it):
        it.assume(atom(NQ).scale(-1), '<=')
        return {}

    def run(it, ctx):
        f = it.class_attr(it.get_class(CLS), '__init__')[0]
        return it.call(Bound(Sym(PQ), f), [Sym(KEYS), Sym(NQ)] if given else [NONE, Sym(NQ)], {}, None)
    cfg, it, paths = solve(prog, run, pre)
    where = where_of(it, '__init__')
    r = Rule(prog, props, where)
    r.it = it
    r.ob.absorb(it, 'PriorityQueue.__init__', paths)
    for p in paths:
        it.st = p.st
        nk = atom(('len', KEYS)) if given and not p.st.bools.get(('isnone', KEYS)) else const(0)
        r.path = p
        if p.kind != 'return':
            r.check('C26', 'the call completes', None if p.kind == 'undecided' else False, where,
                    '__init__ ends with %s' % (p.value,))
            continue
        made = {key(e.res): e for e in p.st.events if e.kind == 'newarray'}

        def array(*names):
            es = [made.get(key(p.st.attrs[(PQ, n)])) if (PQ, n) in p.st.attrs else None for n in names]
            return es[0] if es[0] is not None and all(x is es[0] for x in es) else None
        t, e = array('sorted_times', 'array_times'), array('sorted_edges', 'array_edges')
        ok = t is not None and e is not None and t is not e
        known = all((PQ, n) in p.st.attrs for n in list(VIEWS) + list(ARRS))
        r.check('C27', 'views are renewed with their arrays', ok if known and made else ok or None, where,
                'the views are not those of the two arrays', None, sample='each view is of its own array')
        if not ok or t.info['len'] is None or e.info['len'] is None:
            continue
        w = Walk(r, p.st, Base(const(0), t.info['len'], order=False))
        w.lens = {'T': t.info['len'], 'E': e.info['len']}
        w.where = where
        r.sizes[w.base.tag] = w.base.n
        for x, a, j in (('times', t, 0), ('queues', e, 1)):
            d = a.info['of']
            ok = d == ('list',) and w.ent(nk, '<=') or given and d == (
                'map', KEYS, ('item', ('elem', KEYS, ('bound',)), key(const(j))), (), ())
            if not ok and not (d == ('list',) or d[:1] == ('map',) and d[1] == KEYS and not mention(d, ('call',))):
                ok = None
            r.check('C26', 'a new schedule has exactly the given entries', ok, a.loc, 'the %s are %s' % (x, show(d)), w,
                    sample='item %d of every key, in order' % j)
        w.run(p.st.events)
        finish(r, w)
        if w.lost:
            r.check('C26', 'every path is understood', None if w.lost != 'disorder' else True, where, w.lost)
        elif w.log:
            r.check('C26', 'a new schedule has exactly the given entries', False, where, 'entries are lost or added', w,
                    *[y for x in w.log for y in x[1]])
        q = made.get(key(p.st.attrs[(PQ, 'q_times')])) if (PQ, 'q_times') in p.st.attrs else None
        R = 'the current times are those of the given keys'
        if q is None:
            r.check('C26', R, None, where, 'q_times is not understood', w)
            continue
        d = q.info['of']
        ok = d == ('list',) and w.ent(atom(NQ), '<=') or d == (
            'map', ('view', 'range', key(const(0)), NQ, key(const(1))), (INF_ATOM,), (), ()) or \
            d[:1] == ('map',) and w.same(q.info['len'], atom(NQ)) and d[2] == key(atom(INF_ATOM)) and d[3:] == ((), ())
        if not ok and mention(d, ('call', 'mcall', 'bin')):
            ok = None
        r.check('C26', R, ok, q.loc, 'q_times starts as %s' % show(d), w, sample='infinite for each of n queues')
        sets = [x for x in p.st.events if x.kind == 'loop' and x.info.get('paths') and
                any(y.kind == 'store' and y.name == 'Q' for z in x.info['paths'] for y in z[1].events)]
        if not sets:
            ok = w.ent(nk, '<=') and not any(x.kind == 'store' and x.name == 'Q' for x in p.st.events)
        else:
            ok = len(sets) == 1 and sets[0].info['iter'] == KEYS and bool(sets[0].info['complete'])
            if not ok:
                ok = None
            else:
                ix = sets[0].info['ix']
                el = ('elem', KEYS, ix)
                for z in sets[0].info['paths']:
                    st = [y for y in z[1].events if y.kind == 'store' and y.name == 'Q']
                    ok = ok and len(st) == 1 and tok(st[0].args[1]).single() == ('item', el, key(const(1))) and \
                        isinstance(st[0].args[2], (Lin, Sym)) and \
                        tok(st[0].args[2]).single() == ('item', el, key(const(0)))
        r.check('C26', R, ok, sets[0].loc if sets else where, 'q_times is not set from the keys', w,
                sample='q_times[key[1]] = key[0] for every key')
    return r.ob
