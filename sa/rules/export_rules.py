"""What the data methods return: C33.  Arrays are followed as tables: a list of row
sources, where every column comes from, and the column they are sorted by."""
from .select_rules import *  # noqa
from .qenv import SELF, CLS

ALL = ('tup', key(View('slice', (NONE, NONE, NONE))))
ROWIDS = ('numpy.array', 'numpy.asarray')
HEADER = 'arrival,service,departure,num_queued,num_total,q_id'
DATA = ('attr', SELF, 'data')
EIX = ('eix',)


class Lost(Exception):
    sure = False


class Tab:
    """rows: [(source, columns)]; a column is ('c', j) of the source or a term."""
    __slots__ = ('rows', 'order', 'fields')

    def __init__(self, rows, order=None, fields=None):
        self.rows, self.order, self.fields = list(rows), order, fields

    def but(self, **kw):
        t = Tab(self.rows, self.order, self.fields)
        for k, v in kw.items():
            setattr(t, k, v)
        return t


class ExportCfg(SelCfg):
    case = 'qlist'

    def call(self, it, f, args, kw, node):
        if isinstance(f, Ext) and f.name in ('builtins.tuple', 'builtins.list') and len(args) == 1 and not kw and \
                isinstance(args[0], Sym) and it.content(args[0]) is None and \
                args[0].key[0] in ('elem', 'item', 'row') and self.rowlike(it.deep(args[0])):
            return Sym(('row', it.deep(args[0])))
        return SelCfg.call(self, it, f, args, kw, node)

    def many(self, it, idx):
        k = it.deep(idx) if isinstance(idx, Sym) else None
        return isinstance(k, tuple) and (k[0] == 'call' and k[1].endswith('argsort') or k[0] == 'mcall' and
                                         'argsort' in k)

    def rowlike(self, k):
        """One row of a table (not a table)."""
        while isinstance(k, tuple) and k and k[0] == 'row':
            k = k[1]
        if not isinstance(k, tuple) or k[0] not in ('elem', 'item'):
            return False
        b = k[1]
        if k[0] == 'item' and isinstance(k[2], tuple) and k[2][:1] == ('dkey',):
            return False
        return isinstance(b, tuple) and b and b[0] in ('call', 'at', 'new', 'mcall', 'item', 'lv', 'obs')

    def length(self, it, v):
        if isinstance(v, Sym) and it.content(v) is None:
            k = it.deep(v)
            if isinstance(k, tuple) and k:
                if k[0] == 'at':
                    return self.by_origin(it, k[1])
                r = self.by_origin(it, k if k[0] == 'call' else v.key)
                if r is not None:
                    return r
                if k[0] == 'mcall' and len(k) > 2 and 'tolist' in k:
                    return it.length(from_key(k[1]))
        return SelCfg.length(self, it, v)

    def by_origin(self, it, k):
        o = it.st.origin.get(k, k)
        if isinstance(o, tuple) and len(o) > 2 and o[0] == 'call':
            if o[1] in ('numpy.zeros', 'numpy.empty') and isinstance(o[2], tuple) and o[2][:1] == ('tup',):
                n = from_key(o[2][1])
                return num(n)
            if o[1] in ('numpy.array', 'numpy.asarray', 'numpy.sort'):
                s = o[2]
                if isinstance(s, tuple) and s[:1] == ('list',):
                    return const(len(s) - 1)
                if isinstance(s, tuple) and s[:1] == ('map',) and len(s) == 5 and not s[3] and not s[4]:
                    return it.length(from_key(s[1]))
                if isinstance(s, tuple) and s and s[0] in ('at', 'new', 'call', 'item', 'mcall', 'lv'):
                    return it.length(Sym(s))
        return None


class Tables:
    """Follows the arrays built along one path."""

    def __init__(self, it, st, events, outer=None, source=None):
        self.it, self.st, self.outer = it, st, outer
        self.hist = {}              # key -> versions
        self.lost = None
        self.source = source
        for e in events:
            self.event(e)

    def event(self, e):
        n, a = e.name, e.args
        try:
            if e.kind == 'ext' and e.res is not None and n in (
                    'numpy.zeros', 'numpy.empty', 'numpy.array', 'numpy.asarray', 'numpy.sort', 'numpy.vstack',
                    'numpy.concatenate', 'numpy.copy'):
                try:
                    t = self.make(n, e)
                except Lost as x:
                    t = x
                self.hist[key(e.res)] = [t]
            elif e.kind == 'setitem' and key(a[0]) in self.hist:
                k = key(a[0])
                try:
                    t = self.store(self.hist[k][-1], a[1], a[2])
                except Lost as x:
                    t = x
                self.hist[k].append(t)
            elif e.kind == 'mutate' and a and key(a[0]) in self.hist:
                k = key(a[0])
                t = self.hist[k][-1]
                kw = getattr(e, 'kw', None) or {}
                if n == 'sort' and isinstance(t, Tab):
                    t = self.sorted(t, a[1:], kw)
                else:
                    t = Lost('%s of an array' % n)
                self.hist[k].append(t)
        except Lost as x:
            self.lost = x

    # -- building
    def make(self, n, e):
        a, kw = e.args, e.kw or {}
        if n in ('numpy.zeros', 'numpy.empty'):
            sh = a[0]
            if not isinstance(sh, Tup) or len(sh.items) != 2 or num(sh.items[1]) is None or num(sh.items[1]).t:
                raise Lost('shape of an array')
            w = int(num(sh.items[1]).c)
            m = num(sh.items[0])
            if m is None:
                raise Lost('shape of an array')
            if m == const(0):
                return Tab([])
            return Tab([(('zeros', key(m)), tuple(('k', ('c', 0)) for _ in range(w)))])
        if n in ROWIDS or n == 'numpy.copy':
            t = self.rows_of(a[0])
            dt = kw.get('dtype', a[1] if len(a) > 1 else None)
            if dt is None:
                return t if self.keeps(a[0]) else t.but(fields=None)
            return t.but(fields=self.fields(dt))
        if n == 'numpy.sort':
            return self.sorted(self.table(a[0]), a[1:], kw)
        if n in ('numpy.vstack', 'numpy.concatenate'):
            if kw.get('axis', const(0)) != const(0) or len(a) > 1 and a[1] != const(0):
                raise Lost('stacked another way')
            parts = self.it.known_iter(a[0])
            if parts is None:
                raise Lost('stack of an unknown number of arrays')
            rows = []
            for x in parts:
                rows += self.table(x).rows
            return Tab(rows)
        raise Lost(n)

    def keeps(self, v):
        """np.array(array) keeps a structured dtype, np.array(list of tuples) does not."""
        return isinstance(v, Sym) and (key(v) in self.hist)

    def fields(self, dt):
        k = self.it.known_iter(dt)
        if k is None:
            raise Lost('dtype')
        out = []
        for x in k:
            if isinstance(x, Tup) and isinstance(x.items[0], Const) and isinstance(x.items[0].v, str):
                if not (isinstance(x.items[1], Ext) and x.items[1].name in (
                        'builtins.float', 'numpy.float64', 'numpy.double', 'numpy.float_') or
                        isinstance(x.items[1], Const) and x.items[1].v in ('f8', 'float', 'd', '<f8', 'float64')):
                    raise Lost('a column that is not a float')
                out.append(x.items[0].v)
            else:
                raise Lost('dtype')
        return tuple(out)

    def sorted(self, t, a, kw):
        o = kw.get('order')
        if set(kw) - {'order', 'kind', 'axis'}:
            raise Lost('sort')
        if o is None or t.fields is None:
            raise Lost('an array is sorted by every column separately or by its first field')
        names = [o] if isinstance(o, Const) else self.it.known_iter(o)
        if not names or not isinstance(names[0], Const) or names[0].v not in t.fields:
            raise Lost('sort order')
        return t.but(order=t.fields.index(names[0].v))

    def rows_of(self, v):
        """The table an array made from v has."""
        if isinstance(v, Sym):
            c = self.it.content(v)
            if isinstance(c, LList):
                if not c.items:
                    return Tab([])
                raise Lost('list of rows')
            if isinstance(c, MapSeq):
                if c.guard or c.lin:
                    raise Lost('filtered rows')
                e = key(c.elem)
                while isinstance(e, tuple) and e[0] == 'row':
                    e = e[1]
                src = c.src
                i = ('ix', c.idx[1]) if isinstance(c.idx, tuple) and c.idx[0] == 'ix' else c.idx
                if isinstance(e, tuple) and e[0] in ('elem', 'item') and e[2] == c.idx and (
                        same_rows(e[1], src) or same_rows(e[1], through(src))):
                    return self.by_key(src)
                raise Lost('rows %s' % show(e))
        return self.table(v)

    def table(self, v):
        if not isinstance(v, Sym):
            raise Lost('not an array')
        return self.by_key(v.key if v.key in self.hist else self.it.deep(v), v)

    def by_key(self, k, v=None):
        if k in self.hist:
            t = self.hist[k][-1]
        elif isinstance(k, tuple) and k and k[0] == 'at' and k[1] in self.hist:
            if not isinstance(k[2], int) or k[2] >= len(self.hist[k[1]]):
                raise Lost('array of an earlier iteration')
            t = self.hist[k[1]][k[2]]
        elif isinstance(k, tuple) and k and k[0] == 'call' and k[1] in (
                'numpy.sort', 'numpy.array', 'numpy.vstack', 'numpy.concatenate', 'numpy.asarray'):
            t = None
            for kk, h in self.hist.items():
                if self.st.origin.get(kk) == k:
                    t = h[-1]
            if t is None:
                raise Lost('array %s' % show(k))
        elif isinstance(k, tuple) and k and k[0] == 'mcall' and 'tolist' in k:
            return self.by_key(k[1])
        elif isinstance(k, tuple) and k and k[0] == 'item' and self.argsort(k) is not None:
            b, j = self.argsort(k)
            t = self.by_key(b).but(order=j)
        elif isinstance(k, tuple) and k and k[0] == 'obs' and k[1] == 'fetch_data':
            t = Tab([(k, tuple(('c', j) for j in range(6)))])
        elif self.source and self.source(k, v, self.it) is not None:
            t = self.source(k, v, self.it)
        elif self.outer is not None:
            return self.outer.by_key(k, v)
        else:
            raise Lost('array %s' % show(k))
        if isinstance(t, Lost):
            raise t
        return t

    def argsort(self, k):
        """(array, column) of X[argsort of column j of X]."""
        b, i = k[1], k[2]
        if isinstance(i, tuple) and i[0] == 'call' and i[1] == 'numpy.argsort':
            c = i[2]
        elif isinstance(i, tuple) and i[0] == 'mcall' and 'argsort' in i:
            c = i[1]
        else:
            return None
        if isinstance(c, tuple) and c[0] == 'item' and c[1] == b and isinstance(c[2], tuple) and c[2][:2] == ALL and \
                c[2][2][0] in ('c',) and isinstance(c[2][2][1], int):
            return b, c[2][2][1]
        return None

    # -- columns
    def store(self, t, idx, val):
        if isinstance(t, Lost):
            raise t
        if not isinstance(idx, Tup) or len(idx.items) != 2 or not whole(idx.items[0]):
            raise Lost('rows are stored one by one')
        col = idx.items[1]
        if len(t.rows) != 1:
            raise Lost('columns of a stacked array')
        src, cols = t.rows[0]
        cols = list(cols)
        w = len(cols)
        n = num(col) if not isinstance(col, View) else None
        if n is not None and not n.t:
            j = int(n.c)
            if not -w <= j < w:
                raise Lost('no such column')
            if isinstance(val, Sym) and (key(val) in self.hist or self.it.content(val) is not None):
                raise Lost('a column')
            cols[j] = ('k', key(val))
            return Tab([(src, tuple(cols))], None, t.fields)
        if isinstance(col, View) and col.kind == 'slice':
            lo, hi, st = [None if x == NONE else num(x) for x in col.args]
            if st is not None or any(x is not None and x.t for x in (lo, hi)):
                raise Lost('columns')
            rng = range(w)[slice(None if lo is None else int(lo.c), None if hi is None else int(hi.c))]
            v = self.table(val) if not (isinstance(val, Sym) and self.it.content(val) is not None) \
                else self.rows_of(val)
            if len(v.rows) != 1 or v.order is not None:
                raise Lost('a stacked array is stored')
            s2, c2 = v.rows[0]
            if len(c2) != len(rng):
                raise Lost('%d columns are stored into %d' % (len(c2), len(rng)))
            if src[0] == 'zeros':
                n = from_key(src[1])
                m = self.it.length(from_key(s2[1]) if s2[0] in ('rows', 'cat') else Sym(s2))
                pv = PV(self.it, self.st)
                if m is None or pv.eq(n if isinstance(n, Lin) else num(n), m) is not True:
                    raise Lost('number of rows')
            elif src != s2:
                raise Lost('rows of two sources')
            for j, c in zip(rng, c2):
                cols[j] = c
            return Tab([(s2, tuple(cols))], None, t.fields)
        raise Lost('columns')


def through(k):
    """The rows an array of rows was made of."""
    while isinstance(k, tuple) and k[:1] == ('call',) and k[1] in ROWIDS and isinstance(k[2], tuple) and \
            k[2][:1] == ('map',) and not k[2][3] and not k[2][4]:
        e, src = k[2][2], k[2][1]
        while isinstance(e, tuple) and e[0] == 'row':
            e = e[1]
        if not (isinstance(e, tuple) and e[0] in ('elem', 'item') and e[2] == ('bound',) and same_rows(e[1], src)):
            break
        k = src
    return k


def whole(v):
    return isinstance(v, View) and v.kind == 'slice' and all(x == NONE for x in v.args)


def same_rows(a, b):
    while isinstance(b, tuple) and b and b[0] == 'mcall' and 'tolist' in b:
        b = b[1]
    while isinstance(a, tuple) and a and a[0] == 'mcall' and 'tolist' in a:
        a = a[1]
    return a == b


RAW = tuple(('c', j) for j in range(5))


def nonempty(pv, l):
    return l is not None and pv.ent(const(1) - l, '<=')


def empty(pv, l):
    return l is not None and pv.ent(l, '<=')


# ---------------------------------------------------------------------- fetch_data
def header_check(say, p, rh, val):
    """Splits off the header; returns the data or None."""
    b = p.st.bools.get(('truth', ('arg', 'rh')))
    if b is None:
        b = p.st.bools.get(('arg', 'rh'))
    if b is None:
        uses = [e for e in walk(p.st.events) for a in list(e.args or []) if mentions(key(a), lambda x: x == ('arg', 'rh'))]
        say(None if uses else False, None, 'return_header makes no difference', p)
        return None
    if b:
        if not isinstance(val, Tup) or len(val.items) != 2:
            say(False, None, 'return_header does not return (data, header)', p)
            return None
        h = val.items[1]
        if isinstance(h, Const):
            say(h.v == HEADER, None, 'the header is %r' % (h.v,), p)
        else:
            say(None, None, 'the header is %s' % show(key(h)), p)
        return val.items[0]
    if isinstance(val, Tup):
        say(False, None, 'a header is returned without being asked for', p)
        return None
    return val


def judge_table(t, want_src, want_id, order):
    """(ok, message) of the table that should hold every row of one source."""
    if len(t.rows) != 1:
        return False, 'the data consists of %d tables' % len(t.rows)
    src, cols = t.rows[0]
    if src != want_src:
        return (None if foreign(src, havoc=False) else False), 'the rows are %s' % show(src)
    if len(cols) != 6:
        return False, '%d columns' % len(cols)
    for j in range(5):
        if cols[j] != ('c', j):
            return False, 'column %d holds %s' % (j, 'column %s of the records' % cols[j][1]
                                                   if cols[j][0] == 'c' else show(cols[j][1]))
    if cols[5] != ('k', want_id):
        return (None if foreign(cols[5]) else False), 'the last column holds %s' % show(cols[5][1])
    if order and t.order != 0:
        return False, 'the rows are %s' % ('not sorted' if t.order is None else 'sorted by column %d' % t.order)
    return True, 'every record%s, with the edge index' % (', sorted by arrival' if order else '')


def fetch_task(prog, qcls):
    P = 'C33'
    ob = Obligations()
    cfg = ExportCfg()
    cfg.typeof = lambda it, k: CLS[qcls] if k == SELF else None

    def ia(it, o, n):
        if o == SELF:
            if n == 'edge':
                return Tup([Sym(('esrc',)), Sym(('etgt',)), Sym(EIX), Sym(('ety',))])
            return Sym(('attr', SELF, n))
    cfg.init_attr = ia
    it = Interp(prog, cfg)
    cls = it.get_class(CLS[qcls])
    m = it.class_attr(cls, 'fetch_data')
    if not m:
        raise AnchorMissing('%s.fetch_data' % qcls)
    where = '%s:%s' % (m[0].mod.rel, m[0].node.lineno)
    paths = it.explore(lambda it: {}, lambda it, ctx: it.call(
        it.getattr(Sym(SELF), 'fetch_data', None), [], {'return_header': Sym(('arg', 'rh'))}, None))
    ob.absorb(it, '%s.fetch_data' % qcls, paths)
    rule = 'fetch_data returns every record once, in order'

    def say(ok, loc, msg, p):
        ob.check(P, rule, ok, loc or where, '%s.fetch_data: %s' % (qcls, msg), p)
    for p in paths:
        if p.kind == 'undecided':
            say(None, None, p.value, p)
            continue
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            say(None if v.lossy() or p.value.exc == '<ext>' else False, p.value.where, 'raises %s' % p.value.exc, p)
            continue
        val = header_check(say, p, True, p.value)
        if val is None:
            continue
        st8 = {}

        def source(k, sv, it, st8=st8):
            if sv is None:
                return None
            c = it.content(sv)
            if c is None or isinstance(c, LList):
                return None
            r = concat_all(it, p, sv)
            if r is None:
                return None
            if isinstance(r, Lost):
                raise r
            return Tab([(('cat', sv.key), RAW)])
        tabs = Tables(it, p.st, [e for e in p.st.events if e.kind != 'loop'], None, source)
        try:
            if tabs.lost:
                raise tabs.lost
            t = tabs.table(val)
        except Lost as x:
            say(False if x.sure else None, None, str(x), p)
            continue
        none = empty(v, atom(('len', DATA)))
        if not t.rows or t.rows[0][0][0] == 'zeros':
            # no records at all
            if t.rows:
                n = from_key(t.rows[0][0][1])
                n = n if isinstance(n, Lin) else num(n)
            else:
                n = const(0)
            ls = [cat_len(it, p, e) for e in p.st.events if e.kind == 'loop']
            if none or any(l is not None and empty(v, l) for l in ls):
                say(True, None, 'no records', p)
            else:
                say(None if v.lossy() and not ls else False, None, 'returns no rows although there may be records', p)
            continue
        src = t.rows[0][0]
        if src[0] != 'cat':
            say(None if foreign(src) else False, None, 'returns %s' % show(src), p)
            continue
        ok, msg = judge_table(t, src, EIX, True)
        say(ok, None, msg, p)
    return ob


def cat_len(it, p, e):
    """Length of the list a loop over the data fills."""
    for k, c in p.st.content.items():
        if isinstance(c, UList) and c.base and c.base[:1] == ('grown',) and ('new', 'list') == k[:2]:
            return it.length(Sym(k))
    return None


def concat_all(it, p, v):
    """Does the list hold the records of every agent, each once?  True, Lost or None."""
    k = v.key
    loops = [e for e in p.st.events if e.kind == 'loop' and e.info and e.info.get('paths') is not None and any(
        x.kind == 'mutate' and x.args and key(x.args[0]) == k for q in e.info['paths'] for x in walk(q[1].events))]
    tops = [e for e in p.st.events if e.kind == 'mutate' and e.args and key(e.args[0]) == k]
    if len(loops) != 1 or tops:
        return None
    e = loops[0]
    src, ix = e.info.get('iter'), e.info['ix']
    if not e.info.get('complete'):
        return Lost('the loop over the records ends early')
    if src == ('view', 'values', DATA):
        want = [('item', DATA, ('dkey', DATA, ix))]
    elif src == ('view', 'items', DATA) or src in (DATA, ('view', 'keys', DATA)):
        want = [('item', DATA, ('dkey', DATA, ix))]
    else:
        return Lost('records of %s' % show(src))
    for q in e.info['paths']:
        if q[0] is not None and q[0][0] != 'continue':
            return Lost('the loop over the records ends early')
        ms = [x for x in q[1].events if x.kind == 'mutate' and x.args and key(x.args[0]) == k]
        inner = [x for x in q[1].events if x.kind == 'loop' and x.info and x.info.get('paths') is not None]
        if any(x.kind == 'loop0' for x in q[1].events) and not ms and not inner:
            continue                    # an agent without records
        if len(ms) == 1 and ms[0].name == 'extend' and key(ms[0].args[1]) in want and not inner:
            continue
        if not ms and len(inner) == 1 and inner[0].info['iter'] in want and inner[0].info.get('complete'):
            j = inner[0].info['ix']
            good = True
            for r in inner[0].info['paths']:
                a = [x for x in r[1].events if x.kind == 'mutate' and x.args and key(x.args[0]) == k]
                good &= len(a) == 1 and a[0].name == 'append' and key(a[0].args[1]) in (
                    ('item', want[0], j), ('elem', want[0], j), ('row', ('elem', want[0], j)),
                    ('row', ('item', want[0], j)))
            if good:
                continue
        x = Lost('records of an agent are skipped or changed')
        x.sure = not ms and not inner and not any(foreign(a) for l, _ in q[3] for a in l.t) and not any(
            foreign(b) for b, _ in q[4]) and not empty(PV(it, q[1]), atom(('len', want[0])))
        return x
    return True


def walk(evs):
    for e in evs:
        yield e
        if e.kind == 'loop' and e.info and e.info.get('paths') is not None:
            for q in e.info['paths']:
                for x in walk(q[1].events):
                    yield x


# ---------------------------------------------------------------------- the network's methods
def net_paths(prog, method, case):
    cfg = ExportCfg()
    cfg.case = case

    def mkargs(it, ctx):
        kw = case_args(it, case)
        kw['return_header'] = Sym(('arg', 'rh'))
        return [], kw
    it, paths = explore_net(cfg, prog, method, mkargs=mkargs)
    m = it.class_attr(it.get_class(NETCLS), method)
    return it, paths, '%s:%s' % (m[0].mod.rel, m[0].node.lineno)


def queue_data_task(prog, case):
    ob = Obligations()
    it, paths, where = net_paths(prog, 'get_queue_data', case)
    ob.absorb(it, 'get_queue_data(%s)' % case, paths)
    rule = 'get_queue_data returns the data of every selected queue'

    def say(ok, loc, msg, p):
        ob.check('C33', rule, ok, loc or where, 'get_queue_data: %s' % msg, p)
    for p in paths:
        if p.kind == 'undecided':
            say(None, None, p.value, p)
            continue
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            say(None if v.lossy() or p.value.exc == '<ext>' else False, p.value.where, 'raises %s' % p.value.exc, p)
            continue
        val = header_check(say, p, True, p.value)
        if val is None:
            continue
        tabs = Tables(it, p.st, p.st.events)
        k = key(val)
        if isinstance(k, tuple) and k[:1] == ('lv',) and k[-1] == 'end':
            stacked(say, it, p, tabs, k)
            continue
        obs = [e for e in walk(p.st.events) if e.kind == 'obs' and e.name == 'fetch_data']
        try:
            t = tabs.table(val)
        except Lost as x:
            d = it.deep(val)
            if isinstance(d, tuple) and d[:1] == ('call',) and d[1] in ('numpy.vstack', 'numpy.concatenate') and \
                    isinstance(d[2], tuple) and d[2][:1] == ('map',) and not d[2][3] and not d[2][4] and \
                    isinstance(d[2][2], tuple) and d[2][2][:2] == ('obs', 'fetch_data') and len(d) == 3:
                say(True, None, 'the arrays of all queues are stacked', p)
                continue
            say(None, None, str(x), p)
            continue
        got = [s for s, c in t.rows if s[0] == 'obs']
        want = [key(e.res) for e in obs]
        if any(s[0] not in ('obs', 'zeros') for s, c in t.rows):
            say(None, None, 'returns %s' % ', '.join(show(s) for s, c in t.rows), p)
            continue
        if any(e.kind == 'loop' for e in p.st.events):
            say(None if v.lossy() and got else False, None, 'the data of the queues is not in the result', p)
            continue
        # without a loop: every array fetched is there once, or is empty
        bad = [w for w in want if got.count(w) != 1 and not (got.count(w) == 0 and empty(v, atom(('len', w))))]
        say(not bad and not [g for g in got if g not in want], None,
            'the data of %s is %s' % (show(bad[0]), 'not in the result' if bad[0] not in got else 'there twice')
            if bad else 'the data of every queue', p)
    return ob


def stacked(say, it, p, tabs, k):
    """The array is built up in a loop over the queues."""
    lid, loc = k[1], k[2]
    es = [e for e in p.st.events if e.kind == 'loop' and e.info and e.info.get('ix') == ('ix', lid)]
    if len(es) != 1:
        say(None, None, 'built in an inner loop', p)
        return
    e = es[0]
    if not e.info.get('complete'):
        say(False, e.loc, 'the loop over the queues ends early', p)
        return
    start = ('lv', lid, loc)
    # what it holds before the loop is the first array made
    for q in e.info['paths']:
        if q[0] is not None and q[0][0] != 'continue':
            continue
        pv = PV(it, q[1], q[2], q[0], p, 'iter')
        obs = [key(x.res) for x in q[1].events if x.kind == 'obs' and x.name == 'fetch_data']
        end = q[1].locals.get(loc[0], {}).get(loc[1])
        ek = key(end) if end is not None else None
        if ek == start:
            bad = [o for o in obs if not empty(pv, atom(('len', o)))]
            if not obs:
                say(None, e.loc, 'a queue is not looked at', p)
            else:
                say(not bad, e.loc, 'the data of a queue is left out' if bad else 'an empty queue is left out', p)
            continue

        def source(kk, sv, it2):
            if kk == start:
                return Tab([(start, tuple(('c', j) for j in range(6)))])
            return None
        old, it.st = it.st, q[1]
        try:
            sub = Tables(it, q[1], q[1].events, tabs, source)
            t = sub.by_key(ek if ek in sub.hist else it.deep(end), end)
        except Lost as x:
            say(None, e.loc, str(x), p)
            continue
        finally:
            it.st = old
        srcs = [s for s, c in t.rows]
        plain = all(tuple(c) == tuple(('c', j) for j in range(6)) for s, c in t.rows)
        first = first_iter(pv, ('ix', lid))
        if not plain:
            say(None, e.loc, 'columns are changed', p)
        elif sorted(map(repr, srcs)) == sorted(map(repr, [start] + obs)):
            say(True, e.loc, 'the data of every queue is added', p)
        elif any(s not in obs + [start] for s in srcs):
            say(None, e.loc, 'adds %s' % ', '.join(map(show, srcs)), p)
        elif start not in srcs:
            if first or empty(pv, atom(('len', start))):
                say(True, e.loc, 'nothing has been collected before', p)
            else:
                say(None if len_start(q, start) else False, e.loc, 'the data of the queues before is lost', p)
        else:
            say(False, e.loc, 'the data of a queue is added %d times' % sum(1 for s in srcs if s in obs), p)
    # the start: an empty table
    pre = [h[0] for kk, h in tabs.hist.items()]
    if pre and isinstance(pre[0], Tab):
        say(not [r for r in pre[0].rows if r[0][0] != 'zeros' or r[0][1] != ('c', 0)], e.loc,
            'the result starts with rows of its own', p)


def len_start(q, start):
    """A condition on what has been collected decides."""
    return any(mentions(a, lambda x: x == start) for l, _ in q[3] for a in l.t) or any(
        mentions(k, lambda x: x == start) for k, _ in q[4])


def first_iter(pv, ix):
    return pv.ent(atom(ix), '<=')


def agent_data_task(prog, case):
    ob = Obligations()
    it, paths, where = net_paths(prog, 'get_agent_data', case)
    ob.absorb(it, 'get_agent_data(%s)' % case, paths)
    rule = 'get_agent_data returns every record of an agent, in order'

    def say(ok, loc, msg, p):
        ob.check('C33', rule, ok, loc or where, 'get_agent_data: %s' % msg, p)
    for p in paths:
        if p.kind == 'undecided':
            say(None, None, p.value, p)
            continue
        it.st = p.st
        v = PV(it, p.st, None, None, p, 'top')
        if p.kind == 'raise':
            say(None if v.lossy() or p.value.exc == '<ext>' else False, p.value.where, 'raises %s' % p.value.exc, p)
            continue
        val = header_check(say, p, True, p.value)
        if val is None:
            continue
        d = key(val)
        if not (isinstance(val, Sym) and d[0] == 'new' and isinstance(p.st.content.get(d), (DDict, MapDict))):
            say(None, None, 'returns %s' % show(it.deep(val)), p)
            continue
        collect(say, it, p, d)
    return ob


def stores(q, d):
    return [x for x in q[1].events if x.kind == 'setitem' and key(x.args[0]) == d]


def qindex(k):
    """Edge index of the queue whose data this is."""
    return data_queue(Sym(k)) if isinstance(k, tuple) else None


def collect(say, it, p, d):
    loops = [e for e in p.st.events if e.kind in ('loop', 'loop0')]
    seen_fill = seen_sort = False
    for e in loops:
        if e.kind == 'loop0':
            continue
        sets = [x for x in walk([e]) if x.kind == 'setitem' and key(x.args[0]) == d]
        fills = [x for q in e.info['paths'] for x in q[1].events if x.kind == 'loop' and x.info and
                 qindex(view_of(x.info.get('iter'))) is not None]
        if fills:
            seen_fill = True
            for f in fills:
                fill(say, it, p, d, f)
        elif qindex(view_of(e.info.get('iter'))) is not None:
            seen_fill = True
            fill(say, it, p, d, e)
        elif is_view_of(e.info.get('iter'), d):
            if sets:
                seen_sort = True
                sort_loop(say, it, p, d, e)
        elif sets:
            say(None, e.loc, 'the result is changed in a loop over %s' % show(e.info.get('iter')), p)
    filled = any(x.kind == 'setitem' and key(x.args[0]) == d for e in loops for x in walk([e]))
    if seen_fill and not seen_sort and filled:
        last = [e for e in loops if e.kind == 'loop0' and is_view_of(e.info.get('iter'), d)]
        srt = [x for x in walk(p.st.events) if x.kind in ('ext', 'mcall', 'call', 'mutate') and 'sort' in str(x.name)]
        if last:
            return              # nothing was collected
        say(False if not srt else None, None, 'the records of an agent are not sorted by arrival time', p)


def view_of(k):
    if isinstance(k, tuple) and k[:1] == ('view',) and len(k) == 3:
        return k[2]
    return k


def is_view_of(k, d):
    if isinstance(k, tuple) and k and k[0] == 'call' and k[1] in ('builtins.list', 'builtins.tuple', 'builtins.sorted'):
        k = k[2]
    k = view_of(k)
    if k == d or isinstance(k, tuple) and k[:2] == ('at', d):
        return True
    return isinstance(k, tuple) and k[:1] == ('dict',)


def fill(say, it, p, d, f):
    src = view_of(f.info['iter'])
    ix = f.info['ix']
    dk = ('dkey', src, ix)
    rows = ('item', src, dk)
    qi = qindex(src)
    if not f.info.get('complete'):
        say(False, f.loc, 'the loop over the records ends early', p)
        return
    for q in f.info['paths']:
        if q[0] is not None and q[0][0] != 'continue':
            continue
        pv = PV(it, q[1], q[2], q[0], p, 'iter')
        ss = stores(q, d)
        if len(ss) != 1:
            empty_ = empty(pv, atom(('len', rows)))
            say(True if not ss and empty_ else None if pv.lossy() and ss or any(
                x.kind == 'mutate' for x in q[1].events) else False,
                f.loc, 'the records of an agent are stored %d times' % len(ss), p)
            continue
        e = ss[0]
        if key(e.args[1]) != dk:
            say(None if foreign(key(e.args[1])) else False, e.loc,
                'the records are stored under %s' % show(key(e.args[1])), p)
            continue
        if any(b and isinstance(k, tuple) and k[0] == 'isnone' and isinstance(k[1], tuple) and k[1][0] == 'item' and
               k[1][2] == dk for k, b in q[1].bools.items()):
            continue                    # only arrays are stored
        known = None
        for k, b in q[1].bools.items():
            if isinstance(k, tuple) and k[0] == 'in' and k[1] == dk and mentions(k[2], lambda x: x == d):
                known = b
        prevs = []

        def source(kk, sv, it2):
            if kk == rows:
                return Tab([(('rows', rows), RAW)])
            if isinstance(kk, tuple) and kk[0] == 'item' and kk[2] == dk and kk[1] != src:
                prevs.append(kk)
                return Tab([(('prev',), tuple(('c', j) for j in range(6)))])
            return None
        old, it.st = it.st, q[1]
        try:
            sub = Tables(it, q[1], q[1].events, None, source)
            vv = e.args[2]
            t = sub.by_key(key(vv) if key(vv) in sub.hist else it.deep(vv), vv)
        except Lost as x:
            say(None, e.loc, str(x), p)
            continue
        finally:
            it.st = old
        rest = [r for r in t.rows if r[0] != ('prev',)]
        had = len(t.rows) - len(rest)
        ok, msg = judge_table(Tab(rest), ('rows', rows), qi, False)
        if ok is not True:
            say(ok, e.loc, msg, p)
        elif known is None:
            say(None if pv.lossy() else False, e.loc, 'records are stored whether or not the agent has some already', p)
        elif known and had != 1:
            say(False, e.loc, 'the records of the queues before are lost', p)
        elif not known and had:
            say(False, e.loc, 'records that do not exist are read', p)
        else:
            say(True, e.loc, msg, p)


def sort_loop(say, it, p, d, e):
    ix = e.info['ix']
    if not e.info.get('complete'):
        say(False, e.loc, 'the loop over the agents ends early', p)
        return
    for q in e.info['paths']:
        if q[0] is not None and q[0][0] != 'continue':
            continue
        pv = PV(it, q[1], q[2], q[0], p, 'iter')
        ss = stores(q, d)
        if len(ss) != 1:
            say(None if pv.lossy() or ss else False, e.loc, 'the records of an agent are not sorted', p)
            continue
        s = ss[0]
        dk = key(s.args[1])
        if not (isinstance(dk, tuple) and dk[0] == 'dkey' and dk[-1] == ix):
            say(None, s.loc, 'stored under %s' % show(dk), p)
            continue

        def source(kk, sv, it2):
            if isinstance(kk, tuple) and kk[0] == 'item' and kk[2] == dk:
                return Tab([(('prev',), tuple(('c', j) for j in range(6)))])
            return None
        old, it.st = it.st, q[1]
        try:
            sub = Tables(it, q[1], q[1].events, None, source)
            vv = s.args[2]
            t = sub.by_key(key(vv) if key(vv) in sub.hist else it.deep(vv), vv)
        except Lost as x:
            say(None, s.loc, str(x), p)
            continue
        finally:
            it.st = old
        if not t.rows and any(x.kind == 'loop0' for x in q[1].events):
            continue                    # an agent without records is not there
        if [r[0] for r in t.rows] != [('prev',)]:
            say(None if t.rows else False, s.loc, 'other records are stored', p)
        elif tuple(t.rows[0][1]) != tuple(('c', j) for j in range(6)):
            say(False, s.loc, 'the columns are changed', p)
        else:
            say(t.order == 0, s.loc, 'the records of an agent are %s' % (
                'sorted by arrival' if t.order == 0 else 'not sorted' if t.order is None else
                'sorted by column %d' % t.order), p)
