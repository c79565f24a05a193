"""Abstract values of the dataflow engine."""
from fractions import Fraction
from .lin import Lin, atom, const


class Value:
    __slots__ = ()

    def __repr__(self):
        return '%s' % (key(self),)


class Const(Value):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Tup(Value):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Sym(Value):
    """An opaque value named by a structural term; the term is its identity."""
    __slots__ = ('key',)

    def __init__(self, k):
        self.key = k


class BoolV(Value):
    """A comparison that has not been branched on yet."""
    __slots__ = ('op', 'a', 'b')

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b


class Fn(Value):
    __slots__ = ('node', 'mod', 'cls', 'closure', 'qual')

    def __init__(self, node, mod, cls=None, closure=None, qual=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.qual = qual


class Bound(Value):
    __slots__ = ('self_', 'fn')

    def __init__(self, s, fn):
        self.self_, self.fn = s, fn


class ExtMeth(Value):
    """Method `name` of an opaque or builtin-container object."""
    __slots__ = ('self_', 'name')

    def __init__(self, s, name):
        self.self_, self.name = s, name


class ClassV(Value):
    __slots__ = ('node', 'mod', 'qual', '_mro')

    def __init__(self, node, mod):
        self.node, self.mod, self.qual = node, mod, node.name
        self._mro = None


class ModV(Value):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext(Value):
    """A name from outside the repository, by dotted path."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class SuperV(Value):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, s):
        self.cls, self.self_ = cls, s


class View(Value):
    """Lazy iterables: range, enumerate, zip, reversed, dict views, partial."""
    __slots__ = ('kind', 'args')

    def __init__(self, kind, args):
        self.kind, self.args = kind, tuple(args)


INF_ATOM = ('INF',)
INF = atom(INF_ATOM)
NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def key(v):
    if isinstance(v, Lin):
        a = v.single()
        if a is not None:
            return a
        if not v.t:
            return ('c', v.c)
        return ('lin', tuple(sorted(v.t.items(), key=lambda kv: repr(kv[0]))), v.c)
    if isinstance(v, Sym):
        return v.key
    if isinstance(v, Const):
        return ('c', type(v.v).__name__, v.v)
    if isinstance(v, Tup):
        return ('tup',) + tuple(key(x) for x in v.items)
    if isinstance(v, BoolV):
        return ('cmp', v.op, key(v.a)) + ((key(v.b),) if v.b is not None else ())
    if isinstance(v, Fn):
        return ('fn', v.mod.name, v.qual)
    if isinstance(v, Bound):
        return ('bound', key(v.self_), key(v.fn))
    if isinstance(v, ExtMeth):
        return ('extmeth', key(v.self_), v.name)
    if isinstance(v, ClassV):
        return ('cls', v.qual)
    if isinstance(v, ModV):
        return ('mod', v.name)
    if isinstance(v, Ext):
        return ('ext', v.name)
    if isinstance(v, View):
        return ('view', v.kind) + tuple(key(x) for x in v.args)
    if isinstance(v, SuperV):
        return ('super', v.cls.qual, key(v.self_))
    raise TypeError(v)


def from_key(k):
    """Value for a key produced by `key` on Lin/Const/Sym/Tup."""
    if k and k[0] == 'c':
        return const(k[1]) if len(k) == 2 else Const(k[2])
    if k and k[0] == 'lin':
        return Lin(dict(k[1]), k[2])
    if k and k[0] == 'tup':
        return Tup([from_key(x) for x in k[1:]])
    return Sym(k)


def subkey(k, m):
    """Substitute inside a structural term."""
    if not isinstance(k, tuple):
        return k
    if k in m:
        return m[k]
    if k and k[0] == 'lin':
        l = const(k[2])
        for a, c in k[1]:
            n = subkey(a, m)
            v = from_key(n) if isinstance(n, tuple) else None
            l = l + (v if isinstance(v, Lin) else atom(n)).scale(c)
        return key(l)
    if k and k[0] == 'map' and len(k) >= 5:
        # the element and its filters are under a binder; what was built before it is not
        n = {shift(a): shift(b) for a, b in m.items()}
        return ('map', subkey(k[1], m)) + tuple(subkey(x, n) for x in k[2:5]) + tuple(subkey(x, m) for x in k[5:])
    return tuple(subkey(x, m) for x in k)


def shift(k, cut=0):
    """Bound positions are numbered from the innermost binder: ('bound',), ('bound', 1), ..."""
    if not isinstance(k, tuple) or not k:
        return k
    if k[0] == 'bound' and len(k) < 3 and (len(k) == 1 or isinstance(k[1], int)):
        n = k[1] if len(k) == 2 else 0
        return ('bound', n + 1) if n >= cut else k
    if k[0] == 'map' and len(k) >= 5:
        return ('map', shift(k[1], cut)) + tuple(shift(x, cut + 1) for x in k[2:5]) + tuple(
            shift(x, cut) for x in k[5:])
    return tuple(shift(x, cut) for x in k)


def subval(v, m):
    if isinstance(v, Lin):
        l = const(v.c)
        for a, c in v.t.items():
            n = from_key(subkey(a, m))
            l = l + (n if isinstance(n, Lin) else atom(key(n))).scale(c)
        return l
    if isinstance(v, Sym):
        return from_key(subkey(v.key, m))
    if isinstance(v, Tup):
        return Tup([subval(x, m) for x in v.items])
    if isinstance(v, BoolV):
        return BoolV(v.op, subval(v.a, m), subval(v.b, m) if v.b is not None else None)
    if isinstance(v, View):
        return View(v.kind, [subval(x, m) for x in v.args])
    return v


def mentions(k, pred):
    if pred(k):
        return True
    return isinstance(k, tuple) and any(mentions(x, pred) for x in k)


# ---- container contents (immutable snapshots) ----------------------------


class LList:
    """A list whose elements are all known."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class UList:
    """Unknown prefix of `n` elements named by `base`, then known elements."""
    __slots__ = ('base', 'n', 'suffix')

    def __init__(self, base, n, suffix=()):
        self.base, self.n, self.suffix = base, n, tuple(suffix)


class Heap:
    """A heapq list: `n` unnamed elements plus the known ones; ordered by key."""
    __slots__ = ('base', 'n', 'seq', 'floor', 'known')

    def __init__(self, base, n, seq=0, floor=None, known=()):
        self.base, self.n, self.seq, self.floor, self.known = base, n, seq, floor, tuple(known)

    def repl(self, **kw):
        d = dict(base=self.base, n=self.n, seq=self.seq, floor=self.floor, known=self.known)
        d.update(kw)
        return Heap(**d)


class Deq:
    """A deque: known left part, `n` unnamed middle elements starting at `lo`, known right part."""
    __slots__ = ('base', 'left', 'lo', 'n', 'right')

    def __init__(self, base, left, lo, n, right):
        self.base, self.left, self.lo, self.n, self.right = base, tuple(left), lo, n, tuple(right)


def deq_mid(c, i):
    """The unnamed element with the number i; a base ('rev', b, L) is the base b read backwards."""
    if isinstance(c.base, tuple) and c.base[:1] == ('rev',):
        return Sym(('mid', c.base[1], key(c.base[2] - i)))
    return Sym(('mid', c.base, key(i)))


class MapSeq:
    """[elem(i) for i in range(trip) if guard(i)]: one element per iteration of a loop."""
    __slots__ = ('idx', 'trip', 'elem', 'guard', 'lin', 'src', 'pre')

    def __init__(self, idx, trip, elem, guard, lin, src, pre=()):
        self.idx, self.trip, self.elem, self.guard, self.lin = idx, trip, elem, guard, lin
        self.src, self.pre = src, tuple(pre)


class DDict:
    """A dict with the known entries `items` over an optional unknown base."""
    __slots__ = ('items', 'base')

    def __init__(self, items=(), base=None):
        self.items = tuple(items)          # ((keyvalue, value), ...)
        self.base = base


class MapDict:
    """{k(i): v(i) for i in range(trip)}"""
    __slots__ = ('idx', 'trip', 'k', 'v', 'guard', 'lin', 'src')

    def __init__(self, idx, trip, k, v, guard, lin, src):
        self.idx, self.trip, self.k, self.v, self.guard, self.lin, self.src = idx, trip, k, v, guard, lin, src
