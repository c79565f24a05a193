"""Obligations, path views and the bookkeeping shared by all rules."""
import ast
import collections
from ..core.interp import *  # noqa
from ..core.lin import *  # noqa
from ..core.values import *  # noqa
from ..core.frontend import Program, AnchorMissing, Unsupported


class Obligations:
    """What a run of the rules established: counts per rule, failures, open cases."""

    def __init__(self):
        self.ok = collections.Counter()
        self.fails = []
        self.open = []
        self.functions = set()
        self.sites = set()
        self.paths = collections.Counter()
        self.samples = {}
        self.missing = []

    def check(self, prop, rule, ok, where, msg, path=None, sample=None):
        """ok: True (discharged), False (violated), None (not decided on this path)."""
        if ok is True:
            self.ok[(prop, rule)] += 1
            if (prop, rule) not in self.samples:
                self.samples[(prop, rule)] = '%s: %s' % (where, sample or msg)
        elif ok is False:
            if sum(1 for f in self.fails if f['property'] == prop and f['rule'] == rule
                   and f['where'] == where) < 3:
                self.fails.append({'property': prop, 'rule': rule, 'where': where, 'message': msg,
                                   'path': path.describe() if path is not None else []})
        else:
            if len(self.open) < 400:
                self.open.append({'property': prop, 'rule': rule, 'where': where, 'message': msg})
            self.ok[(prop, rule, 'open')] += 1
        return ok

    def merge(self, o):
        self.ok.update(o.ok)
        self.fails += o.fails
        self.open += o.open
        self.functions |= o.functions
        self.sites |= o.sites
        self.paths.update(o.paths)
        self.missing += o.missing
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)

    def absorb(self, it, label, paths):
        """Record what an exploration covered."""
        self.functions |= set(it.visited)
        for p in paths:
            self.paths[(label, p.kind)] += 1


# atoms that stand for values the analysis lost track of
def foreign(k, known=None, havoc=True):
    """Does the term mention something whose relation to the pre-state is unknown?"""
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] in ('hd', 'mid'):
        return False            # an element of a heap or deque: any value
    if havoc and k[0] == 'lv':
        return True
    if known is not None and k[0] == 'attr' and len(k) == 3 and isinstance(k[2], str) and k[2] not in known:
        return True
    return any(foreign(x, known, havoc) for x in k)


class PV:
    """A path, or one iteration of a loop on it, with its facts."""

    def __init__(self, it, st, start=None, sig=None, path=None, kind='top', known=None):
        self.it, self.st, self.start, self.sig, self.path, self.kind = it, st, start, sig, path, kind
        self.events = st.events
        self.known_attrs = known

    def ent(self, l, op, extra=()):
        if not l.t:
            return {'<=': l.c <= 0, '<': l.c < 0, '==': l.c == 0}[op]
        if self.it.dom.entails(list(self.st.lin) + list(extra), (l, op)):
            return True
        return bool(self.unequal()) and self.it.dom.entails(list(self.st.lin) + self.unequal() + list(extra), (l, op))

    def feas(self, *cons):
        if self.it.dom.infeasible(list(self.st.lin) + list(cons)):
            return False
        return not self.unequal() or not self.it.dom.infeasible(list(self.st.lin) + self.unequal() + list(cons))

    _uneq = None

    def unequal(self):
        """a != b together with a <= b is a < b."""
        if self._uneq is None:
            self._uneq = out = []
            for k, v in self.st.bools.items():
                if v is False and k[0] == '==' and len(k) == 3:
                    a, b = (x if isinstance(x, tuple) else None for x in k[1:])
                    a, b = (num(from_key(x)) if x is not None else None for x in (a, b))
                    if a is None or b is None:
                        continue
                    d = a - b
                    if not d.t:
                        continue
                    for x in (d, d.scale(-1)):
                        if self.it.dom.entails(list(self.st.lin), (x, '<=')):
                            out.append((x, '<'))
        return self._uneq

    def truth(self, v):
        """Value of a condition on this path, or None."""
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Sym):
            b = self.st.bools
            for k in (('truth', v.key), v.key):
                if k in b:
                    return b[k]
            return None
        if isinstance(v, Lin) and not v.t:
            return v.c != 0
        if isinstance(v, BoolV) and v.op in ('<', '<=', '=='):
            a, b = num(v.a), num(v.b)
            if a is not None and b is not None:
                l = a - b
                if self.ent(l, v.op):
                    return True
                if v.op != '==' and self.ent(l.scale(-1), '<' if v.op == '<=' else '<='):
                    return False
                if v.op == '==' and (self.ent(l, '<') or self.ent(l.scale(-1), '<')):
                    return False
        if isinstance(v, BoolV) and v.op == 'not':
            t = self.truth(v.a)
            return None if t is None else not t
        return None

    def eq(self, a, b):
        """True / False (a run with a != b exists) / None (the terms are not precise)."""
        if a is None or b is None:
            return False if self.precise(a, b) else None
        ka, kb = key(a), key(b)
        if ka == kb:
            return True
        na, nb = num(a), num(b)
        if na is not None and nb is not None and not (isinstance(a, Const) and isinstance(b, Const)):
            if self.ent(na - nb, '=='):
                return True
            return False if self.precise(a, b) else None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.eq(x, y) for x, y in zip(a.items, b.items)]
            return False if False in rs else (None if None in rs else True)
        if self.st.bools.get(self.it.bkey(BoolV('==', a, b))):
            return True
        ta, tb = self.truth(a), self.truth(b)
        if isinstance(a, Const) and isinstance(a.v, bool) and tb is not None:
            return tb == a.v
        if isinstance(b, Const) and isinstance(b.v, bool) and ta is not None:
            return ta == b.v
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v == b.v
        return False if self.precise(a, b) else None

    def precise(self, *vs):
        """No lost value in these terms or in what decided the path."""
        for v in vs:
            if v is not None and foreign(key(v), self.known_attrs):
                return False
        return not self.lossy()

    def lossy(self):
        for l, k in self.st.lin:
            for a in l.t:
                if foreign(a, self.known_attrs):
                    return True
        for k in self.st.bools:
            if foreign(k, self.known_attrs):
                return True
        return False

    def attr(self, o, name):
        return self.st.attrs.get((o, name))

    def evs(self, *kinds):
        return [e for e in self.events if e.kind in kinds]


def num(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, Const):
        return const(int(v.v)) if isinstance(v.v, bool) else None
    if isinstance(v, Sym):
        return atom(v.key)
    return None


def segments(it, path, known=None):
    """The path and, recursively, the iterations of its loops."""
    out = [PV(it, path.st, None, None, path, 'top', known)]

    def rec(events):
        for e in events:
            if e.kind == 'loop' and e.info and e.info.get('paths'):
                for p in e.info['paths']:
                    pv = PV(it, p[1], p[2], p[0], path, 'iter', known)
                    out.append(pv)
                    rec(p[1].events)
    rec(path.st.events)
    return out


def loc_of(events, name, default):
    """Where attribute `name` was last stored."""
    for e in reversed(events):
        if e.kind == 'setattr' and e.name == name:
            return e.loc
    return default
