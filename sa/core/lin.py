"""Numeric abstract domain: linear expressions over atoms, and closed convex
polyhedra over them (Cousot & Halbwachs 1978) decided by Gaussian elimination
plus Fourier-Motzkin projection.  Pure Python, exact rational arithmetic.

An atom is any hashable key.  `ints` tells which atoms are integer-valued, so
that strict comparisons between integer expressions can be tightened.
"""
from fractions import Fraction
from functools import reduce
from math import gcd


def q(x):
    """Exact rational, as an int whenever it is one."""
    if type(x) is int:
        return x
    if type(x) is not Fraction:
        x = Fraction(x)
    return x.numerator if x.denominator == 1 else x


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in t.items() if v} if t else {}
        self.c = c if type(c) is int else q(c)
        self._h = None

    def __eq__(self, o):
        return self is o or (type(o) is Lin and self.c == o.c and hash(self) == hash(o) and self.t == o.t)

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.t.items()), self.c))
        return self._h

    def add(self, o, k=1):
        t = dict(self.t)
        for a, v in o.t.items():
            t[a] = q(t.get(a, 0) + v * k)
        return Lin(t, q(self.c + o.c * k))

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        return self.add(o, -1)

    def scale(self, k):
        k = q(k)
        return Lin({a: q(v * k) for a, v in self.t.items()}, q(self.c * k))

    def is_const(self):
        return not self.t

    def atoms(self):
        return self.t.keys()

    def single(self):
        if self.c == 0 and len(self.t) == 1:
            (a, v), = self.t.items()
            if v == 1:
                return a
        return None

    def __repr__(self):
        return 'Lin(%s)' % fmt(self)


def const(c):
    return Lin({}, c)


def atom(a):
    return Lin({a: 1})


def fmt_atom(a):
    if isinstance(a, tuple):
        return show(a)
    return str(a)


def show(k, depth=0):
    if not isinstance(k, tuple):
        return str(k)
    if depth > 6:
        return '...'
    if k and k[0] == 'c':
        return repr(k[-1])
    if k and k[0] == 'lin':
        return fmt(Lin(dict(k[1]), k[2]))
    return '<%s>' % ' '.join(show(x, depth + 1) for x in k)


def fmt(l):
    s = []
    for a, v in sorted(l.t.items(), key=lambda kv: str(kv[0])):
        n = fmt_atom(a)
        if v == 1:
            s.append('+' + n)
        elif v == -1:
            s.append('-' + n)
        else:
            s.append('%+g*%s' % (float(v), n))
    if l.c or not s:
        s.append('%+g' % float(l.c))
    r = ' '.join(s)
    return r[1:] if r.startswith('+') else r


# A constraint is (Lin, kind) with kind in {'<=', '<', '=='}: lin kind 0.

def _norm(l):
    """Scale to coprime integers."""
    if not l.t:
        return l
    den = 1
    for v in l.t.values():
        if type(v) is not int:
            den = den * v.denominator // gcd(den, v.denominator)
    num = 0
    for v in l.t.values():
        num = gcd(num, abs(int(v * den)))
        if num == 1:
            break
    return l if den == num else l.scale(Fraction(den, num))


class Domain:
    def __init__(self, is_int):
        self.is_int = is_int
        self.cache = {}
        self.tcache = {}
        self.table = {}

    def intern(self, l):
        return self.table.setdefault(l, l)

    def tighten(self, c):
        r = self.tcache.get(c)
        if r is None:
            r = self.tcache[c] = self._tighten(c)
        return r

    def _tighten(self, c):
        l, k = c
        l = _norm(l)
        if l.t and all(self.is_int(a) for a in l.t):
            if k == '<':
                # l < 0 with integer atoms: l_int + c < 0
                # l_int <= ceil(-c) - 1
                b = -l.c
                m = b.numerator // b.denominator
                if b.denominator == 1:
                    m -= 1
                return Lin(l.t, -m), '<='
            if k == '<=':
                b = -l.c
                m = b.numerator // b.denominator
                return Lin(l.t, -m), '<='
        return l, k

    def infeasible(self, cons):
        """True only if the constraint set is certainly empty."""
        key = frozenset(cons)
        r = self.cache.get(key)
        if r is None:
            r = self._infeasible(cons)
            self.cache[key] = r
        return r

    def _infeasible(self, cons):
        eqs, ins = [], []
        for c in cons:
            l, k = self.tighten(c)
            if not l.t:
                if k == '<=' and l.c > 0 or k == '<' and l.c >= 0 or k == '==' and l.c != 0:
                    return True
                continue
            (eqs if k == '==' else ins).append((l, k))
        # Gauss
        while eqs:
            l, _ = eqs.pop()
            if not l.t:
                if l.c != 0:
                    return True
                continue
            a = next(iter(l.t))
            v = l.t[a]

            def sub(m):
                w = m.t.get(a)
                return m if w is None else m.add(l, Fraction(-w) / v)
            eqs = [(sub(m), k) for m, k in eqs]
            ins = [(sub(m), k) for m, k in ins]
        work = set()
        for l, k in ins:
            l, k = self.tighten((l, k))
            if not l.t:
                if k == '<=' and l.c > 0 or k == '<' and l.c >= 0:
                    return True
                continue
            work.add((l, k))
        while work:
            pos, neg = {}, {}
            for l, k in work:
                for a, v in l.t.items():
                    d = pos if v > 0 else neg
                    d[a] = d.get(a, 0) + 1
            best = None
            for a in set(pos) | set(neg):
                s = pos.get(a, 0) * neg.get(a, 0) - pos.get(a, 0) - neg.get(a, 0)
                if best is None or s < best[0]:
                    best = (s, a)
            if best is None:
                return False
            a = best[1]
            P = [(l, k) for l, k in work if l.t.get(a, 0) > 0]
            N = [(l, k) for l, k in work if l.t.get(a, 0) < 0]
            rest = {(l, k) for l, k in work if a not in l.t}
            if len(P) * len(N) + len(rest) > 600:
                return False
            for lp, kp in P:
                for ln, kn in N:
                    m = lp.scale(Fraction(1) / lp.t[a]).add(ln, Fraction(-1) / ln.t[a])
                    k = '<' if '<' in (kp, kn) else '<='
                    m, k = self.tighten((m, k))
                    if not m.t:
                        if k == '<=' and m.c > 0 or k == '<' and m.c >= 0:
                            return True
                        continue
                    rest.add((m, k))
            # keep the strongest per direction
            best_c = {}
            for l, k in rest:
                d = frozenset(l.t.items())
                o = best_c.get(d)
                if o is None or l.c > o[0].c or (l.c == o[0].c and k == '<'):
                    best_c[d] = (l, k)
            work = set(best_c.values())
        return False

    @staticmethod
    def relevant(cons, atoms):
        seen = set(atoms)
        rest = list(cons)
        out = []
        changed = True
        while changed:
            changed = False
            nxt = []
            for c in rest:
                if any(a in seen for a in c[0].t):
                    out.append(c)
                    n = len(seen)
                    seen.update(c[0].t)
                    if len(seen) > n:
                        changed = True
                else:
                    nxt.append(c)
            rest = nxt
        return out

    def neg(self, c):
        """Negation of a (non-equality) constraint."""
        l, k = c
        return (l.scale(-1), '<' if k == '<=' else '<=')

    def entails(self, cons, c):
        l, k = c
        if not l.t:
            return {'<=': l.c <= 0, '<': l.c < 0, '==': l.c == 0}[k]
        cons = self.relevant(cons, l.t)
        if k == '==':
            return (self.infeasible(cons + [(l, '<')]) and
                    self.infeasible(cons + [(l.scale(-1), '<')]))
        return self.infeasible(cons + [self.neg(c)])

    def feasible_with(self, cons, c):
        l, k = c
        if not l.t:
            return {'<=': l.c <= 0, '<': l.c < 0, '==': l.c == 0}[k]
        return not self.infeasible(self.relevant(cons, l.t) + [c])
