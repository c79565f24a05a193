"""poisson_random_measure is a thinning of a homogeneous process (C35).

Each path is read as a word over draws, evaluations of the rate and decisions, and run through the automaton
base --(one exponential of mean 1/rate_max)--> candidate --(rate_max*U > rate(candidate))--> base, where accepting a
candidate (rate_max*U <= rate(candidate)) returns it.  A loop has to preserve the state of the automaton at its head.
"""
from .common import *  # noqa
from .graphenv import *  # noqa
from .union_rules import unver, walk
from ..core.frontend import AnchorMissing

P = 'C35'
MOD = 'queueing_tool.queues.queue_servers'
T, RATE, MAX = ('arg', 't'), ('arg', 'rate'), ('arg', 'rate_max')
R1, R2, R3, R4 = ('gaps between candidates are exponential of mean 1/rate_max',
                  'a candidate is kept with probability rate(candidate)/rate_max',
                  'every candidate is tested once, with a draw of its own', 'the first kept candidate is returned')
INV = ('div', ('c', 1), MAX)


class Bad(Exception):
    def __init__(self, rule, ok, msg):
        self.rule, self.ok, self.msg = rule, ok, msg


def pure(k):
    """Only things the rule knows about: the arguments, draws, results of the rate."""
    if not isinstance(k, tuple) or not k:
        return True
    if k[0] in ('c', 'arg'):
        return True
    if k[0] in ('rnd', 'ret', 'ix', 'lv'):
        return True
    if k[0] in ('mul', 'div', 'Lin', 'lin', 'neg', 'add'):
        return all(pure(x) for x in k[1:])
    return False


def tkey(it, x):
    x = it.deep(x)
    return x if isinstance(x, tuple) else key(x)


class Word(object):
    def __init__(self, it, st, facts, state, base, cand=None):
        self.it, self.st, self.facts = it, st, facts
        self.state, self.base, self.cand = state, base, cand
        self.draws, self.us, self.used = [], [], set()
        self.rets = {}
        self.undo = None

    def incr(self, e):
        """Terms that stand for an exponential draw of mean 1/rate_max."""
        a = [tkey(self.it, x) for x in list(e.args) + list((e.kw or {}).values())]
        r = key(e.res) if not isinstance(e.res, tuple) else e.res
        name = str(e.name).rsplit('.', 1)[-1]
        if name in ('exponential', 'expovariate') and (a[:1] == [INV] or (name == 'expovariate' and a[:1] == [MAX])):
            return [r]
        if (name == 'exponential' and a in ([], [('c', 1)])) or name == 'standard_exponential':
            return [('div', r, MAX), ('mul', INV, r), ('mul', r, INV)]
        if name == 'exponential' and all(pure(x) for x in a):
            raise Bad(R1, False, 'a gap is exponential(%s)' % ', '.join(show(x) for x in a))
        raise Bad(R1, None, 'draws from %s(%s)' % (e.name, ', '.join(show(x) for x in a)))

    def expect(self, value):
        """Is value the candidate that follows the base?"""
        d = value - self.base
        if not all(pure(a) for a in d.t):
            raise Bad(R1, None, 'candidate %s' % fmt(value))
        if len(self.draws) != 1:
            raise Bad(R1, False, '%d exponentials between two candidates' % len(self.draws))
        if not any(d == atom(k) for k in self.draws[0]):
            raise Bad(R1, False, 'the candidate is %s away from the previous one' % fmt(d))

    UNIFORM = ('uniform', 'random', 'random_sample', 'rand', 'ranf', 'sample')

    def tester(self, e):
        """A draw a candidate can be tested with; it may come before or after the rate is evaluated."""
        name = str(e.name).rsplit('.', 1)[-1]
        if name not in self.UNIFORM:
            return
        a = [tkey(self.it, x) for x in list(e.args) + list((e.kw or {}).values())]
        r = key(e.res) if not isinstance(e.res, tuple) else e.res
        if a in ([], [('c', 0), ('c', 1)]) or (name == 'uniform' and a in ([('c', 0)],)):
            self.us.append((r, ('mul', MAX, r), ('mul', r, MAX)))
        elif name == 'uniform' and a in ([('c', 0), MAX],):
            self.us.append((None, r, r))
        elif all(pure(x) for x in a):
            raise Bad(R2, False, 'the test uses %s(%s)' % (name, ', '.join(show(x) for x in a)))
        else:
            raise Bad(R2, None, 'the test uses %s' % name)

    def event(self, e):
        if e.kind == 'random':
            if str(e.name).rsplit('.', 1)[-1] in self.UNIFORM:
                return
            if self.state == 'cand':
                raise Bad(R3, False, 'a candidate is passed over without a test')
            self.draws.append(self.incr(e))
        elif e.kind == 'callback' and e.args and key(e.args[0]) == RATE:
            v = self.it.num(e.args[1]) if len(e.args) == 2 else None
            if v is None:
                raise Bad(R2, None, 'rate is called with %d arguments' % (len(e.args) - 1))
            r = key(e.res) if not isinstance(e.res, tuple) else e.res
            self.decide(v, r)

    def decide(self, v, r):
        kinds = []
        for l, op in self.facts:
            if op not in ('<', '<='):
                continue
            ks = set(l.t)
            if r not in ks and not any(r in walk(k) for k in ks):
                continue
            if not all(pure(k) for k in ks):
                raise Bad(R2, None, 'the test is %s' % fmt(l))
            for u in self.us:
                for a, b in ((u[1], r), (u[2], r), (u[0], ('div', r, MAX)), (u[0], ('mul', INV, r)), (u[0], ('mul', r, INV))):
                    if a is None or ks != {a, b} or l.c != 0:
                        continue
                    x, y = l.t[a], l.t[b]
                    if x + y == 0:
                        kinds.append(('accept' if x > 0 else 'reject', u))
            if not kinds and INFATOM not in ks and ks != {r}:
                raise Bad(R2, False, 'the test is %s %s 0' % (fmt(l), op))
        if not kinds:
            return      # evaluated and not used on this path
        kind, u = kinds[0]
        if u in self.used:
            raise Bad(R3, False, 'the same draw tests two candidates')
        self.used.add(u)
        if self.state == 'base':
            self.expect(v)
        elif v != self.cand:
            raise Bad(R2, False if all(pure(a) for a in (v - self.cand).t) else None,
                      'the rate is evaluated at %s for the candidate %s' % (fmt(v), fmt(self.cand)))
        if self.state == 'done':
            raise Bad(R3, None, 'tests after a candidate was kept')
        self.undo = (self.state, self.base, self.cand, self.draws)
        self.draws = []
        if kind == 'accept':
            self.state, self.cand = 'done', v
        else:
            self.state, self.base, self.cand = 'base', v, None

    def settle(self, value):
        """The current value of the time variable tells whether the next candidate is already drawn."""
        if self.state == 'base' and self.draws:
            self.expect(value)
            self.state, self.cand, self.draws = 'cand', value, []


INFATOM = list(INF.t)[0]


def variables(it, info):
    """Variables of the loop that hold a time."""
    out = []
    for q in info['paths']:
        for fid, loc in q[2].locals.items():
            for name, v in loc.items():
                if key(v) == ('lv', info['ix'][1], (fid, name)):
                    out.append((fid, name))
    return sorted(set(out))


def value(it, st, var):
    old, it.st = it.st, st
    try:
        v = st.locals.get(var[0], {}).get(var[1])
        return it.num(v) if v is not None and not isinstance(v, BoolV) else None
    finally:
        it.st = old


def iteration(it, info, head, var):
    """Does one pass of the loop take the automaton from `head` at var to `head` at the new value of var?"""
    n = 0
    me = atom(('lv', info['ix'][1], var))
    for sig, st, start, lin, _ in info['paths']:
        w = Word(it, st, lin, head, me if head == 'base' else None, me if head == 'cand' else None)
        w.all(st.events)
        if sig is not None and sig[0] == 'return':
            continue        # seen again at the end of the path that leaves here
        if sig is not None and sig[0] not in ('continue', 'break'):
            raise Bad(R3, None, 'the loop is left by %s' % (sig[0],))
        if sig is not None and sig[0] == 'break':
            continue
        n += 1
        new = value(it, st, var)
        if new is None:
            raise Bad(R3, None, 'time variable of the loop')
        w.settle(new)
        if w.state == 'done':
            raise Bad(R3, None, 'the loop goes on after a candidate was kept')
        now = w.base if w.state == 'base' else w.cand
        if w.state != head:
            raise Bad(R3, False, 'a pass of the loop leaves the next candidate %s' % (
                {'base': 'undrawn', 'cand': 'untested'}[w.state]))
        if now != new:
            ok = False if all(pure(k) for k in (now - new).t) else None
            raise Bad(R1, ok, 'after a rejected candidate %s the search goes on from %s' % (fmt(now), fmt(new)))
    return n


def through(it, info, w):
    """The loop as a whole: its head state is an invariant, and it goes on from there."""
    errors = []
    for var in variables(it, info):
        for head in ('cand', 'base'):
            try:
                iteration(it, info, head, var)
            except Bad as b:
                errors.append((var, head, b))
                continue
            if w.state == 'base' and head == 'cand' and w.undo and not w.draws:
                w.state, w.cand = 'cand', w.base        # the first test belongs to the first pass
                w.used = set()
            first = ENTRY.get((info['ix'][1], var))
            if w.state == 'base' and w.draws and head == 'cand' and first is not None:
                w.settle(first)
            now = w.base if w.state == 'base' else w.cand
            if w.state == head and first is not None and now is not None and first != now:
                raise Bad(R1, False if all(pure(k) for k in (first - now).t) else None,
                          'the search starts from %s' % fmt(first))
            if w.state != head:
                errors.append((var, head, Bad(R3, None, 'enters the loop in another state')))
                continue
            end = atom(('lv', info['ix'][1], var, 'end'))
            w.base, w.cand = (end, None) if head == 'base' else (None, end)
            w.draws = []
            return
    # the loop has no invariant: why, for the reading that comes nearest to it
    for var, head, b in errors:
        if b.ok is False and (head == w.state or (w.state == 'base' and w.undo)):
            good = [1 for v, h, x in errors if x.ok is None]
            raise Bad(b.rule, None if good else False, b.msg)
    raise errors[0][2] if errors else Bad(R3, None, 'a loop without a time variable')


def word_all(self, events):
    for e in events:
        if e.kind == 'random':
            self.tester(e)
    for e in events:
        if e.kind in ('random', 'callback'):
            self.event(e)
        elif e.kind == 'loop':
            through(self.it, e.info, self)


Word.all = word_all


ENTRY = {}


class ThinCfg(GraphCfg):
    def loop_entry(self, it, node, lid, ix, trip):
        for fid, loc in it.st.locals.items():
            for name in loc:
                v = value(it, it.st, (fid, name))
                if v is not None:
                    ENTRY[(lid, (fid, name))] = v


def thin_task(prog):
    ob = Obligations()
    cfg = ThinCfg()
    it = Interp(prog, cfg)
    m = prog.module(MOD)
    if m is None or not isinstance(m.names.get('poisson_random_measure'), ast.FunctionDef):
        raise AnchorMissing('poisson_random_measure')
    where = '%s:%s' % (m.rel, m.names['poisson_random_measure'].lineno)

    def run(it, _):
        f = it.module_attr(m, 'poisson_random_measure')
        return it.call(f, [Sym(T), Sym(RATE), Sym(MAX)], {}, None)
    ps = it.explore(lambda it: None, run)
    ob.absorb(it, 'poisson_random_measure', ps)
    for p in ps:
        it.st = st = p.st
        if p.kind == 'raise':
            ob.check(P, R4, False if not isinstance(p.value, tuple) else None, where, 'raises %s' % (p.value,), p)
            continue
        if p.kind != 'return':
            ob.check(P, R4, None, where, '%s' % (p.value,), p)
            continue
        w = Word(it, st, st.lin, 'base', atom(T))
        try:
            w.all(st.events)
            v = it.num(p.value)
            if w.state != 'done':
                d = v - (w.base if w.base is not None else w.cand)
                raise Bad(R4, False if all(pure(k) for k in d.t) else None, 'returns a time that was not kept')
            if v != w.cand:
                raise Bad(R4, False if all(pure(k) for k in (v - w.cand).t) else None, 'returns %s' % fmt(v))
        except Bad as b:
            ob.check(P, b.rule, b.ok, where, b.msg, p)
            continue
        for r in (R1, R2, R3, R4):
            ob.check(P, r, True, where, '', p, 'path with result %s' % fmt(v))
    return ob
