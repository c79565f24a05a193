"""A run is determined by its seed (C24): who draws, who seeds, and in what order."""
import builtins
from .common import *  # noqa
from .graphenv import *  # noqa
from .gen_rules import GenCfg, MOD, G, SEED
from .union_rules import MinCfg, GEN, N, nested, looping
from .build_rules import BuildCfg, NETCLS
from .qenv import CLS
from ..core.frontend import AnchorMissing

P = 'C24'
FOREIGN = ('random.', 'secrets.', 'uuid.uuid1', 'uuid.uuid4', 'os.urandom', 'os.getrandom', 'random.SystemRandom')
OWN = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'numpy.random.PCG64',
       'numpy.random.MT19937', 'numpy.random.SeedSequence', 'numpy.random.mtrand.RandomState')
SEEDERS = ('numpy.random.seed', 'numpy.random.mtrand.seed', 'numpy.random.set_state')
CLOCKS = ('time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now', 'os.getpid')
FUNCS = ('generate_transition_matrix', 'minimal_random_graph', 'set_types_random', 'set_types_rank')
STEPS = ('minimal_random_graph', 'set_types_random', 'set_types_rank', 'generate_transition_matrix')


# -- every draw comes from numpy's global generator, and only a seed restarts it --------------------
def dotted(mod, node, local):
    """Full name of what a Name/Attribute refers to (through the imports), or None."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    imp = local.get(node.id) or mod.names.get(node.id)
    if isinstance(imp, tuple) and imp[0] == 'import':
        base = imp[1]
    elif isinstance(imp, tuple) and imp[0] == 'from':
        base = imp[1] + '.' + imp[2]
    else:
        return None
    return '.'.join([base] + parts[::-1])


def functions(tree):
    """(function or None, its own nodes) for every scope of a module."""
    def scope(fn, body, outer):
        own, inner = [], []
        stack = list(body)
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                inner.append(n)
                stack += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
                stack += getattr(n, 'decorator_list', [])
                continue
            own.append(n)
            stack += ast.iter_child_nodes(n)
        yield fn, own, outer
        for f in inner:
            yield from scope(f, f.body if isinstance(f.body, list) else [f.body], outer + (fn,))
    fns = []
    yield from scope(None, flat_top(tree.body, fns), ())
    for f in fns:
        yield from scope(f, f.body, ())


def flat_top(top, fns):
    """Statements of a module or class body without the functions, which are scopes of their own."""
    out, stack = [], list(top)
    while stack:
        s = stack.pop(0)
        if isinstance(s, ast.FunctionDef):
            fns.append(s)
        elif isinstance(s, ast.ClassDef):
            stack = list(s.body) + stack
            out += s.bases + s.decorator_list
        elif isinstance(s, (ast.If, ast.Try)):
            stack = [x for x in ast.iter_child_nodes(s) if isinstance(x, (ast.stmt, ast.excepthandler))] + stack
            if isinstance(s, ast.If):
                out.append(s.test)
        elif isinstance(s, ast.ExceptHandler):
            stack = list(s.body) + stack
        else:
            out.append(s)
    return out


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def imports_in(nodes, mod):
    out = {}
    for n in nodes:
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            m = mod._abs(n)
            for a in n.names:
                out[a.asname or a.name] = ('from', m, a.name)
    return out


def lint_task(prog):
    ob = Obligations()
    R1, R2, R3 = ('every draw is made by the global generator of numpy', 'only a seed from the caller restarts it',
                  'a function with a seed is analysed')
    closures, calls, seen = {}, [], 0
    for m in prog.all_modules():
        for fn, nodes, outer in functions(m.tree):
            local = imports_in(nodes, m)
            ob.functions.add((m.rel, getattr(fn, 'name', '<module>' if fn is None else '<lambda>')))
            inner = set()
            for n in nodes:
                if isinstance(n, ast.Attribute):
                    inner.add(id(n.value))
            args = {}
            for n in nodes:
                if isinstance(n, ast.Call):
                    args[id(n.func)] = n
                    calls.append((m, fn, n))
            for n in nodes:
                if not isinstance(n, (ast.Name, ast.Attribute)) or id(n) in inner:
                    continue
                d = dotted(m, n, local)
                if not d:
                    continue
                where = '%s:%s' % (m.rel, n.lineno)
                call = args.get(id(n))
                if d.startswith('random.') or d.startswith(FOREIGN):
                    ob.check(P, R1, False, where, '%s in %s is not controlled by the seed' % (d, fname(fn)))
                elif d in OWN:
                    given = call is not None and (call.args or call.keywords) and not all(
                        isinstance(a, ast.Constant) and a.value is None
                        for a in call.args + [k.value for k in call.keywords])
                    if given:
                        from_ = {x.id for a in call.args + [k.value for k in call.keywords]
                                 for x in ast.walk(a) if isinstance(x, ast.Name)}
                        # seeded by something: whether by the seed of the caller is left to the reader
                        ob.check(P, R1, None, where, '%s seeded by %s' % (d, sorted(from_)))
                    elif call is not None:
                        ob.check(P, R1, False, where, '%s in %s is seeded by the system' % (d, fname(fn)))
                    else:
                        ob.check(P, R1, None, where, '%s is not called here' % d)
                elif d.startswith('networkx.') and 'random' in d.rsplit('.', 1)[1]:
                    ob.check(P, R1, None, where, '%s draws from a generator of its own' % d)
                elif d in SEEDERS:
                    seen += 1
                    a = None
                    if call is not None:
                        a = call.args[0] if call.args else (call.keywords[0].value if call.keywords else None)
                    seeder(ob, m, fn, outer, a, call, where, closures, R2)
                elif d.startswith('numpy.random.'):
                    ob.check(P, R1, True, where, '', sample=d)
            if fn is not None and 'seed' in params(fn):
                known = getattr(fn, 'name', '') in FUNCS or getattr(fn, 'name', '') == '__init__' or \
                    getattr(fn, 'name', '') in closures
                ob.check(P, R3, True if known else None, '%s:%s' % (m.rel, fn.lineno), 'function %s takes a seed' %
                         fname(fn), sample=fname(fn))
    # a helper that seeds with its parameter: what do its callers give it?
    for (mod, name), (par, ps) in list(closures.items()):
        for m, fn, n in calls:
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm != name or name == '__init__':
                continue
            a = None
            i = ps.index(par)
            if ps[:1] in (['self'], ['cls']) and isinstance(f, ast.Attribute):
                i -= 1
            if len(n.args) > i and not any(isinstance(x, ast.Starred) for x in n.args[:i + 1]):
                a = n.args[i]
            for k in n.keywords:
                if k.arg == par:
                    a = k.value
            if a is None:
                continue            # the default or something starred
            where = '%s:%s' % (m.rel, n.lineno)
            ok = given(a, fn, ())
            ob.check(P, R2, ok, where, '%s gives %s the seed %s' % (fname(fn), name, ast.unparse(a)), sample=name)
    if not seen:
        ob.missing.append('numpy.random.seed')
    return ob


def fname(fn):
    return '<module>' if fn is None else getattr(fn, 'name', '<lambda>')


def given(a, fn, outer):
    """Is an expression what the caller gave (True), certainly something else (False), unknown (None)?"""
    ps = set()
    for f in (fn,) + tuple(outer):
        if f is not None:
            ps |= set(params(f)) - {'self', 'cls'}
            ps |= {x.arg for x in (f.args.vararg, f.args.kwarg) if x is not None}
    names = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
    if isinstance(a, ast.Constant):
        return False
    if isinstance(a, ast.Name) and a.id in ps:
        return True
    if names & ps:
        return True if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ('int', 'abs') or \
            isinstance(a, ast.Subscript) else None
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in (
            'time', 'time_ns', 'getpid', 'now', 'perf_counter', 'monotonic'):
        return False
    if 'seed' in ast.unparse(a).lower():
        return None
    if names <= {'self', 'cls'} | set(dir(builtins)):
        return False            # made of the object alone
    return None


def seeder(ob, m, fn, outer, a, call, where, closures, rule):
    if call is None:
        ob.check(P, rule, None, where, 'the seeding function is passed on')
        return
    if a is None:
        ob.check(P, rule, False, where, '%s restarts the generator with entropy of the system' % fname(fn))
        return
    ok = given(a, fn, outer)
    if ok is None and isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == 'self':
        ok = None
    if fn is None:
        ok = False
    if ok and isinstance(a, ast.Name) and fn is not None and a.id in params(fn) and hasattr(fn, 'name'):
        closures[(m.name, fn.name)] = (a.id, params(fn))
    ob.check(P, rule, ok, where, '%s restarts the generator with %s' % (fname(fn), ast.unparse(a)), sample=ast.unparse(a))


# -- each entry seeds before it draws ------------------------------------------------------------
class SeedCfg(GenCfg):
    made = ()

    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if n in self.made:
            it.event('made', n, list(args), node, kw=kw)
            return Sym(G)
        return GenCfg.call(self, it, f, args, kw, node)


class NetSeedCfg(BuildCfg):
    def call(self, it, f, args, kw, node):
        n = f.node.name if isinstance(f, Fn) and hasattr(f.node, 'name') else None
        if n == '_prepare_graph':
            it.event('prepare', n, list(args), node, kw=kw)
            return Tup([Sym(G2), Sym(('arg', 'queues'))])
        return BuildCfg.call(self, it, f, args, kw, node)


G2 = ('arg', 'g2')
SQ = ('arg', 'queue')


class QSeedCfg(GraphCfg):
    def typeof(self, it, k):
        if k == SQ:
            return CLS[self.q]
        return None


def flat(events):
    """Events in order; the ones of an iteration at the place of the loop."""
    for e in events:
        yield e
        if e.kind == 'loop' and e.info:
            for q in e.info['paths']:
                yield from flat(q[1].events)


def entry_task(prog, name):
    ob = Obligations()
    for case in ('int', 'numpy', 'none'):
        one(ob, prog, name, case)
    return ob


def one(ob, prog, name, case):
    ctx = {'where': '?'}
    seed = Sym(SEED) if case != 'none' else NONE
    qcls = name[6:] if name.startswith('queue:') else None
    if name == 'network':
        cfg = NetSeedCfg()
    elif qcls:
        cfg = QSeedCfg()
        cfg.q = qcls
    elif name == 'minimal_random_graph':
        cfg = MinCfg()
    else:
        cfg = SeedCfg()
        if name.startswith('generate_') and name != 'generate_transition_matrix':
            cfg.made = STEPS
    it = Interp(prog, cfg)

    def pre(it):
        st = it.st
        st.bools[('isnone', SEED)] = False
        st.bools[('isinst', SEED, ('ext', 'numbers.Integral'))] = True
        if name == 'network':
            for a in ('q_classes', 'q_args', 'colors', 'g'):
                st.bools[('isnone', ('arg', a))] = False
            st.bools[('isinst', ('arg', 'blocking'), ('ext', 'str'))] = True
        elif name == 'minimal_random_graph':
            it.assume(const(2) - atom(N), '<=')
            it.assume(const(1) - atom(('nC',)), '<=')
        elif not qcls:
            for g in (G,):
                it.assume(const(1) - nE(g), '<=')
                it.assume(const(1) - nV(g), '<=')
        return ctx

    def run(it, _):
        if name == 'network':
            m = it.class_attr(it.get_class(NETCLS), '__init__')[0]
            ctx['where'] = '%s:%s' % (m.mod.rel, m.node.lineno)
            return it.call(Bound(Sym(NET), m), [Sym(('arg', 'g'))], {'seed': seed, 'blocking': Sym(('arg', 'blocking')),
                           'q_classes': Sym(('arg', 'q_classes')), 'q_args': Sym(('arg', 'q_args')),
                           'colors': Sym(('arg', 'colors'))}, None)
        if qcls:
            m = it.class_attr(it.get_class(CLS[qcls]), '__init__')[0]
            ctx['where'] = '%s:%s' % (m.mod.rel, m.node.lineno)
            return it.call(Bound(Sym(SQ), m), [], {'seed': seed}, None)
        f = it.module_attr(it.prog.module(MOD), name)
        if not isinstance(f, Fn):
            raise AnchorMissing(name)
        ctx['where'] = '%s:%s' % (f.mod.rel, f.node.lineno)
        args = {'generate_transition_matrix': [Sym(G)], 'set_types_random': [Sym(G)],
                'set_types_rank': [Sym(G), Sym(('arg', 'rank'))]}.get(name, [Sym(('arg', 'n'))])
        if name == 'minimal_random_graph':
            args = [Sym(N)]
        return it.call(f, args, {'seed': seed}, None)
    def isinst(it, k, n):
        if k != SEED:
            return None
        return {'int': case == 'int', 'numpy.integer': case == 'numpy', 'numbers.Integral': True, 'float': False,
                'numbers.Number': True, 'numbers.Real': True, 'str': False, 'bool': False}.get(n)
    cfg.isinst = isinst
    ps = it.explore(pre, run)
    ob.absorb(it, '%s (%s)' % (name, {'int': 'with a seed', 'numpy': 'with a seed of numpy', 'none': 'without'}[case]), ps)
    where = ctx['where']
    R1, R2, R3 = ('an integer seed restarts the generator before anything is drawn', 'no seed leaves the generator alone',
                  'the seed itself is used')
    for p in ps:
        it.st = p.st
        if p.kind == 'undecided':
            ob.check(P, R1, None, where, '%s' % (p.value,), p)
            continue
        evs = list(flat(p.st.events))
        drawn, seeded = None, False
        for e in evs:
            if e.kind == 'seed':
                if case == 'none':
                    a = key(e.args[0]) if e.args else None
                    ob.check(P, R2, False, e.loc, '%s restarts the generator although no seed is given (%s)' % (
                        name, show(a) if a else 'entropy'), p)
                    continue
                a = key(e.args[0]) if e.args else (key(list(e.kw.values())[0]) if e.kw else None)
                if a == SEED or a in (('call', 'builtins.int', SEED), ('call', 'operator.index', SEED)):
                    ok = True
                elif a is None or a[0] == 'c':
                    ok = False
                else:
                    ok = None
                ob.check(P, R3, ok, e.loc, '%s seeds with %s' % (name, show(a) if a else 'nothing'), p, 'seed')
                if drawn is not None and not seeded:
                    pass
                seeded = True
            elif e.kind == 'made' and case != 'none':
                a = e.kw.get('seed') if e.kw else None
                if a is not None and key(a) == SEED:
                    seeded = True
                elif not seeded and drawn is None:
                    drawn = e
            elif e.kind == 'made' and case == 'none':
                a = e.kw.get('seed') if e.kw else None
                if a is not None and key(a) != key(NONE):
                    ob.check(P, R2, False if key(a)[0] == 'c' else None, e.loc, '%s is given the seed %s' % (
                        e.name, show(key(a))), p)
            elif e.kind in ('random', 'prepare', 'callback') and not seeded and drawn is None:
                drawn = e
        if case == 'none':
            if not any(e.kind == 'seed' for e in evs):
                ob.check(P, R2, True, where, '', p, name)
            continue
        if p.kind == 'raise':
            continue
        if drawn is not None:
            # opaque calls before the draw might seed
            opaque = any(e.kind in ('ext', 'mcall') and any(key(a) == SEED for a in list(e.args) + list(
                (e.kw or {}).values())) for e in evs)
            ob.check(P, R1, None if opaque else False, drawn.loc, '%s draws (%s) before it is seeded' % (name, drawn.name), p)
        elif not seeded and not name.startswith('queue:'):
            # nothing drawn on this path at all, e.g. no edges: the state of the generator is part of the result
            ob.check(P, R1, False if not any(e.kind == 'ext' and any(key(a) == SEED for a in e.args) for e in evs) else None,
                     where, '%s ignores its seed' % name, p)
        elif not seeded:
            ob.check(P, R1, False, where, '%s ignores its seed' % name, p)
        else:
            ob.check(P, R1, True, where, '', p, name)
