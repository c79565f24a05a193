"""Which analyses decide which property."""
from .core.values import TRUE, FALSE

# (queue class, agent class, shards): the pairs the library is used with
PAIRS = [('QueueServer', 'Agent'), ('LossQueue', 'Agent'), ('ResourceQueue', 'ResourceAgent'),
         ('ResourceQueue', 'Agent'), ('InfoQueue', 'InfoAgent'), ('NullQueue', 'Agent')]
# every other combination a network can be configured with
MORE = [('QueueServer', 'GreedyAgent'), ('LossQueue', 'GreedyAgent'), ('QueueServer', 'ResourceAgent'),
        ('LossQueue', 'ResourceAgent'), ('QueueServer', 'InfoAgent'), ('LossQueue', 'InfoAgent'),
        ('ResourceQueue', 'GreedyAgent'), ('ResourceQueue', 'InfoAgent'), ('InfoQueue', 'Agent'),
        ('InfoQueue', 'GreedyAgent'), ('InfoQueue', 'ResourceAgent'), ('NullQueue', 'ResourceAgent'),
        ('NullQueue', 'InfoAgent'), ('NullQueue', 'GreedyAgent')]
FIX = {'': None,
       'c1a1': {'collect_data': TRUE, '_active': TRUE}, 'c1a0': {'collect_data': TRUE, '_active': FALSE},
       'c0a1': {'collect_data': FALSE, '_active': TRUE}, 'c0a0': {'collect_data': FALSE, '_active': FALSE}}
SHARDS = ('c1a1', 'c1a0', 'c0a1', 'c0a0')

QUEUE = {
    'C01': ('next_event', 'add_agent', 'set_active', 'set_inactive', 'delay', 'delay_t', 'set_num_servers',
            'number_queued', 'clear'),
    'C02': ('next_event', 'set_num_servers', 'delay', 'add_agent', 'set_active'),
    'C03': ('next_event', 'set_num_servers', 'delay', 'delay_t', 'add_agent', 'set_active'),
    'C04': ('next_event', 'at_capacity'),
    'C05': ('next_event', 'add_agent', 'set_active', 'delay', 'delay_t', 'set_num_servers', 'describe'),
    'C06': ('next_event', 'add_agent', 'set_active', 'set_inactive', 'delay', 'delay_t'),
    'C07': ('next_event', 'set_active', 'delay', 'delay_t', 'set_num_servers'),
    'C08': ('next_event', 'set_num_servers'),
    'C09': ('clear',),
    'C36': ('next_event', 'set_num_servers'),
}
ONLY = {'C29': ('ResourceQueue',), 'C31': ('NullQueue',)}


def queue_tasks(pid, tier):
    pairs = PAIRS + (MORE if tier == 'thorough' else [])
    out = []
    if pid == 'C29':
        pairs = [p for p in PAIRS + MORE if p[0] == 'ResourceQueue' and (tier == 'thorough' or p in PAIRS)]
        meths = ('next_event', 'set_num_servers')
    elif pid == 'C31':
        pairs = [p for p in PAIRS + MORE if p[0] == 'NullQueue']
        meths = ('next_event', 'add_agent', 'at_capacity', 'describe', 'number_queued')
    elif pid == 'C32':
        meths = ('set_num_servers',)
    elif pid in QUEUE:
        meths = QUEUE[pid]
        pairs = [p for p in pairs if p[0] != 'NullQueue']
    else:
        return []
    for q, a in pairs:
        for m in meths:
            if pid == 'C04' and m == 'next_event' and q == 'NullQueue':
                continue
            heavy = m == 'next_event' and q in ('InfoQueue', 'ResourceQueue', 'LossQueue')
            for s in (SHARDS if heavy else ('',)):
                out.append(('queue', q, a, m, s))
    return out


QCLS = ('QueueServer', 'LossQueue', 'ResourceQueue', 'InfoQueue')
AGENTS = ('Agent', 'GreedyAgent', 'ResourceAgent', 'InfoAgent')


def tasks(pid, tier):
    out = queue_tasks(pid, tier)
    if pid in ('C11', 'C12', 'C13', 'C14', 'C15'):
        for a in AGENTS if tier == 'thorough' else ('Agent',):
            for alias in (False, True):
                for slow in (False, True):
                    out.append(('step', alias, slow, a))
    if pid == 'C15':
        out += [('route', a) for a in AGENTS]
    if pid == 'C12':
        out += [('queue', q, a, '_key', '') for q, a in PAIRS]
    if pid == 'C10':
        out += [('sim', 'network', c) for c in ('n', 't')]
        out += [('sim', q, c) for q in QCLS for c in ('n', 't', 'nD', 'nA')]
    if pid == 'C18':
        from .rules.select_rules import SELECT_METHODS, CASES
        out += [('select', m, c) for m in SELECT_METHODS for c in CASES]
    if pid == 'C16':
        out += [('routes', c) for c in ('dict', 'ndarray', 'other')] + [('transitions',)]
    if pid == 'C17':
        from .rules.life_rules import INITCASES
        out += [('init', c) for c in INITCASES] + [('netclear',), ('gate', 'simulate'), ('gate', 'animate')]
    if pid in ('C20', 'C21'):
        from .rules.build_rules import CASES as BUILD
        out += [('build', c) for c in BUILD] + ([('badblock',)] if pid == 'C21' else [])
    if pid == 'C33':
        cs = ('none', 'qint', 'qlist', 'edge', 'edges2') if tier == 'thorough' else ('none', 'qint', 'qlist')
        out += [('fetch', q) for q in QCLS] + [(k, c) for k in ('qdata', 'adata') for c in cs]
    if pid == 'C28':
        out += [('choice',), ('argmin',)]
    if pid == 'C22':
        out += [('uf', 'find'), ('uf', 'union'), ('uf', 'init'), ('uf', 'graph')]
    if pid == 'C25':
        out += [('shared',)]
    if pid == 'C35':
        out += [('thin',)]
    if pid == 'C32':
        out += [('ctor', n) for n in tuple(QCLS) + ('NullQueue',)] + [('ctor', 'agent', a) for a in AGENTS]
    if pid == 'C04':
        out += [('loss', a) for a in AGENTS if a != 'InfoAgent']
    if pid in ('C05', 'C41'):
        out += [('order', pid)]
    if pid == 'C41':
        out += [('report', 'net'), ('report', 'graph')] + [('report', 'queue', n) for n in tuple(QCLS) + ('NullQueue',)]
    if pid == 'C37':
        out += [('color', n) for n in ('all', 'graph', 'vertex', 'active', 'type', 'reset')] + [
            ('color', 'effect', n) for n in ('display', 'data', 'state', 'NullQueue') + tuple(QCLS)] + [
            ('color', 'shade', n) for n in tuple(QCLS) + ('NullQueue',)]
        out += [('step', alias, True, 'Agent') for alias in (False, True)]
    if pid == 'C30':
        out += [('info', 'extract'), ('info', 'event'), ('info', 'size')] + [
            ('info', 'action', w) for w in (None, 0, 1, 2)]
    if pid == 'C24':
        out += [('seed',)] + [('seed', n) for n in (
            'network', 'queue:QueueServer', 'queue:LossQueue', 'queue:ResourceQueue', 'queue:InfoQueue',
            'generate_random_graph', 'generate_pagerank_graph', 'generate_transition_matrix', 'minimal_random_graph',
            'set_types_random', 'set_types_rank')]
    if pid == 'C23':
        out += [('gen', 'matrix')]
    if pid == 'C34':
        out += [('gen', 'types', True), ('gen', 'types', False), ('gen', 'loopgraph')]
    if pid == 'C40':
        out += [('gen', 'rank'), ('gen', 'pagerank')]
    if pid == 'C39':
        out += [('wrap', w) for w in ('init', 'add', 'props', 'new', 'pos', 'query', 'draw', 'save')]
    if pid == 'C38':
        out += [('adj', 'graph', a, e, j) for a, e in (('dict', 'none'), ('dict', 'dict'), ('matrix', 'matrix'),
                                                        ('matrix', 'none')) for j in (1, 2)]
        out += [('adj', 'graph', 'other', 'none', 1), ('adj', 'matrix'), ('adj', 'dict')]
    if pid in ('C26', 'C27'):
        out += [('pq', 'push'), ('pq', 'pop'), ('pq', 'init'), ('pq', 'empty')]
    if pid == 'C19':
        out += [('netcopy', True), ('netcopy', False)] + [('qcopy', q) for q in QCLS + ('NullQueue',)]
    return out


def run(prog, pid, task):
    if task[0] == 'queue':
        from .rules.queue_rules import run_task
        _, q, a, m, s = task
        return run_task(prog, q, a, m, (pid,), FIX[s])
    if task[0] == 'step':
        from .rules.net_rules import step_task
        return step_task(prog, (pid,), task[1], task[2], task[3])
    if task[0] == 'sim':
        from .rules.sim_rules import sim_task
        return sim_task(prog, (pid,), task[1], task[2])
    if task[0] == 'route':
        from .rules.agent_rules import route_task
        return route_task(prog, task[1])
    if task[0] == 'select':
        from .rules.select_rules import select_task
        return select_task(prog, task[1], task[2])
    if task[0] == 'routes':
        from .rules.route_rules import set_task
        return set_task(prog, task[1])
    if task[0] == 'transitions':
        from .rules.route_rules import transitions_task
        return transitions_task(prog)
    if task[0] == 'init':
        from .rules.life_rules import init_task
        return init_task(prog, task[1])
    if task[0] == 'netclear':
        from .rules.life_rules import clear_task
        return clear_task(prog)
    if task[0] == 'gate':
        from .rules.life_rules import gate_task
        return gate_task(prog, task[1])
    if task[0] == 'netcopy':
        from .rules.copy_rules import net_task
        return net_task(prog, task[1])
    if task[0] == 'qcopy':
        from .rules.copy_rules import queue_copy_task
        return queue_copy_task(prog, task[1])
    if task[0] == 'build':
        from .rules.build_rules import build_task
        return build_task(prog, task[1], (pid,))
    if task[0] == 'badblock':
        from .rules.build_rules import block_task
        return block_task(prog)
    if task[0] in ('choice', 'argmin'):
        from .rules import choice_rules as x
        return {'choice': x.choice_task, 'argmin': x.argmin_task}[task[0]](prog)
    if task[0] == 'uf':
        from .rules import union_rules as x
        return {'find': x.find_task, 'union': x.union_task, 'init': x.ufinit_task, 'graph': x.graph_task}[task[1]](prog)
    if task[0] == 'gen':
        from .rules import gen_rules
        return getattr(gen_rules, task[1] + '_task')(prog, *task[2:])
    if task[0] == 'shared':
        from .rules import shared_rules
        return shared_rules.shared_task(prog)
    if task[0] == 'thin':
        from .rules import thin_rules
        return thin_rules.thin_task(prog)
    if task[0] == 'loss':
        from .rules.init_rules import loss_task
        return loss_task(prog, task[1])
    if task[0] == 'ctor':
        from .rules import init_rules
        return init_rules.agent_task(prog, task[2]) if task[1] == 'agent' else init_rules.ctor_task(prog, task[1])
    if task[0] == 'order':
        from .rules import report_rules
        return report_rules.order_task(prog, task[1])
    if task[0] == 'report':
        from .rules import report_rules
        return getattr(report_rules, task[1] + '_task')(prog, *task[2:])
    if task[0] == 'color':
        from .rules import color_rules
        return getattr(color_rules, task[1] + '_task')(prog, *task[2:])
    if task[0] == 'info':
        from .rules import info_rules
        return getattr(info_rules, task[1] + '_task')(prog, *task[2:])
    if task[0] == 'seed':
        from .rules import seed_rules as x
        return x.lint_task(prog) if len(task) == 1 else x.entry_task(prog, task[1])
    if task[0] == 'adj':
        from .rules import adj_rules
        return getattr(adj_rules, task[1] + '_task')(prog, *task[2:])
    if task[0] == 'wrap':
        from .rules.wrap_rules import wrap_task
        return wrap_task(prog, task[1])
    if task[0] == 'pq':
        from .rules import heap_rules as x
        if task[1] in ('init', 'empty'):
            return x.init_task(prog, (pid,), task[1] == 'init')
        return {'push': x.push_task, 'pop': x.pop_task}[task[1]](prog, (pid,))
    if task[0] in ('fetch', 'qdata', 'adata'):
        from .rules import export_rules as x
        return {'fetch': x.fetch_task, 'qdata': x.queue_data_task, 'adata': x.agent_data_task}[task[0]](prog, task[1])
    raise ValueError(task)


def weight(task):
    if task[0] == 'queue':
        return {'next_event': 10}.get(task[3], 1) * {'InfoQueue': 6, 'ResourceQueue': 3, 'LossQueue': 2}.get(task[1], 1)
    return 5


ASSUME = []
PROPS = {}
