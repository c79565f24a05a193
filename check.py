#!/usr/bin/env python3
"""Decide one property of queueing-tool from its current source.

    check.py <property> [--thorough]

Exit 0: the property holds on everything analysed (known findings are printed);
exit 1: a VIOLATION line names the property and the file with the offending
construct; exit 2: the analysis could give no answer.
"""
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from sa.core.frontend import Program, AnchorMissing, Unsupported  # noqa: E402
from sa.rules.common import Obligations  # noqa: E402
from sa import tasks as T  # noqa: E402
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta  # noqa: E402

PROG = None


def work(job):
    pid, task = job
    t0 = time.time()
    try:
        ob = T.run(PROG, pid, task)
    except AnchorMissing as e:
        ob = Obligations()
        ob.missing.append(str(e))
    except Exception as e:      # the engine met source it has no model for
        ob = Obligations()
        ob.check(pid, 'analysis', None, str(task), 'not analysed: %s: %s' % (type(e).__name__, e))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    return task, ob, time.time() - t0


def function_of(where):
    """file::function of a location, for identities that survive line changes."""
    m = re.match(r'([\w/.]+):(\d+)', where or '')
    if not m:
        return where or '?'
    rel, line = m.group(1), int(m.group(2))
    best = None
    for mod in PROG.mods.values():
        if mod is None or mod.rel != rel:
            continue
        import ast

        def rec(n, q):
            nonlocal best
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    end = getattr(c, 'end_lineno', None) or c.lineno
                    last = max([getattr(x, 'lineno', 0) for x in ast.walk(c)] + [end])
                    if c.lineno <= line <= last:
                        best = q + [c.name]
                        rec(c, q + [c.name])
                else:
                    rec(c, q)
        rec(mod.tree, [])
    return rel + '::' + ('.'.join(best) if best else '<module>')


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) site=(\S+) rule="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    global PROG
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv or (
        os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv) else 'quick'
    pid = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        PROG = Program()
        PROG.all_modules()
    except (SyntaxError, Unsupported) as e:
        print('ERROR: the source cannot be read: %s' % e)
        return 2
    jobs = [(pid, t) for t in T.tasks(pid, tier)]
    total = Obligations()
    times = []
    n = min(len(jobs), int(os.environ.get('VERIF_JOBS', '0') or 0) or os.cpu_count() or 4)
    heavy = sorted(jobs, key=lambda j: T.weight(j[1]), reverse=True)
    if n <= 1:
        res = map(work, heavy)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(n)
        res = pool.imap_unordered(work, heavy)
    for task, ob, dt in res:
        total.merge(ob)
        times.append((round(dt, 1), ' '.join(map(str, task)).strip()))
    if pool:
        pool.close()
        pool.join()

    known = known_findings(pid)
    fails, listed = {}, {}
    for f in total.fails:
        if f['property'] != pid:
            continue
        site = function_of(f['where'])
        k = (site, f['rule'])
        hit = [x for x in known if x[0] == site and x[1] == f['rule']]
        (listed if hit else fails).setdefault(k, (f, hit))
    ok = {k[1]: v for k, v in sorted(total.ok.items()) if len(k) == 2 and k[0] == pid}
    opened = {k[1]: v for k, v in sorted(total.ok.items()) if len(k) == 3 and k[0] == pid}
    n_ok, n_open = sum(ok.values()), sum(opened.values())
    paths = {}
    for (label, kind), v in sorted(total.paths.items()):
        paths.setdefault(label, {})[kind] = v
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for x in os.listdir(rdir):
        if x.startswith(pid + '-'):
            os.remove(os.path.join(rdir, x))
    files = []
    for i, ((site, rule), (f, _)) in enumerate(sorted(fails.items(), key=lambda x: x[0])):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i + 1))
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'site': site, 'where': f['where'], 'rule': rule, 'message': f['message'],
                       'path': f['path']}, fh, indent=1)
        files.append(path)
        print('%s: %s [%s] (%s)' % (f['where'], f['message'], rule, site))
    for (site, rule), (f, hit) in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][2]))
    samples = [{'rule': r, 'site': s, 'discharged': ok.get(r, 0)} for (p, r), s in sorted(total.samples.items())
               if p == pid]
    info = next((p for p in meta.P if p['id'] == pid), {})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source, nothing executed. %s Every control-flow path of '
                           'the entry points below was propagated from an abstract pre-state covering every '
                           'input/state the property quantifies over; each count is the number of obligations of '
                           'that rule generated and discharged on those paths in this run.' % info.get('how', ''),
            'rules': ok,
            'undecided': opened,
            'undecided_cases': [o for o in total.open if o['property'] == pid][:20],
            'obligations_discharged': n_ok,
            'obligations_undecided': n_open,
            'obligations_failed': len(total.fails),
            'entry_points': paths,
            'functions_analysed': sorted('%s:%s' % x for x in total.functions),
            'sites_analysed': sorted(total.sites)[:400],
            'known_findings_seen': [list(k) for k in sorted(listed)],
            'anchors_missing': total.missing,
            'samples': samples,
            'slowest': sorted(times, reverse=True)[:5],
        },
        'assumptions': T.ASSUME + info.get('assume', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fails),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if fails:
        for f in files:
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if total.missing and n_ok <= n_open:
        print('ERROR: no obligation of %s could be decided%s' % (
            pid, ' (missing: %s)' % '; '.join(total.missing) if total.missing else ''))
        return 2
    if n_ok == 0 and n_open == 0:
        print('ERROR: %s has no obligations' % pid)
        return 2
    if n_ok == 0:
        print('%s: no violation found, but none of its %d obligations could be decided' % (pid, n_open))
        return 0
    print('%s holds: %d obligations discharged on %d paths, %d not decided (%.1f s)' % (
        pid, n_ok, sum(sum(v.values()) for v in paths.values()), n_open, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
