"""Internal names that were only renamed keep the name the rules know.

The rules name internal attributes and methods (`_time`, `_add_arrival`, ...).  A name of the original tree that occurs
nowhere any more is looked for among the names that are new: one that is used in the same functions, in the same way,
takes its place in the syntax trees.  names.json holds where every name was used (python3 -m sa.core.renames writes it).
"""
import ast
import json
import os
from collections import Counter

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def uses(trees):
    """{name: Counter of (file, enclosing function, kind)}, names stored on objects or defined, arguments of functions."""
    occ, defined, nargs = {}, set(), {}

    def add(n, *w):
        occ.setdefault(n, Counter())['|'.join(w)] += 1

    def visit(node, f, qual, cls=False):
        for x in ast.iter_child_nodes(node):
            q = qual
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(x, ast.FunctionDef) and not any('<' in p for p in qual):
                    add(x.name, f, '.'.join(qual), 'def')
                    defined.add(x.name)
                    nargs.setdefault(x.name, []).append(len(x.args.args))
                q = qual + (x.name,)
            elif isinstance(x, ast.Attribute):
                store = not isinstance(x.ctx, ast.Load)
                add(x.attr, f, '.'.join(qual), 'store' if store else 'load')
                if store:
                    defined.add(x.attr)
            elif isinstance(x, ast.Name):
                add(x.id, f, '.'.join(qual), 'name')
                if cls and not isinstance(x.ctx, ast.Load):
                    defined.add(x.id)
            elif isinstance(x, ast.arg):
                add(x.arg, f, '.'.join(qual), 'arg')
            elif isinstance(x, ast.keyword) and x.arg:
                add(x.arg, f, '.'.join(qual), 'arg')
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    add(a.name, f, '.'.join(qual), 'import')
            visit(x, f, q, isinstance(x, ast.ClassDef) or cls and isinstance(x, (ast.Assign, ast.AnnAssign)))
    for f, t in sorted(trees.items()):
        visit(t, f, ())
    return occ, defined, {n: sorted(v) for n, v in nargs.items()}


def alike(a, b):
    both, one = sum((a & b).values()), sum((a | b).values())
    return both / one if one else 0.0


def coarse(c, gone):
    """Uses without the names of functions that were renamed themselves."""
    out = Counter()
    for k, v in c.items():
        f, q, w = k.split('|')
        out['|'.join((f, '.'.join('?' if p in gone else p for p in q.split('.')), w))] += v
    return out


def renames(trees):
    if not os.path.isfile(TABLE):
        return {}
    with open(TABLE) as fh:
        old = json.load(fh)
    occ, defined, nargs = uses(trees)
    lost = [n for n in old['defined'] if n not in occ]
    new = [n for n in defined if n not in old['known']]
    if not lost or not new:
        return {}
    gone = set(lost) | set(new)
    score = []
    for n in lost:
        a = coarse(Counter(old['uses'][n]), gone)
        for m in new:
            if old['args'].get(n) != nargs.get(m):
                continue
            s = alike(a, coarse(occ[m], gone))
            if s >= 0.6:
                score.append((s, n, m))
    out, taken = {}, set()
    for s, n, m in sorted(score, key=lambda x: (-x[0], x[1], x[2])):
        if n in taken or m in out:
            continue
        if any(s2 == s and (n2 == n) != (m2 == m) and n2 not in taken and m2 not in out for s2, n2, m2 in score):
            continue                # not clear which
        out[m] = n
        taken.add(n)
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, to):
        self.to = to

    def visit_Attribute(self, x):
        self.generic_visit(x)
        x.attr = self.to.get(x.attr, x.attr)
        return x

    def visit_FunctionDef(self, x):
        self.generic_visit(x)
        x.name = self.to.get(x.name, x.name)
        return x

    def visit_Name(self, x):
        x.id = self.to.get(x.id, x.id)
        return x

    def visit_alias(self, x):
        x.name = self.to.get(x.name, x.name)
        return x

    def visit_Constant(self, x):
        if isinstance(x.value, str) and x.value in self.to and x.value.startswith('_'):
            x.value = self.to[x.value]
        return x


if __name__ == '__main__':
    from .frontend import Program
    trees = Program(rename=False).trees()
    occ, defined, nargs = uses(trees)
    with open(TABLE, 'w') as fh:
        json.dump({'defined': sorted(defined), 'known': sorted(occ), 'args': {n: nargs[n] for n in sorted(nargs)},
                   'uses': {n: dict(sorted(occ[n].items())) for n in sorted(defined)}}, fh, indent=0, sort_keys=True)
        fh.write('\n')
