"""Environment of code that works on the graph of a network: vertices, edges, edge
indices and properties as structural terms.

  ('edges', G)            the edges in iteration order; i-th: (('eu',G,i), ('ev',G,i))
  sorted edges            i-th: (('su',G,i), ('sv',G,i))
  ('eidx', G, u, v)       edge_index[(u, v)]
  ('nodes', G)            i-th: ('node', G, i)
  ('oe', G, v)            out edges of v; j-th: (v, ('ot',G,v,j)), sorted: (v, ('st',G,v,j))
  ('ie', G, v)            in edges of v; j-th: (('is',G,v,j), v), sorted: (('sis',G,v,j), v)
  ('ep', G, name, u, v)   edge property; ('vp', G, name, v) vertex property
"""
from .netenv import *  # noqa

NG = ('attr', NET, 'g')
GCLS = 'queueing_tool.graph.graph_wrapper.QueueNetworkDiGraph'
ROUTES = ('attr', NET, '_route_probs')
SORTED = ('call', 'builtins.sorted')


def other_order(k):
    """Is the sequence of edges or vertices, sorted in some way, surely not always in increasing order?"""
    if not (isinstance(k, tuple) and k[:2] == SORTED and len(k) > 3 and isinstance(k[2], tuple)):
        return False
    kw = {x[1]: x[2] for x in k[3:] if isinstance(x, tuple) and x[:1] == ('kw',)}
    by = kw.pop('key', None)
    rev = kw.pop('reverse', None)
    if kw or rev is not None and rev != ('c', 'bool', True) or k[2][0] not in ('edges', 'nodes', 'oe', 'ie'):
        return False
    if by is None:
        return rev is not None
    if isinstance(by, tuple) and by and by[0] in ('str', 'repr'):
        return True             # 10 comes before 2
    g = k[2][1]
    if k[2][0] in ('oe', 'ie'):
        t = ('ot' if k[2][0] == 'oe' else 'is', g, k[2][2], ('bound',))
        if isinstance(by, tuple) and by[:1] == ('lin',) and len(by[1]) == 1 and by[1][0][0] == t:
            return (by[1][0][1] < 0) != (rev is not None)
        return by == t and rev is not None
    if k[2][0] != 'edges':
        return False
    u, w = (('eu', g, ('bound',)), ('ev', g, ('bound',)))

    def sign(x):
        """(which end, direction) of a component."""
        if x in (u, w):
            return x, 1
        if isinstance(x, tuple) and x[:1] == ('lin',) and len(x[1]) == 1 and x[1][0][0] in (u, w):
            return x[1][0][0], 1 if x[1][0][1] > 0 else -1
        return None
    cs = [sign(x) for x in by[1:]] if by[:1] == ('tup',) else [sign(by)]
    if None in cs:
        return False
    if rev is not None:
        cs = [(a, -b) for a, b in cs]
    return cs[:2] != [(u, 1), (w, 1)]


def nE(g):
    return atom(('nE', g))


def nV(g):
    return atom(('nV', g))


def outdeg(g, v):
    return atom(('outdeg', g, v))


def indeg(g, v):
    return atom(('indeg', g, v))


def eidx(g, u, v):
    return Sym(('eidx', g, u, v))


class GraphCfg(NetCfg):
    """graphs: keys of the objects that are graphs; own: analyse the methods of the
    graph class itself instead of using their contracts."""
    graphs = (NG,)
    own = False
    inline = ()

    def __init__(self, acls='Agent', **kw):
        NetCfg.__init__(self, acls, **kw)

    # -- naming
    def isg(self, k):
        return k in self.graphs

    def typeof(self, it, k):
        if k in self.graphs:
            return GCLS
        return NetCfg.typeof(self, it, k)

    INTS = ('eidx', 'node', 'eu', 'ev', 'su', 'sv', 'ot', 'st', 'is', 'sis', 'nE', 'nV', 'indeg', 'outdeg', 'sel')

    def is_int(self, a):
        if isinstance(a, tuple) and a and a[0] in self.INTS:
            return True
        return NetCfg.is_int(self, a)

    def parts(self, it, v):
        """(kind, graph, vertex, sorted?) of a sequence of edges or vertices."""
        k = it.deep(v)
        srt = False
        if isinstance(k, tuple) and k[:2] == SORTED and len(k) == 3:
            srt, k = True, k[2]
        if not isinstance(k, tuple):
            return None
        if k and k[0] in ('edges', 'nodes', 'oe', 'ie', 'succ', 'pred'):
            return k, srt
        if srt and k and k[0] == 'map' and len(k) == 5 and not k[3] and not k[4]:
            # sorting all the targets (sources) gives those of the sorted edges
            src, e = k[1], k[2]
            if isinstance(src, tuple) and src[0] in ('oe', 'ie', 'succ', 'pred', 'edges') and \
                    e == self.jth(src, ('bound',), False):
                return src, True
            for a, b, c in (('oe', 'ot', 'succ'), ('ie', 'is', 'pred')):
                if src[0] == a and e == (b,) + src[1:] + (('bound',),):
                    return (c,) + src[1:], True
        return None

    def same_order(self, it, seq, probe, k):
        """Does sorting by k sort the elements themselves?  (All out edges of a vertex share their source.)"""
        if isinstance(seq, tuple) and seq[:1] in (('oe',), ('ie',)) and isinstance(probe, tuple) and \
                probe[:1] == ('tup',) and len(probe) == 3:
            return k == (probe[2] if seq[0] == 'oe' else probe[1])
        return False

    def jth(self, k, j, srt):
        """Key of the j-th element."""
        if k[0] == 'edges':
            a, b = ('su', 'sv') if srt else ('eu', 'ev')
            return ('tup', (a, k[1], j), (b, k[1], j))
        if k[0] == 'nodes':
            return ('snode' if srt else 'node', k[1], j)
        if k[0] == 'oe':
            return ('tup', k[2], ('st' if srt else 'ot', k[1], k[2], j))
        if k[0] == 'ie':
            return ('tup', ('sis' if srt else 'is', k[1], k[2], j), k[2])
        if k[0] == 'succ':
            return ('st' if srt else 'ot', k[1], k[2], j)
        return ('sis' if srt else 'is', k[1], k[2], j)

    def elem(self, it, v, i):
        p = self.parts(it, v)
        if p is not None:
            r = from_key(self.jth(p[0], key(i), p[1]))
            return r
        if isinstance(v, Sym) and v.key[0] == 'nout':
            return self.norm_item(it, v, i)
        if isinstance(v, Sym) and v.key[0] == 'eall':
            kk = self.jth(('edges', v.key[1]), key(i), False)
            return from_key(kk)
        if isinstance(v, Sym) and v.key == ('attr', NET, '_route_probs'):
            return Sym(('rp', key(i)))
        if isinstance(v, Sym) and v.key == E2Q:
            self.know(it, qk(i))
            return Sym(qk(i))
        return None

    def length(self, it, v):
        p = self.parts(it, v)
        if p is not None:
            return self.count(it, p[0])
        if isinstance(v, Sym):
            k = v.key
            if k[:2] == SORTED and len(k) > 3 and isinstance(k[2], tuple) and k[2][:1] in (
                    ('edges',), ('nodes',), ('oe',), ('ie',), ('succ',), ('pred',)):
                return self.count(it, k[2])
            if k == E2Q:
                return self.pos(it, nE(NG))
            if k == ROUTES or k in (('attr', NET, 'out_edges'), ('attr', NET, 'in_edges')):
                return self.pos(it, nV(NG))
            if k[0] == 'nout' or k[0] == 'rp':
                return self.pos(it, outdeg(NG, k[1]))
            if k[0] == 'nin':
                return self.pos(it, indeg(NG, k[1]))
            if k in self.graphs:
                return self.pos(it, nV(k))
            if k[0] == 'eindex':
                return self.pos(it, nE(k[1]))
        return None

    def count(self, it, k):
        return self.pos(it, {'edges': lambda: nE(k[1]), 'nodes': lambda: nV(k[1]), 'oe': lambda: outdeg(k[1], k[2]),
                             'ie': lambda: indeg(k[1], k[2]), 'succ': lambda: outdeg(k[1], k[2]),
                             'pred': lambda: indeg(k[1], k[2])}[k[0]]())

    def pos(self, it, a):
        it.assume(a.scale(-1), '<=')
        return a

    def norm_item(self, it, base, idx):
        if isinstance(base, Sym):
            k = base.key
            if k[0] == 'at' and len(k) == 3:
                k = k[1]
            if k[0] == 'eindex':
                if isinstance(idx, Tup) and len(idx.items) == 2:
                    return self.index(it, k[1], key(idx.items[0]), key(idx.items[1]))
                ik = key(idx)
                return self.index(it, k[1], ('item', ik, ('c', 0)), ('item', ik, ('c', 1)))
            if k == ROUTES:
                return Sym(('rp', key(idx)))
            if k == ('attr', NET, 'out_edges'):
                return Sym(('nout', key(idx)))
            if k == ('attr', NET, 'in_edges'):
                return Sym(('nin', key(idx)))
            if k[0] == 'nout':
                return self.index(it, NG, k[1], ('st', NG, k[1], key(idx)))
            if k[0] == 'nin':
                return self.index(it, NG, ('sis', NG, k[1], key(idx)), k[1])
            if k[0] == 'adj':
                return Sym(('succ', k[1], key(idx)))
            if k in self.graphs:
                return Sym(('succ', k, key(idx)))
            if k[0] == 'succ':
                return Sym(('eattr', k[1], k[2], key(idx)))
            if k[0] == 'edges' and isinstance(idx, Tup) and len(idx.items) == 2:
                return Sym(('eattr', k[1], key(idx.items[0]), key(idx.items[1])))
            if k[0] == 'edges' and not isinstance(idx, Lin):
                return Sym(('eattr', k[1], ('item', key(idx), ('c', 0)), ('item', key(idx), ('c', 1))))
            if k[0] == 'nodes':
                return Sym(('vattr', k[1], key(idx)))
            if k[0] == 'eattr' and isinstance(idx, Const):
                return Sym(('ep', k[1], idx.v, k[2], k[3]))
            if k[0] == 'vattr' and isinstance(idx, Const):
                return Sym(('vp', k[1], idx.v, k[2]))
            p = self.parts(it, base)
            if p is not None and p[1] and isinstance(idx, Lin):
                return from_key(self.jth(p[0], key(idx), True))
        return NetCfg.norm_item(self, it, base, idx)

    def index(self, it, g, u, v):
        if u[0] == 'su' and v[0] == 'sv' and u[2] == v[2] and self.canonical:
            return from_key(u[2])
        r = ('eidx', g, u, v)
        it.assume(atom(r).scale(-1), '<=')
        it.assume(atom(r) - nE(g) + const(1), '<=')
        return Sym(r)

    canonical = False

    def init_attr(self, it, okey, name):
        if okey in self.graphs:
            if name in ('edges', 'nodes'):
                return Sym((name, okey))
            if name in ('adj', '_adj', 'succ', '_succ'):
                return Sym(('adj', okey))
            if name == 'edge_index':
                return Sym(('eindex', okey))
            if name in ('pos', 'edge_color', 'vertex_color', 'vertex_fill_color', '_nE'):
                return Sym(('attr', okey, name))
            return None
        if okey == NET and name in ('nE', 'nV'):
            return nE(NG) if name == 'nE' else nV(NG)
        if okey[0] == 'Q' and len(okey) == 2 and name == 'edge' and okey[1][0] == 'eidx':
            _, g, u, v = okey[1]
            return Tup([from_key(u), from_key(v), from_key(okey[1]), Sym(('ep', g, 'edge_type', u, v))])
        return NetCfg.init_attr(self, it, okey, name)

    def dict_get(self, it, o, args, node):
        k = o.key
        if k[0] in ('eattr', 'vattr') and isinstance(args[0], Const):
            return self.norm_item(it, o, args[0])
        return NotImplemented

    def call(self, it, f, args, kw, node):
        if isinstance(f, Sym):
            k = f.key
            if k[0] in ('edges', 'nodes') and k[1] in self.graphs:
                if not args and not [x for x in kw.values() if not (isinstance(x, Const) and x.v is False)]:
                    return f
                return NotImplemented
        name, o = None, None
        if isinstance(f, ExtMeth):
            name, o = f.name, f.self_
        elif isinstance(f, Bound) and isinstance(f.self_, Sym) and f.self_.key in self.graphs:
            name, o = f.fn.node.name, f.self_
            if self.own or name in self.inline:
                return NetCfg.call(self, it, f, args, kw, node)
        elif isinstance(f, Ext) and f.name == 'builtins.len' and len(args) == 1 and isinstance(args[0], ExtMeth):
            return NetCfg.call(self, it, f, args, kw, node)
        if isinstance(o, SuperV):
            o = o.self_
        if isinstance(o, Sym) and o.key in self.graphs:
            r = self.graph_op(it, o.key, name, args, kw, node)
            if r is not NotImplemented:
                return r
        return NetCfg.call(self, it, f, args, kw, node)

    def graph_op(self, it, g, name, args, kw, node):
        def arg(i, *names):
            if i < len(args):
                return args[i]
            for n in names:
                if n in kw:
                    return kw[n]
            return None
        n = len(args) + len(kw)
        if name in ('number_of_nodes', 'order', '__len__') and n == 0:
            return self.pos(it, nV(g))
        if name in ('number_of_edges', 'size') and n == 0:
            return self.pos(it, nE(g))
        if name in ('out_edges', 'in_edges') and n == 1:
            v = arg(0, 'nbunch')
            if isinstance(v, Sym) and it.content(v) is not None or isinstance(v, (Tup, View)):
                return NotImplemented
            return Sym(('oe' if name == 'out_edges' else 'ie', g, key(v)))
        if name in ('successors', 'neighbors', 'predecessors') and n == 1:
            return Sym(('pred' if name == 'predecessors' else 'succ', g, key(arg(0, 'n'))))
        if name == 'out_neighbours' and n == 1:
            return Sym(('succ', g, key(arg(0, 'v'))))
        if name in ('out_degree', 'in_degree') and n == 1:
            return self.pos(it, (outdeg if name == 'out_degree' else indeg)(g, key(arg(0, 'nbunch'))))
        if name == 'is_directed' and n == 0:
            return TRUE
        if name == 'is_multigraph' and n == 0:
            return FALSE
        if name == 'is_edge' and n == 1:
            e = arg(0, 'e')
            return Const(it.decide_in(e, Sym(('eindex', g)), node))
        if name == 'has_edge' and n == 2:
            return Const(it.decide_in(Tup([arg(0, 'u'), arg(1, 'v')]), Sym(('eindex', g)), node))
        if name in ('has_node', '__contains__') and n == 1:
            return Const(it.decide_in(arg(0, 'n'), Sym(('nodes', g)), node))
        if self.own:
            return NotImplemented
        if name in ('ep', 'vp') and n == 2:
            e, p = arg(0, 'e', 'v'), arg(1, 'edge_property', 'vertex_property')
            if isinstance(p, Const):
                if name == 'vp':
                    b = Sym(('vattr', g, key(e)))
                else:
                    b = Sym(('eattr', g, key(it.item(e, const(0), node)), key(it.item(e, const(1), node))))
                return it.item(b, p, node)
            return NotImplemented
        if name in ('set_ep', 'set_vp') and n == 3:
            e, p, x = arg(0, 'e', 'v'), arg(1, 'edge_property', 'vertex_property'), arg(2, 'value')
            it.event('gset', name, [Sym(g), e, p, x], node)
            if isinstance(p, Const):
                if name == 'set_vp':
                    b = Sym(('vattr', g, key(e)))
                else:
                    b = Sym(('eattr', g, key(it.item(e, const(0), node)), key(it.item(e, const(1), node))))
                ov = dict(it.st.items.get(b.key, {}))
                ov[key(p)] = (p, x)
                it.st.items[b.key] = ov
            return NONE
        if name in ('draw_graph', 'lines_scatter_args', 'set_pos', 'freeze', 'new_edge_property',
                    'new_vertex_property'):
            it.event('gop', name, [Sym(g)] + list(args), node, kw=kw)
            return it.fresh('gres.' + name)
        if name in ('vertex_properties', 'edge_properties') and n == 0:
            return Sym(('props', name, g))
        if name == 'get_edge_type' and n == 1:
            return NotImplemented
        return NotImplemented

    def distinct(self, it, a, b):
        ka, kb = key(a), key(b)
        return NetCfg.distinct(self, it, a, b)
