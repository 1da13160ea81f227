"""Graph transforms (T01, T02): an index-space analysis of the tensor expressions.

Every tensor expression is given the space it ranges over: all nodes, an enumeration of the surviving nodes, the edges, the
surviving edges. Indexing is typed by these spaces, so that two arrays are aligned exactly when they have the same one."""
import ast

from . import prop
from ..lib import *
from ..terms import T, mk, const, num

TR = PKG + 'transforms.'
SELF = mk('param', 'self')
PER_NODE = ('x', 'y', 'train_mask', 'val_mask', 'test_mask')
MAYBE = ('label', 'node_hash')
RANDOM = {'torch.randperm', 'torch.rand', 'torch.randint', 'torch.bernoulli', 'numpy.random.permutation', 'numpy.random.choice', 'random.sample', 'torch.rand_like',
          'torch.multinomial', 'torch.empty'}
CASTS = {'to', 'long', 'bool', 'contiguous', 'clone', 'cpu', 'cuda', 'detach', 'int', 'float', 'view', 'reshape', 'flatten', 'squeeze', 'type', 'double', 'requires_grad_'}


class Space:
    def __init__(self, p, data):
        self.p, self.data = p, data
        self.stores = {}
        for e, ch in walk(p.events):
            if e.a[0] == 'store' and dargs(e)[0] is not data:
                self.stores.setdefault(dargs(e)[0], []).append((dargs(e)[1], dargs(e)[2], ch))
        self.memo = {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self.type(t)
        return self.memo[t]

    def field(self, t):
        if t.op == 'attr' and t.a[0] is self.data:
            return t.a[1]
        if t.op == 'item' and t.a[0] is self.data and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
            return t.a[1].a[0]
        return None

    def made(self, t, name):
        """call made through torch, also as a method: (arguments, keywords) or None"""
        while t.op == 'res':
            t = t.a[0]
        if t.op == 'call' and t.a[0] in ('torch.' + name, 'numpy.' + name, name):
            return t.a[1], dict(t.a[2])
        if t.op in ('mcall', 'mres') and t.a[1] == name:
            return (t.a[0],) + tuple(t.a[2]), dict(t.a[3]) if t.op == 'mcall' and len(t.a) > 3 and isinstance(t.a[3], tuple) else {}
        return None

    def type(self, t):
        f = self.field(t)
        if f is not None:
            if f == 'num_nodes':
                return ('size', 'ALL')
            if f == 'edge_index':
                return ('ei', None, None)
            if f == 'edge_attr':
                return ('ea', None)
            return ('node', f, 'ALL')
        if t.op in ('mcall', 'mres') and t.a[1] in CASTS and t.op == 'mcall':
            s = self.of(t.a[0])
            if s and s[0] == 'number' and kind_of(t.a[1], t.a[2]) in s[2]:
                return s[1]
            return s
        if t.op == 'mcall' and t.a[1] == 't' or t.op == 'attr' and t.a[1] == 'data':
            return None
        n = self.size(t)
        if n is not None:
            return n
        m = self.made(t, 'arange')
        if m and len(m[0]) == 1:
            n = self.of(m[0][0])
            if n == ('size', 'ALL'):
                return ('ids', 'ALL')
            if n and n[0] == 'size':
                return ('places', n[1])
            return None
        m = self.made(t, 'randperm')
        if m and len(m[0]) == 1 and self.of(m[0][0]) == ('size', 'ALL'):
            return ('ids', ('perm', t))
        m = self.made(t, 'rand')
        if m and len(m[0]) == 1 and self.of(m[0][0]) == ('size', 'ALL'):
            return ('noise', t)
        if t in self.stores and (self.made(t, 'zeros') or self.made(t, 'full') or self.made(t, 'ones') or self.made(t, 'empty') or self.made(t, 'zeros_like')):
            return self.scattered(t)
        m = self.made(t, 'isin')
        if m and len(m[0]) == 2 and self.of(m[0][0]) == ('ids', 'ALL'):
            s = self.of(m[0][1])
            flip = m[1].get('invert')
            if s and s[0] == 'ids':
                pred = ('in', s[1])
                return ('mask', pred if flip is None or flip is const(False) else negate(pred))
        if t.op in ('inv', 'not') or self.made(t, 'logical_not'):
            a = t.a[0] if t.op in ('inv', 'not') else self.made(t, 'logical_not')[0][0]
            s = self.of(a)
            if s and s[0] == 'mask':
                return ('mask', negate(s[1]))
        if t.op == 'lt' or t.op == 'cmp':
            parts = [x for x in t.a if isinstance(x, T)]
            if any((self.of(x) or ('',))[0] == 'noise' for x in parts):
                return ('mask', ('atom', t))
        if t.op == 'not' and t.a[0].op == 'lt':
            return None
        m = self.made(t, 'nonzero') or self.made(t, 'where')
        if m and len(m[0]) == 1:
            s = self.of(m[0][0])
            return ('ids', where(s[1])) if s and s[0] == 'mask' else s if s and s[0] == 'edges' else None
        if t.op == 'item' and self.made(t.a[0], 'where') and t.a[1] is const(0):
            return self.of(t.a[0])
        m = self.made(t, 'sort')
        if t.op == 'item' and t.a[1] is const(0) and self.made(t.a[0], 'sort'):
            s = self.of(self.made(t.a[0], 'sort')[0][0])
            return ('ids', where(('in', s[1]))) if s and s[0] == 'ids' else None
        m = self.made(t, 'cumsum')
        if t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[0] == -1:
            m = self.made(t.a[1][0][0], 'cumsum')
            s = self.of(m[0][0]) if m else None
            if s and s[0] == 'mask':
                return ('pos', where(s[1]))
        if t.op == 'bin' and t.a[0] == '&' or self.made(t, 'logical_and'):
            a, b = (t.a[1], t.a[2]) if t.op == 'bin' else self.made(t, 'logical_and')[0]
            x, y = self.of(a), self.of(b)
            if x and y and x[0] == y[0] == 'end' and {x[1], y[1]} == {0, 1} and x[2] == y[2]:
                return ('edges', x[2])
            if x and y and x[0] == y[0] == 'mask':
                return ('mask', ('and', frozenset((x[1], y[1]))))
            return None
        m = self.made(t, 'all')
        if m:
            s = self.of(m[0][0])
            d = m[1].get('dim', m[0][1] if len(m[0]) > 1 else None)
            if s and s[0] == 'ends' and d is const(0):
                return ('edges', s[1])
        if t.op == 'item':
            return self.indexed(t)
        if t.op == 'call' and t.a[0] in ('torch_geometric.utils.subgraph',):
            return None
        return None

    def size(self, t):
        """number of elements of something"""
        of = None
        if t.op == 'item' and t.a[1] is const(0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
            of = t.a[0].a[0]
        elif t.op in ('mcall', 'mres') and t.a[1] in ('size', 'numel', 'nelement') and (t.a[1] != 'size' or t.a[2] == (const(0),)):
            of = t.a[0]
        elif t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1:
            of = t.a[1][0]
        elif t.op == 'call' and t.a[0] in ('int', 'torch.sum', 'torch.count_nonzero') and len(t.a[1]) == 1:
            s = self.of(t.a[1][0])
            if s and s[0] == 'size':
                return s
            return ('size', where(s[1])) if s and s[0] == 'mask' else None
        elif t.op in ('mcall', 'mres') and t.a[1] in ('sum', 'item', 'count_nonzero') and not t.a[2]:
            s = self.of(t.a[0])
            if s and s[0] == 'size':
                return s
            return ('size', where(s[1])) if s and s[0] == 'mask' else None
        if of is None:
            return None
        s = self.of(of)
        if s and s[0] == 'ids':
            return ('size', s[1])
        if s and s[0] == 'node':
            return ('size', s[2])
        if s and s[0] == 'mask':
            return ('size', 'ALL')
        return None

    def scattered(self, o):
        st = self.stores[o]
        m = next(self.made(o, n) for n in ('zeros', 'full', 'ones', 'empty', 'zeros_like') if self.made(o, n))
        sz = m[0][0]
        while sz.op in ('tuple', 'list') and len(sz.a) == 1:
            sz = sz.a[0]
        if self.of(sz) != ('size', 'ALL') and not self.enough(sz) and not (self.made(o, 'zeros_like') and self.of(sz) in (('ids', 'ALL'),)):
            return None
        if len(st) != 1 or st[0][2]:
            return None
        key, v, _ = st[0]
        s, w = self.of(key), self.of(v)
        if not s or s[0] not in ('ids', 'mask'):
            return None
        enum = s[1] if s[0] == 'ids' else where(s[1])
        out = fits = None
        if v in (const(1), const(True)) and self.made(o, 'zeros'):
            out, fits = ('mask', ('in', enum)), ('bool',)
        elif v in (const(0), const(False)) and self.made(o, 'ones'):
            out, fits = ('mask', negate(('in', enum))), ('bool',)
        elif w == ('places', enum):
            out, fits = ('pos', enum), ('int',)
        if out is None:
            return None
        # an array of numbers is no selection, and one of floats holds no positions, before it is converted
        if m[1].get('dtype') is not None:
            holds_ = kind_of('to', (m[1]['dtype'],))
        elif self.made(o, 'zeros_like'):
            holds_ = 'int'
        elif self.made(o, 'full'):
            fill = m[0][1] if len(m[0]) > 1 else m[1].get('fill_value')
            holds_ = 'bool' if fill in (const(True), const(False)) else 'int' if fill is not None and fill.op == 'const' and isinstance(fill.a[0], int) else 'float'
        else:
            holds_ = 'float'
        return out if holds_ in fits else ('number', out, fits)

    def enough(self, sz):
        return False

    def indexed(self, t):
        base, i = self.of(t.a[0]), t.a[1]
        if base is None:
            return None
        if base[0] == 'ids' and i.op == 'slice':
            # part of an enumeration
            return ('ids', ('part', base[1], i))
        s = self.of(i) if i.op != 'tuple' else None
        if base == ('ids', 'ALL') and s:
            return ('ids', where(s[1])) if s[0] == 'mask' else s if s[0] == 'ids' else None
        if base[0] == 'ids' and s and s[0] == 'mask':
            return None
        if base[0] == 'node' and base[2] == 'ALL' and s:
            return ('node', base[1], where(s[1]) if s[0] == 'mask' else s[1]) if s[0] in ('mask', 'ids') else None
        if base[0] == 'ei':
            if num(i) and i.a[0] in (0, 1):
                return ('row', int(i.a[0]), base[1])
            if i.op == 'tuple' and len(i.a) == 2 and i.a[0] is mk('slice', NONE, NONE, NONE) and base[1] is None:
                s = self.of(i.a[1])
                return ('ei', s[1], base[2]) if s and s[0] == 'edges' else None
            if i.op == 'tuple' and len(i.a) == 2 and num(i.a[0]) and i.a[1] is mk('slice', NONE, NONE, NONE):
                return ('row', int(i.a[0].a[0]), base[1])
            return None
        if base[0] == 'ea':
            return ('ea', s[1]) if s and s[0] == 'edges' and base[1] is None else None
        if base[0] == 'mask' and s and base[1][0] == 'in':
            if s[0] == 'row' and s[2] is None:
                return ('end', s[1], base[1][1])
            if s[0] == 'ei' and s[1] is None and s[2] is None:
                return ('ends', base[1][1])
        if base[0] == 'mask' and s:
            enum = where(base[1])
            if s[0] == 'row' and s[2] is None:
                return ('end', s[1], enum)
            if s[0] == 'ei' and s[1] is None and s[2] is None:
                return ('ends', enum)
        if base[0] == 'ends' and num(i) and i.a[0] in (0, 1):
            return ('end', int(i.a[0]), base[1])
        if base[0] == 'pos' and s and s[0] == 'ei' and s[2] is None:
            return ('ei', s[1], base[1])
        return None


def kind_of(cast, given):
    """what the elements are after a cast"""
    names = {'bool': 'bool', 'uint8': 'bool', 'long': 'int', 'int': 'int', 'int64': 'int', 'int32': 'int', 'int16': 'small', 'short': 'small', 'int8': 'small', 'bool_': 'bool'}
    if cast in ('to', 'type') and given:
        for x in subterms(given[0]):
            for n in x.a:
                if isinstance(n, str) and n.rpartition('.')[2] in names:
                    return names[n.rpartition('.')[2]]
    return names.get(cast, 'float')


def negate(p):
    return p[1] if p[0] == 'not' else ('not', p)


def where(p):
    """the ascending enumeration of the nodes of a mask"""
    if p[0] == 'in' and isinstance(p[1], tuple) and p[1][0] == 'where':
        return p[1]
    return ('where', p)


def same_nodes(a, b):
    """two enumerations list the same nodes, whatever the order"""
    def canon(e):
        if isinstance(e, tuple) and e[0] == 'where' and e[1][0] == 'in':
            return canon(e[1][1])
        return e
    return canon(a) == canon(b)


def assigned(p, data):
    out = {}
    for e, ch in walk(p.events):
        a = dargs(e)
        if a[0] is not data:
            continue
        if e.a[0] == 'setattr':
            out[a[1]] = (a[2], ch)
        elif e.a[0] == 'store':
            out[a[1].a[0] if a[1].op == 'const' else None] = (a[2], ch)
        elif e.a[0] in ('delattr', 'delitem'):
            out[a[1] if isinstance(a[1], str) else None] = (None, ch)
        elif e.a[0] == 'mut' and a[1] not in ('keys', 'size', 'is_undirected', 'to'):
            out[None] = (None, ch)
    return out


def get_field(p, res, name):
    """what the returned graph has under a name: (assigned?, term)"""
    a = assigned(p, res)
    if name in a:
        return True, a[name][0]
    return False, None


def missing(p, data, name):
    for a, v in p.guards.items():
        if a.op == 'isnone' and a.a[0].op in ('attr', 'item') and a.a[0].a[0] is data and (a.a[0].a[1] == name or a.a[0].a[1] is const(name)) and v:
            return True
        if a.op == 'in' and a.a[0] is const(name) and (a.a[1] is data or mentions(a.a[1], lambda x: x is data)) and not v:
            return True
        if a.op == 'truthy' and not v and a.a[0].op in ('call', 'mcall') and mentions(a.a[0], lambda x: x is const(name)) and 'hasattr' in str(a.a[0].a[0]):
            return True
    return False


def asked(p, data, name):
    """the path has asked whether the graph has the entry, or is one on which a failure was caught"""
    for a in p.guards:
        if a.op == 'exc':
            return True
        if mentions(a, lambda x: x is const(name) or x.op == 'attr' and x.a[1] == name and x.a[0] is data):
            return True
        if a.op == 'in' and a.a[0].op != 'const' and mentions(a.a[1], lambda x: x is data):
            return True
    return any(e.a[0] == 'loop' and mentions(e.a[1][0].a[0], lambda x: x is data) for e, _ in walk(p.events))


def graph_argument(en, st):
    """the entries of a graph are also its attributes"""
    en.records |= {t for t in st.env.values() if t.op == 'param' and t is not SELF}


@prop('T01', 'Index-space analysis of the node dropping transform: every tensor expression is typed by the enumeration of nodes or edges it ranges '
      'over; all per-node arrays must range over one enumeration of the survivors, the edges over those with both ends in it, relabelled by its inverse.',
      technique='index-space typing of tensor expressions over symbolic paths',
      assumptions=['boolean masks select in ascending order, integer arrays in the order given, as in PyTorch', 'a graph holds x, y, the three masks, edge_index '
                   'and edge_attr, and perhaps label and node_hash'])
def check_t01(ctx):
    ctx.rule('aligned', 'every per-node array is restricted to one and the same enumeration of surviving nodes')
    ctx.rule('edges', 'exactly the edges with both ends surviving are kept, with their attributes, under the new node positions')
    ctx.rule('count', 'the number of nodes is that of the survivors')
    ctx.rule('absent', 'entries a graph need not have are asked for before they are used')
    q = calling(ctx, 'RandomNodeDrop')
    f = ctx.p.functions[q]
    entry(ctx, 'RandomNodeDrop')
    data = mk('param', f.params[1])
    for p in ctx.run(q, setup=graph_argument):
        if p.guards.get(mk('isnone', mk('attr', data, 'num_nodes'))):
            continue
        if p.kind != 'return':
            ctx.bad('aligned', 'RandomNodeDrop', 'it raises %s' % show(p.value)[:60], f.loc())
            continue
        res = p.value
        shared = res is data or copy_of(res, data)
        if not ctx.need(shared, 'aligned', 'RandomNodeDrop', 'the result is %s' % short(p.dvalue, 60), f.loc()):
            continue
        sp = Space(p, data)
        enum = None
        for n in PER_NODE + MAYBE:
            was, t = get_field(p, res, n)
            if missing(p, data, n):
                ctx.need(not was, 'aligned', 'RandomNodeDrop: %s' % n, 'an array the graph does not have is stored', f.loc())
                continue
            if n in MAYBE:
                ctx.need(not was or t is None or asked(p, data, n), 'absent', 'RandomNodeDrop: %s' % n, 'a graph without this array is not handled', f.loc())
            s = sp.of(t) if was and t is not None else None
            if not ctx.need(s is not None and s[0] == 'node' and s[1] == n and s[2] != 'ALL', 'aligned', 'RandomNodeDrop: %s' % n,
                            'the array becomes %s' % (short(t, 80) if t is not None else 'neither restricted nor removed'), f.loc()):
                continue
            enum = enum if enum is not None else s[2]
            ctx.need(s[2] == enum, 'aligned', 'RandomNodeDrop: %s' % n, 'the array is restricted to other nodes than x (or in another order)', f.loc())
        if enum is None:
            continue
        ctx.need(distinct(enum), 'aligned', 'RandomNodeDrop: survivors', 'the surviving nodes are not chosen each at most once', f.loc())
        was, t = get_field(p, res, 'edge_index')
        s = sp.of(t) if was else None
        ctx.need(s is not None and s[0] == 'ei' and s[1] is not None and same_nodes(s[1], enum), 'edges', 'RandomNodeDrop: edge_index',
                 'the edges become %s' % (short(t, 100) if t is not None else 'unchanged'), f.loc())
        ctx.need(s is not None and s[0] == 'ei' and s[2] == enum, 'edges', 'RandomNodeDrop: edge positions', 'the edges do not refer to the new positions of the nodes', f.loc())
        was, t = get_field(p, res, 'edge_attr')
        if missing(p, data, 'edge_attr'):
            ctx.need(not was or t is NONE or t is mk('attr', data, 'edge_attr'), 'edges', 'RandomNodeDrop: edge_attr', 'attributes appear that were not there', f.loc())
        else:
            ctx.need(asked(p, data, 'edge_attr'), 'absent', 'RandomNodeDrop: edge_attr', 'a graph without edge attributes is not handled', f.loc())
            a = sp.of(t) if was and t is not None else None
            ctx.need(a is not None and a[0] == 'ea' and a[1] is not None and s is not None and s[0] == 'ei' and a[1] == s[1], 'edges', 'RandomNodeDrop: edge_attr',
                     'the attributes become %s' % (short(t, 100) if t is not None else 'unchanged'), f.loc())
        was, t = get_field(p, res, 'num_nodes')
        n = sp.of(t) if was and t is not None else None
        ctx.need(n is not None and n[0] == 'size' and same_nodes(n[1], enum), 'count', 'RandomNodeDrop: num_nodes',
                 'the number of nodes becomes %s' % (short(t, 80) if t is not None else 'stale'), f.loc())
    ctx.floor('aligned', 8)
    ctx.floor('edges', 3)


def copy_of(res, data):
    return res.op == 'copyof' and res.a[1] is data or res.op in ('mcall', 'mres') and res.a[0] is data and res.a[1] in ('clone', 'copy', '__copy__')


def distinct(enum):
    if enum == 'ALL' or enum[0] in ('where', 'perm'):
        return True
    return enum[0] == 'part' and distinct(enum[1])


def calling(ctx, name):
    """the method that is run when the transform is called"""
    c = ctx.p.cls(TR + name)
    f = c.find('__call__') or c.find('forward')
    return f.qualname if f is not None else broken(TR + name + '.__call__')


def method(c, name):
    """the method, also one defined as another name for a method: name = other"""
    g = c.find(name)
    if g is None and name in c.attrs and isinstance(c.attrs[name], ast.Name):
        return c.find(c.attrs[name].id)
    return g


def entry(ctx, name):
    """calling the transform and its forward are one and the same"""
    c = ctx.p.cls(TR + name)
    f, g = c.find('__call__'), method(c, 'forward')
    if f is None and g is not None:
        return
    if not ctx.need(g is not None, 'aligned' if name == 'RandomNodeDrop' else 'edges', name + '.forward',
                    'the abstract method forward of the base class is not defined: no %s can be made' % name, f.loc()):
        return
    ctx.need(f is g or g.node is f.node or any(
        p.kind == 'return' and mentions(p.value, lambda x: x.op in ('fcall', 'mres', 'mcall')) or p.value is not None for p in ctx.run(g.qualname)),
        'aligned' if name == 'RandomNodeDrop' else 'edges', name + '.forward', 'forward does something else than calling the transform', f.loc())


@prop('T02', 'Index-space analysis of the edge dropping transform: edges and attributes must be restricted by one and the same selection over the edges, '
      'and nothing else of the graph may change.',
      technique='index-space typing of tensor expressions over symbolic paths',
      assumptions=['copy.copy of a graph keeps all its entries'])
def check_t02(ctx):
    ctx.rule('edges', 'edges and attributes are selected by one and the same random choice over the edges')
    ctx.rule('nodes', 'no per-node array is changed')
    ctx.rule('original', 'the graph passed in keeps its edges')
    ctx.rule('absent', 'entries a graph need not have are asked for before they are used')
    q = calling(ctx, 'RandomEdgeDrop')
    f = ctx.p.functions[q]
    entry(ctx, 'RandomEdgeDrop')
    data = mk('param', f.params[1])
    ei, ea = mk('attr', data, 'edge_index'), mk('attr', data, 'edge_attr')
    E = [mk('item', mk('attr', ei, 'shape'), const(1)), mk('mcall', ei, 'size', (const(1),), ()), mk('attr', data, 'num_edges'),
         mk('item', mk('attr', ei, 'shape'), const(-1)), mk('mcall', ei, 'size', (const(-1),), ())]
    for p in ctx.run(q):
        if p.kind != 'return':
            ctx.bad('edges', 'RandomEdgeDrop', 'it raises %s' % show(p.value)[:60], f.loc())
            continue
        res = p.value
        if copy_of(res, data) or res is data:
            got = assigned(p, res)
            touched = set(got) - {'edge_index', 'edge_attr'}
            for n in PER_NODE + MAYBE + ('num_nodes',):
                ctx.need(n not in touched and None not in touched, 'nodes', 'RandomEdgeDrop: %s' % n, 'the array is changed', f.loc())
            t, a = got.get('edge_index', (None,))[0], got.get('edge_attr', (None,))[0]
        elif res.op == 'new':
            kw = ctor_fields(p, res)
            if not ctx.need(kw is not None, 'nodes', 'RandomEdgeDrop', 'the result is %s' % short(p.dvalue, 60), f.loc()):
                continue
            for n in PER_NODE:
                ctx.need(kw.get(n) is mk('attr', data, n), 'nodes', 'RandomEdgeDrop: %s' % n, 'the new graph gets %s' % (short(kw[n], 60) if n in kw else 'nothing'), f.loc())
            for n in MAYBE + ('num_nodes',):
                ctx.need(kw.get(n) is mk('attr', data, n) or kw.get(n) is mk('item', data, const(n)) or missing(p, data, n), 'nodes', 'RandomEdgeDrop: %s' % n,
                         'the new graph does not get it', f.loc())
            t, a = kw.get('edge_index'), kw.get('edge_attr')
        else:
            ctx.bad('nodes', 'RandomEdgeDrop', 'the result is %s' % short(p.dvalue, 60), f.loc())
            continue
        ctx.need(not any(e.a[0] in ('setattr', 'store') and dargs(e)[0] is data or e.a[0] == 'store' and dargs(e)[0] in (ei, ea) for e, _ in walk(p.events)) or res is data,
                 'original', 'RandomEdgeDrop', 'the graph passed in is changed', f.loc())
        sel = t.a[1].a[1] if t is not None and t.op == 'item' and t.a[0] is ei and t.a[1].op == 'tuple' and len(t.a[1].a) == 2 and t.a[1].a[0] is mk('slice', NONE, NONE, NONE) else None
        if not ctx.need(sel is not None, 'edges', 'RandomEdgeDrop: edge_index', 'the edges become %s' % (short(t, 80) if t is not None else 'unchanged'), f.loc()):
            continue
        ctx.need(any(mentions(sel, lambda x, n=n: x is n) for n in E) and mentions(sel, lambda x: x.op == 'call' and x.a[0] in RANDOM), 'edges', 'RandomEdgeDrop: selection',
                 'the selection is not drawn over the edges of the graph: %s' % short(sel, 80), f.loc())
        if p.guards.get(mk('isnone', ea)):
            ctx.need(a is None or a is NONE or a is ea, 'edges', 'RandomEdgeDrop: edge_attr', 'attributes appear that were not there', f.loc())
        else:
            ctx.need(asked(p, data, 'edge_attr'), 'absent', 'RandomEdgeDrop: edge_attr', 'a graph without edge attributes is not handled', f.loc())
            ctx.need(a is not None and a.op == 'item' and a.a[0] is ea and (a.a[1] is sel or a.a[1].op == 'tuple' and a.a[1].a[0] is sel), 'edges', 'RandomEdgeDrop: edge_attr',
                     'the attributes are selected by %s' % (short(a, 80) if a is not None else 'nothing'), f.loc())
    ctx.floor('edges', 5)
    ctx.floor('nodes', 8)


# ------------------------------------------------------------------ T03
DS = PKG + 'midi_dataset.MidiDataset'


def rows_of(t, x, n):
    """x as one row per node, or None"""
    while True:
        if t is x:
            return True
        if t.op == 'mcall' and t.a[1] in ('reshape', 'view') and len(t.a[2]) == 2 and t.a[2][1] is const(-1) and (t.a[2][0] in n):
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] in ('reshape', 'view') and len(t.a[2]) == 1 and t.a[2][0].op in ('tuple', 'list') and len(t.a[2][0].a) == 2 and t.a[2][0].a[0] in n and t.a[2][0].a[1] is const(-1):
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] in ('clone', 'contiguous', 'float', 'detach'):
            t = t.a[0]
        else:
            return False


def column_of(t, n):
    """the vector a column was made from, or None"""
    if t.op == 'mcall' and t.a[1] in ('to', 'type', 'float', 'type_as'):
        return column_of(t.a[0], n)
    if t.op == 'mcall' and t.a[1] in ('reshape', 'view'):
        a = t.a[2][0].a if len(t.a[2]) == 1 and t.a[2][0].op in ('tuple', 'list') else t.a[2]
        if len(a) == 2 and a[1] is const(1) and (a[0] is const(-1) or a[0] in n) or len(a) == 2 and a[0] in n and a[1] is const(-1):
            return t.a[0]
    if t.op == 'mcall' and t.a[1] == 'unsqueeze' and t.a[2] and t.a[2][0] in (const(1), const(-1)):
        return t.a[0]
    if t.op == 'call' and t.a[0] == 'torch.unsqueeze' and len(t.a[1]) == 2 and t.a[1][1] in (const(1), const(-1)):
        return t.a[1][0]
    if t.op == 'item' and t.a[1].op == 'tuple' and len(t.a[1].a) == 2 and t.a[1].a[0] is mk('slice', NONE, NONE, NONE) and t.a[1].a[1] is NONE:
        return t.a[0]
    return None


@prop('T03', 'Every path of AddDegreeTransform is checked to give the graph a feature matrix whose rows are the old ones followed by the out-degree of the same node, and of '
      'GraphIDTransform to give it the number under which the dataset was last asked for a graph, which __getitem__ notes before the graph is fetched and transformed.',
      technique='term matching over symbolic paths',
      assumptions=['torch_geometric.utils.degree counts how often each number occurs', 'fetching a graph of the dataset applies its transform'])
def check_t03(ctx):
    ctx.rule('degree', 'the features of a node are its old ones followed by its out-degree')
    ctx.rule('graphid', 'the graph id is the number the graph was asked for by')
    ctx.rule('same', 'nothing else of the graph changes and the graph is returned')
    q = TR + 'AddDegreeTransform.__call__'
    f = ctx.p.functions[q] if q in ctx.p.functions else broken(q)
    data = mk('param', f.params[1])
    x, ei = mk('attr', data, 'x'), mk('attr', data, 'edge_index')
    n = (mk('attr', data, 'num_nodes'), mk('item', mk('attr', x, 'shape'), const(0)), mk('mcall', x, 'size', (const(0),), ()))
    calls(ctx, 'AddDegreeTransform')
    for p in ctx.run(q):
        if p.kind != 'return':
            ctx.bad('degree', 'AddDegreeTransform', 'it raises %s' % show(p.value)[:60], f.loc())
            continue
        res = p.value
        if not ctx.need(res is data or copy_of(res, data), 'same', 'AddDegreeTransform', 'the result is %s' % short(p.dvalue, 60), f.loc()):
            continue
        got = assigned(p, res)
        for nm in (PER_NODE + MAYBE + ('num_nodes', 'edge_index', 'edge_attr'))[1:]:
            ctx.need(nm not in got and None not in got, 'same', 'AddDegreeTransform: %s' % nm, 'the entry is changed', f.loc())
        t = got.get('x', (None,))[0]
        cat = t is not None and t.op == 'call' and t.a[0] in ('torch.cat', 'torch.concat', 'torch.hstack', 'torch.concatenate') and t.a[1] and t.a[1][0].op in ('list', 'tuple') and len(t.a[1][0].a) == 2
        if not ctx.need(cat, 'degree', 'AddDegreeTransform: x', 'the features become %s' % (short(t, 90) if t is not None else 'unchanged'), f.loc()):
            continue
        kw = dict(t.a[2])
        d = kw.get('dim', kw.get('axis', t.a[1][1] if len(t.a[1]) > 1 else None))
        ctx.need(d in (const(1), const(-1)) or t.a[0] == 'torch.hstack', 'degree', 'AddDegreeTransform: axis', 'the degree is not added as a column', f.loc())
        old, col = t.a[1][0].a
        ctx.need(rows_of(old, x, n), 'degree', 'AddDegreeTransform: old', 'the features before the degree are %s' % short(old, 80), f.loc())
        v = column_of(col, n)
        ok = v is not None and v.op == 'call' and v.a[0] in ('torch_geometric.utils.degree',)
        if ok:
            kw = dict(v.a[2])
            idx, size = v.a[1][0] if v.a[1] else kw.get('index'), kw.get('num_nodes', v.a[1][1] if len(v.a[1]) > 1 else None)
            ok = idx is mk('item', ei, const(0)) and size in n
        elif v is not None and v.op == 'call' and v.a[0] == 'torch.bincount':
            kw = dict(v.a[2])
            ok = v.a[1][0] is mk('item', ei, const(0)) and kw.get('minlength') in n
        ctx.need(ok, 'degree', 'AddDegreeTransform: degree', 'the column added is %s' % short(col, 120), f.loc())
    q = TR + 'GraphIDTransform.__call__'
    f = ctx.p.functions[q] if q in ctx.p.functions else broken(q)
    data = mk('param', f.params[1])
    calls(ctx, 'GraphIDTransform')
    holder = None
    g = ctx.p.cls(TR + 'GraphIDTransform').find('__init__')
    for p in ctx.run(g.qualname):
        if p.kind == 'return':
            for e in p.events:
                if kind(e) == 'setattr' and args(e)[2] is mk('param', g.params[1]):
                    holder = args(e)[1]
    for p in ctx.run(q):
        if p.kind != 'return':
            ctx.bad('graphid', 'GraphIDTransform', 'it raises %s' % show(p.value)[:60], f.loc())
            continue
        res = p.value
        if not ctx.need(res is data or copy_of(res, data), 'same', 'GraphIDTransform', 'the result is %s' % short(p.dvalue, 60), f.loc()):
            continue
        got = assigned(p, res)
        ctx.need(set(got) == {'graph_id'}, 'same', 'GraphIDTransform: entries', 'the entries set are %s' % sorted(map(str, got)), f.loc())
        t = got.get('graph_id', (None,))[0]
        src = mk('attr', SELF, holder)
        ok = t is not None and t.op == 'call' and t.a[0] in ('torch.tensor', 'torch.as_tensor', 'torch.LongTensor') and t.a[1]
        v = t.a[1][0] if ok else None
        while v is not None and (v.op in ('list', 'tuple') and len(v.a) == 1 or v.op == 'call' and v.a[0] == 'int'):
            v = v.a[0] if v.op != 'call' else v.a[1][0]
        ctx.need(ok and v.op in ('mres', 'mcall') and v.a[0] is src and v.a[1] == 'get_graph_id' and not v.a[2], 'graphid', 'GraphIDTransform: id', 'the id is %s' % (short(t, 80) if t is not None else 'not set'), f.loc())
    # the number comes from the dataset
    q = DS + '.__getitem__'
    f = ctx.p.functions[q] if q in ctx.p.functions else broken(q)
    noted = None
    for p in ctx.run(DS + '.get_graph_id'):
        if p.kind == 'return':
            t = p.value
            noted = t.a[1] if t.op == 'attr' and t.a[0] is SELF else None
            ctx.need(noted is not None, 'graphid', 'get_graph_id', 'it gives %s' % short(p.dvalue, 60), ctx.p.functions[DS + '.get_graph_id'].loc())
    idx = mk('param', f.params[1])
    for p in ctx.run(q):
        if p.kind != 'return':
            ctx.bad('graphid', 'MidiDataset.__getitem__', 'it raises %s' % show(p.value)[:60], f.loc())
            continue
        seq = []
        for e, ch in walk(p.events):
            if kind(e) == 'setattr' and args(e)[1] == noted:
                seq.append(('note', dargs(e)[2], ch))
            if kind(e) == 'mut' and args(e)[1] in ('super.__getitem__', 'get'):
                seq.append(('fetch', args(e)[2], ch))
        ok = len(seq) >= 2 and seq[0][0] == 'note' and seq[0][1] is idx and not seq[0][2] and [k for k, *_ in seq].count('fetch') == 1 and not any(k == 'note' and v is not idx for k, v, _ in seq)
        ctx.need(ok, 'graphid', 'MidiDataset.__getitem__', 'the number is not noted before the graph is fetched', f.loc())
        fetched = [v for k, v, _ in seq if k == 'fetch']
        ctx.need(fetched and tuple(fetched[0]) == (idx,) and p.value.op == 'mres' and p.value.a[1] == 'super.__getitem__', 'graphid', 'MidiDataset.__getitem__: result',
                 'the result is %s' % short(p.dvalue, 80), f.loc())
    ctx.floor('degree', 3)
    ctx.floor('graphid', 4)
    ctx.floor('same', 8)


def calls(ctx, name):
    """calling the transform and its forward are one and the same"""
    c = ctx.p.cls(TR + name)
    f, g = c.find('__call__'), c.find('forward')
    ctx.need(f is not None and (g is None or f is g or g.node is f.node or all(mentions(p.value, lambda x: x.op in ('fcall', 'mres', 'mcall') or x is mk('param', g.params[1])) for p in ctx.run(g.qualname) if p.kind == 'return')),
             'same', name + '.forward', 'forward does something else than calling the transform', f.loc() if f else None)


# ------------------------------------------------------------------ T04
@prop('T04', 'The number of dropped nodes is checked to be the integer part of p times the number of nodes, cut from a random order of all nodes, and an edge to be kept exactly when '
      'its own uniform random number is not below p; p is the one given to the constructor.',
      technique='index-space typing of tensor expressions over symbolic paths', assumptions=['torch.rand is uniform on [0, 1) and torch.randperm is a uniform permutation'])
def check_t04(ctx):
    ctx.rule('share', 'the share of nodes dropped is p')
    ctx.rule('chance', 'each edge is dropped with probability p')
    for name in ('RandomNodeDrop', 'RandomEdgeDrop'):
        g = ctx.p.cls(TR + name).find('__init__')
        for p in ctx.run(g.qualname):
            if p.kind == 'return':
                v = [dargs(e)[2] for e in p.events if kind(e) == 'setattr' and args(e)[1] == 'p']
                ctx.need(v and v[-1] is mk('param', g.params[1]), 'share' if name == 'RandomNodeDrop' else 'chance', name + '.p', 'the probability kept is %s' % (short(v[-1]) if v else 'none'), g.loc())
    P = mk('attr', SELF, 'p')
    q = calling(ctx, 'RandomNodeDrop')
    f = ctx.p.functions[q]
    data = mk('param', f.params[1])
    for p in ctx.run(q, setup=graph_argument):
        if p.guards.get(mk('isnone', mk('attr', data, 'num_nodes'))) or p.kind != 'return':
            continue
        sp = Space(p, data)
        was, t = get_field(p, p.value, 'x')
        s = sp.of(t) if was and t is not None else None
        if not ctx.need(s is not None and s[0] == 'node' and s[2] != 'ALL', 'share', 'RandomNodeDrop: survivors', 'no survivors are chosen', f.loc()):
            continue
        e, drop = s[2], False
        while True:
            if e[0] == 'where':
                e = e[1]
            elif e[0] == 'not':
                e, drop = e[1], not drop
            elif e[0] == 'in':
                e = e[1]
            else:
                break
        ok = e[0] == 'part' and e[1][0] == 'perm' and e[2].op == 'slice' and e[2].a[2] in (NONE, const(1))
        if not ctx.need(ok, 'share', 'RandomNodeDrop: survivors', 'the survivors are not part of a random order of all nodes', f.loc()):
            continue
        lo, hi, _ = e[2].a
        k = hi if drop and lo in (NONE, const(0)) else lo if not drop and hi is NONE else None
        ok = k is not None and (k.op == 'call' and k.a[0] in ('int', 'math.floor') or k.op == 'bin' and k.a[0] == '//' and k.a[2] is const(1))
        v = (k.a[1][0] if k.op == 'call' else k.a[1]) if ok else None
        ok = ok and v.op == 'bin' and v.a[0] == '*' and (v.a[1] is P and sp.of(v.a[2]) == ('size', 'ALL') or v.a[2] is P and sp.of(v.a[1]) == ('size', 'ALL'))
        ctx.need(ok, 'share', 'RandomNodeDrop: number', 'the number of nodes dropped is %s' % (short(k, 80) if k is not None else short(e[2], 80)), f.loc())
    q = calling(ctx, 'RandomEdgeDrop')
    f = ctx.p.functions[q]
    data = mk('param', f.params[1])
    ei = mk('attr', data, 'edge_index')
    E = [mk('item', mk('attr', ei, 'shape'), const(1)), mk('mcall', ei, 'size', (const(1),), ()), mk('attr', data, 'num_edges'),
         mk('item', mk('attr', ei, 'shape'), const(-1)), mk('mcall', ei, 'size', (const(-1),), ())]
    for p in ctx.run(q):
        if p.kind != 'return':
            continue
        sel = None
        for e, _ in walk(p.events):
            if kind(e) in ('setattr',) and args(e)[1] == 'edge_index':
                t = dargs(e)[2]
                sel = t.a[1].a[1] if t.op == 'item' and t.a[1].op == 'tuple' and len(t.a[1].a) == 2 else None
        if p.value.op == 'new':
            t = (ctor_fields(p, p.value) or {}).get('edge_index')
            sel = t.a[1].a[1] if t is not None and t.op == 'item' and t.a[1].op == 'tuple' and len(t.a[1].a) == 2 else None
        if not ctx.need(sel is not None, 'chance', 'RandomEdgeDrop: selection', 'no selection of edges is made', f.loc()):
            continue
        pos = True
        while sel.op in ('not', 'inv'):
            sel, pos = sel.a[0], not pos
        m = Space(p, data).made(sel, 'ge') or Space(p, data).made(sel, 'lt')
        if m and len(m[0]) == 2:
            sel, pos = mk('lt', *m[0]), pos == bool(Space(p, data).made(sel, 'lt'))
        rnd = lambda t: (t.a[0] if t.op == 'res' else t)
        if sel.op in ('lt', 'le') and len(sel.a) == 2:
            lo, hi = sel.a
            # kept exactly when not below p: not (r < p), p <= r
            kept_high = (sel.op == 'lt' and not pos and hi is P) or (sel.op == 'le' and pos and lo is P)
            r = rnd(lo) if hi is P else rnd(hi) if lo is P else None
            ok = kept_high and r is not None and r.op == 'call' and r.a[0] == 'torch.rand' and len(r.a[1]) == 1 and r.a[1][0] in E
        else:
            r = rnd(sel)
            ok = False
        ctx.need(ok, 'chance', 'RandomEdgeDrop: chance', 'an edge is kept when %s%s' % ('' if pos else 'not ', short(sel, 90)), f.loc())
    ctx.floor('share', 4)
    ctx.floor('chance', 3)


def ctor_fields(p, new):
    for e, _ in walk(p.events):
        if e.a[0] == 'extnew' and e.a[1][0] is new:
            c = e.a[1][1]
            d = dict(zip(('x', 'edge_index', 'edge_attr', 'y', 'pos'), c.a[1]))
            d.update(dict(c.a[2]))
            for n, (v, ch) in assigned(p, new).items():
                d[n] = v
            return d
    return None


def broken(q):
    raise AnalysisBroken('%s is gone' % q)
