"""Rules about graph building: G01..G10."""
import itertools

from . import prop
from ..cases import Cases, taken_by
from ..lib import *
from ..terms import binop, lenarg

M = PKG + 'midi_graph_builder.MidiGraphBuilder'
BS_OPAQUE = (M + '.create_tensor', M + '.rescale_velocities', M + '.compute_data')
SEQS = PKG + 'midi.midi_sequences.MidiNoteSequences'
TABLES = ('_hash_to_notes', '_notes_to_hash', '_hash_to_index', '_index_to_hash')


# ------------------------------------------------------------------ helpers
def strip_copy(t):
    while True:
        if t.op == 'copyof':
            t = t.a[1]
        elif t.op == 'call' and t.a[0] in ('dict', 'list', 'tuple', 'iter') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'mcall' and t.a[1] in ('keys', 'copy') and not t.a[2]:
            t = t.a[0]
        else:
            return t


def self_table(t):
    t = strip_copy(t)
    if t.op == 'attr' and t.a[0].op == 'param' and t.a[1] in TABLES:
        return t.a[1]
    return None


def hash_of(t):
    """t == hash(S) -> S"""
    if t.op == 'call' and t.a[0] == 'hash' and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def frozen_of(t):
    if t.op == 'call' and t.a[0] == 'frozenset' and len(t.a[1]) == 1:
        return t.a[1][0]
    return None


def pitch_map(t):
    """map(notes, n -> n.pitch) over all notes -> notes term"""
    if t.op == 'map' and len(t.a[2]) == 1:
        (g, v), = t.a[2]
        if not g and v.op == 'attr' and v.a[1] == '_pitch' and v.a[0].op == 'elem' and v.a[0].a[0] is t.a[0]:
            return t.a[0]
    return None


def edge_atom(a, G):
    """-> (u, v) when the atom says that the graph has the edge u -> v"""
    if a.op == 'truthy':
        m = a.a[0]
        if m.op == 'mcall' and m.a[1] in ('has_edge', 'has_successor') and m.a[0] is G and len(m.a[2]) == 2:
            return m.a[2][0], m.a[2][1]
        if m.op == 'mcall' and m.a[1] == 'has_predecessor' and m.a[0] is G:
            return m.a[2][1], m.a[2][0]
    if a.op == 'in':
        x, c = a.a
        if x.op == 'tuple' and len(x.a) == 2 and root(c) is G:
            return x.a[0], x.a[1]
        if c.op == 'item' and (c.a[0] is G or (c.a[0].op == 'attr' and c.a[0].a[0] is G)):
            return c.a[1], x
        if c.op == 'mcall' and c.a[0] is G and c.a[1] in ('successors', 'neighbors') and len(c.a[2]) == 1:
            return c.a[2][0], x
    return None


def one(t):
    return num(t) and t.a[0] == 1


def is_plus_one(val, old):
    """val == old + 1"""
    d = binop('-', val, old)
    return num(d) and d.a[0] == 1


class Step:
    """one iteration that adds to the graph"""
    def __init__(self, path, chain, loop, lp, events):
        self.path, self.chain, self.loop, self.lp, self.events = path, chain, loop, lp, events
        self.guards = set(lp.a[0])
        for L, l in chain:
            self.guards |= set(l.a[0])


def graph_events(events, G):
    out = []
    for e in events:
        if kind(e) in ('mut', 'store', 'setattr', 'delitem', 'delattr') and root(args(e)[0]) is G:
            if kind(e) == 'store' and dargs(e)[2].op == 'item' and dargs(e)[2].a[0] is args(e)[0] and dargs(e)[2].a[1] is args(e)[1]:
                continue            # stores back what is there already
            out.append(e)
    return out


def steps_of(path, G):
    """-> (steps, skipped, stray events)"""
    steps, skipped = [], []
    seen = set()

    def nested(lp):
        return any(graph_events([e], G) for e, _ in walk(lp.a[1]))

    def visit(events, chain):
        for e in events:
            if kind(e) != 'loop':
                continue
            L = e.a[1][0]
            if not any(nested(lp) for lp in L.a[3]):
                continue
            for lp in L.a[3]:
                if not normal(lp) and out_kind(lp) != 'break':
                    continue
                if (L.id, lp.id) in seen:
                    continue
                seen.add((L.id, lp.id))
                direct = graph_events(lp.a[1], G)
                inner = any(kind(x) == 'loop' and any(nested(q) for q in x.a[1][0].a[3]) for x in lp.a[1])
                if direct:
                    steps.append(Step(path, chain, L, lp, direct))
                elif not inner:
                    skipped.append((L, lp))
                visit(lp.a[1], chain + ((L, lp),))
    visit(path.events, ())
    stray = graph_events(path.events, G)
    return steps, skipped, stray


def build_paths(ctx):
    ps = ctx.run(M + '.build_sequence', opaque=BS_OPAQUE)
    out = []
    for p in ps:
        if p.kind == 'return' and any(kind(e) == 'loop' for e in p.events):
            out.append((p, p.value))
    return out


def all_steps(ctx):
    res = []
    for p, G in build_paths(ctx):
        st, sk, stray = steps_of(p, G)
        res.append((p, G, st, sk, stray))
    return res


def prev_var(s):
    """loop-carried variable that holds the node of the previous group -> (variable, node id of this group)"""
    c = [(lv, v) for lv, v in s.lp.a[3] if lv.op in ('lv', 'lh') and hash_of(v) is not None]
    if len(c) > 1:
        used = [x for x in c if any(mentions(e, lambda t: t is x[0]) for e in s.events)
                or any(mentions(a, lambda t: t is x[0]) for a, _ in s.guards)]
        c = used or c
    return c[0] if c else (None, None)


def node_id(s):
    lv, h = prev_var(s)
    if h is None:
        for e in s.events:
            if kind(e) == 'mut' and args(e)[1] == 'add_node' and args(e)[2]:
                return args(e)[2][0]
    return h


def group_sets(path, S):
    """the values a pitch-group variable can have"""
    if S.op == 'elem' and S.a[0].op == 'new':
        out = []
        for e, ch in walk(path.events):
            if kind(e) == 'mut' and args(e)[0] is S.a[0] and args(e)[1] in ('append', 'add') and dargs(e)[2]:
                out.append((dargs(e)[2][0], ch))
            elif kind(e) == 'mut' and args(e)[0] is S.a[0]:
                out.append((mk('unknown', args(e)[1]), ch))
        return list(dict.fromkeys(out))
    return [(S, ())]


def notes_of_group(t):
    """the notes of the group a pitch set is taken from: pitch set -> notes term (None when it is not a pitch set)"""
    f = frozen_of(t)
    if f is None:
        f = t
    n = pitch_map(f)
    if n is not None:
        return n
    # a part of a pitch set
    if f.op == 'call' and f.a[0] == 'itertools.islice':
        return notes_of_group(f.a[1][0])
    if f.op == 'call' and f.a[0] in ('iter', 'list', 'tuple', 'sorted', 'set', 'frozenset') and f.a[1]:
        return notes_of_group(f.a[1][0])
    if f.op == 'sorted':
        return notes_of_group(f.a[0])
    if f.op == 'item' and f.a[1].op == 'slice':
        return notes_of_group(f.a[0])
    if f.op == 'map' and len(f.a[2]) == 1:
        (g, v), = f.a[2]
        if v.op == 'elem' and v.a[0] is f.a[0]:
            return notes_of_group(f.a[0])
    return None


# ------------------------------------------------------------------ G01
@prop('G01', 'Every add_node of the graph building paths is checked to use hash(pitch set of the group) as id and as node_hash '
      'attribute; every node id used by the query functions (neighbors, is_connected, get_edge_connected) is checked to be '
      'built by the same hash-of-frozenset-of-pitches construction.')
def g01(ctx):
    R1 = 'G01.build'
    ctx.rule(R1, 'each add_node(id, .., node_hash=) has id == node_hash == hash(frozenset of the pitches of the group)')
    for p, G, steps, sk, stray in all_steps(ctx):
        for s in steps:
            for e in s.events:
                if kind(e) != 'mut' or args(e)[1] not in ('add_node', 'add_nodes_from'):
                    continue
                a = args(e)[2]
                h = a[0] if a else NONE
                S = hash_of(h)
                if args(e)[1] != 'add_node' or S is None:
                    ctx.bad(R1, 'build_sequence:add_node', 'node id is %s, not the hash of a pitch set' % short(h), eloc(e))
                    continue
                for val, ch in group_sets(p, S):
                    if frozen_of(val) is None and not (val.op == 'elem'):
                        ctx.bad(R1, 'build_sequence:pitch-set', 'the hashed group is %s, not a frozenset' % short(val), eloc(e))
                    elif notes_of_group(val) is None:
                        ctx.bad(R1, 'build_sequence:pitch-set', 'the hashed group %s is not made of the pitches of the notes' % short(val), eloc(e))
                    else:
                        ctx.ok(R1)
                kw = kw_of(dargs(e)[3], 'node_hash')
                ctx.need(kw is h, R1, 'build_sequence:node_hash', 'node_hash attribute is %s, not the node id' % (short(kw) if kw else 'missing'), eloc(e))
    ctx.floor(R1, 2)
    R2 = 'G01.query'
    ctx.rule(R2, 'every node id a query hands to the graph is hash(frozenset(pitches)) of its argument, or the id it was given')
    for fn, params in (('neighbors', ('u',)), ('is_connected', ('u', 'v')), ('get_edge_connected', ('u', 'v'))):
        f = ctx.p.func(M + '.' + fn)
        graph, others = f.params[0], f.params[1:]
        G = mk('param', graph)
        for p in ctx.run(M + '.' + fn):
            if p.kind != 'return':
                continue
            ids = []
            terms = [p.value] + [a for a, _ in all_lits(p.guards)] + [a for e in p.events for a in args(e)]
            for t in terms:
                for s in subterms(t):
                    if s.op == 'mcall' and s.a[0] is G:
                        ids += list(s.a[2])
                    elif s.op == 'in' and s.a[1] is G:
                        ids.append(s.a[0])
                    elif s.op == 'in' and root(s.a[1]) is G:
                        ids.append(s.a[0])
                    elif s.op == 'item' and s.a[0] is G:
                        ids.append(s.a[1])
            for i in dict.fromkeys(ids):
                ok = False
                S = hash_of(i)
                if S is not None and frozen_of(S) is not None:
                    x = frozen_of(S)
                    src = pitch_map(x) or x
                    if src.op == 'list' and len(src.a) == 1:
                        src = src.a[0]
                    ok = src.op == 'param' and src.a[0] in others
                    if ok and x.op != 'map' and holds(p.guards, lambda a, q: q and a.op == 'isinst' and a.a[0].op == 'item' and a.a[0].a[0] is src
                                                  and any(k.op == 'cls' for k in a.a[1])):
                        ok = False      # notes hashed as objects, not by pitch
                elif i.op == 'param' and i.a[0] in others:
                    ok = holds(p.guards, lambda a, q: a.op == 'isinst' and a.a[0] is i and (
                        (not q and any(k.a[0] in ('builtins.list', 'typing.List') for k in a.a[1]))
                        or (q and all(k.a[0] == 'builtins.int' for k in a.a[1]))))
                elif is_const(i):
                    ok = holds(p.guards, lambda a, q: a.op == 'truthy' and not q and a.a[0].op == 'param')
                ctx.need(ok, R2, fn, 'looks the node up under %s' % short(i), f.loc())
    ctx.floor(R2, 6)


# ------------------------------------------------------------------ G02
@prop('G02', 'Every store into the four lookup tables on the graph building paths is matched: pairs must be mutually inverse, the index '
      'must be derived from the size of a table, and each step must either find the node in the index table or enter it; no other '
      'function may remove from or replace the tables.')
def g02(ctx):
    R = 'G02.pair'
    ctx.rule(R, 'each step that meets a node without an index stores hash->index and index->hash with the same pair, the index being the size of a table; '
                'and hash->notes, notes->hash with the same pair')
    idx_forms = set()
    for p, G, steps, sk, stray in all_steps(ctx):
        for s in steps:
            h = node_id(s)
            S = hash_of(h) if h is not None else None
            if S is None:
                ctx.bad(R, 'build_sequence:id', 'the node id of a step could not be identified', L_loc(s.loop))
                continue
            st = {t: [] for t in TABLES}
            order = []
            for e in s.lp.a[1]:
                if kind(e) == 'store' and self_table(args(e)[0]):
                    t = self_table(args(e)[0])
                    st[t].append((args(e)[1], args(e)[2], e))
                    order.append(t)
            def known(names):
                return holds(s.guards, lambda a, q: q and a.op == 'in' and (a.a[0] is h or a.a[0] is S) and self_table(a.a[1]) in names)
            # index tables
            hi, ih = st['_hash_to_index'], st['_index_to_hash']
            if not hi and not ih:
                ctx.need(known(('_hash_to_index',)), R, 'build_sequence:index', 'a step neither finds its node in the index table nor enters it', L_loc(s.loop))
            else:
                good = len(hi) == 1 and len(ih) == 1 and hi[0][0] is h and ih[0][1] is h and hi[0][1] is ih[0][0]
                ctx.need(good, R, 'build_sequence:index', 'index tables are not entered as an inverse pair: %s / %s' % (
                    [short(x[0]) + '->' + short(x[1]) for x in hi], [short(x[0]) + '->' + short(x[1]) for x in ih]), L_loc(s.loop))
                if good:
                    fresh = holds(s.guards, lambda a, q: not q and a.op == 'in' and (a.a[0] is h) and self_table(a.a[1]) in ('_hash_to_index',)) \
                        or (holds(s.guards, lambda a, q: not q and a.op == 'in' and self_table(a.a[1]) is not None and (a.a[0] is h or a.a[0] is S))
                            and not known(('_hash_to_index',)) and False)
                    ctx.need(fresh, R, 'build_sequence:reindex', 'a node that may already have an index is given a new one', L_loc(s.loop))
                    i = hi[0][1]
                    d = [x for x in subterms(i) if lenarg(x) is not None]
                    src = self_table(lenarg(d[0])) if d else None
                    rest = binop('-', i, d[0]) if d else NONE
                    pos = order.index('_hash_to_index')
                    before = src in order[:pos] if src else None
                    ctx.need(src is not None and num(rest), R, 'build_sequence:index-value', 'the index %s is not the size of a lookup table' % short(i), L_loc(s.loop))
                    if src is not None:
                        # the table counted always holds exactly the nodes that have an index (before or after this one)
                        ctx.need(src in ('_hash_to_index', '_index_to_hash') and not before or src in ('_hash_to_notes', '_notes_to_hash'),
                                 R, 'build_sequence:index-count', 'the index is the size of %s after it was already extended' % src, L_loc(s.loop))
                        if src in ('_hash_to_notes', '_notes_to_hash') and not known(('_hash_to_notes', '_notes_to_hash')):
                            idx_forms.add((src, before, rest))
                        else:
                            idx_forms.add((src, None, rest)) if src in ('_hash_to_index', '_index_to_hash') else None
            hn, nh = st['_hash_to_notes'], st['_notes_to_hash']
            if not hn and not nh:
                ctx.need(known(TABLES), R, 'build_sequence:notes', 'a step neither finds its node in a table nor enters its pitches', L_loc(s.loop))
            else:
                good = len(hn) == 1 and len(nh) == 1 and hn[0][0] is h and nh[0][1] is h and hn[0][1] is nh[0][0] is S
                ctx.need(good, R, 'build_sequence:notes', 'pitch tables are not entered as an inverse pair: %s / %s' % (
                    [short(x[0]) + '->' + short(x[1]) for x in hn], [short(x[0]) + '->' + short(x[1]) for x in nh]), L_loc(s.loop))
    ctx.need(len(idx_forms) <= 1, R, 'build_sequence:index-forms', 'indices are computed in different ways: %s' % idx_forms)
    ctx.floor(R, 8)
    R2 = 'G02.extend-only'
    ctx.rule(R2, 'outside the constructor no function of the library removes from, clears or replaces the four tables of the builder')
    import ast
    from ..loader import walk_own, dotted_of
    cls = ctx.p.cls(M)
    init = cls.methods.get('__init__')
    for f in ctx.p.functions.values():
        if f.cls is not cls:
            continue
        ctx.analysed.add(f.qualname)
        for n in walk_own(f.node):
            bad = None
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        if isinstance(x, ast.Attribute) and x.attr in TABLES and f is not init:
                            bad = 'replaces ' + x.attr
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    if isinstance(b, ast.Attribute) and b.attr in TABLES:
                        bad = 'deletes from ' + b.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) \
                    and n.func.value.attr in TABLES and n.func.attr in ('pop', 'popitem', 'clear', '__delitem__'):
                bad = '%s on %s' % (n.func.attr, n.func.value.attr)
            if bad:
                ctx.bad(R2, f.name, bad, '%s:%d' % (f.module.relpath, n.lineno))
        ctx.ok(R2)
    ctx.floor(R2, 10)


def L_loc(L):
    return L.a[5]


# ------------------------------------------------------------------ G03
@prop('G03', 'Each iteration path of the step loop in build_sequence is matched against the four legal graph updates under the branch '
      'conditions of that path (first group, existing edge in either direction, new edge); every path must do exactly one of them and '
      'make the current group the previous one.')
def g03(ctx):
    base_graph(ctx, 'G03.base')
    R = 'G03.step'
    ctx.rule(R, 'every iteration over the groups performs exactly one legal graph update and then makes its group the previous one')
    nsteps = 0
    for p, G, steps, skipped, stray in all_steps(ctx):
        for e in stray:
            ctx.bad(R, 'build_sequence:stray', 'the graph is changed outside the steps: %s %s' % (kind(e), short(str(args(e)))), eloc(e))
        for L, lp in skipped:
            exc = holds(lp.a[0], lambda a, q: not q and (
                (a.op == 'in' and a.a[0].op == 'elem' and a.a[0].a[0] is L.a[0]) or
                (a.op == 'truthy' and a.a[0].op == 'item' and a.a[0].a[1].op == 'elem' and a.a[0].a[1].a[0] is L.a[0])))
            ctx.need(exc, R, 'build_sequence:skip', 'a group is passed over without a graph update when %s' % short(glits(lp)), L_loc(L))
        for s in steps:
            nsteps += 1
            prev, h = prev_var(s)
            if prev is None:
                ctx.bad(R, 'build_sequence:previous', 'the group of the step does not become the previous group', L_loc(s.loop))
                continue
            check_step(ctx, R, G, s, prev, h)
            if out_kind(s.lp) == 'break':
                ctx.bad(R, 'build_sequence:break', 'the steps stop early when %s' % short(glits(s.lp)), L_loc(s.loop))
        # what is the previous group at the start
        for L, ch in loops(p.events):
            if ch:
                continue
            for lv, init in L.a[4]:
                if any(prev_var(s)[0] is lv for s in steps) or any(lv.op == 'lv' and prev_var(s)[0] is not None and prev_var(s)[0].op == 'lv' and prev_var(s)[0].a[2] == lv.a[2] for s in steps):
                    if init is NONE:
                        fresh = G.op == 'new' or holds(p.guards, lambda a, q: a.op == 'truthy' and not q and root(a.a[0]) is G)
                        ctx.need(fresh, R, 'build_sequence:start', 'an existing graph is extended without linking its last node', L_loc(L))
                    else:
                        ctx.need(G.op != 'new' and last_node(init, G), R, 'build_sequence:start',
                                 'the previous group of a %s graph starts as %s' % ('fresh' if G.op == 'new' else 'given', short(init)), L_loc(L))
    ctx.floor(R, 8)


def last_node(t, G):
    """t is the node that was added to G last"""
    nodes = lambda x: x is G or (x.op == 'attr' and x.a[1] == 'nodes' and x.a[0] is G) or (x.op == 'mcall' and x.a[1] == 'nodes' and x.a[0] is G and not x.a[2]) \
        or (x.op == 'call' and x.a[0] in ('list', 'tuple') and len(x.a[1]) == 1 and nodes(x.a[1][0])) or (x.op == 'map' and not x.a[1] and nodes(x.a[0]))
    if t.op == 'item' and is_const(t.a[1], -1):
        return nodes(t.a[0])
    if t.op == 'call' and t.a[0] == 'next' and t.a[1] and t.a[1][0].op == 'call' and t.a[1][0].a[0] == 'reversed':
        return nodes(t.a[1][0].a[1][0])
    return False


def base_graph(ctx, R):
    ctx.rule(R, 'build_sequence returns the graph it was given, extended, or a new graph when it was given none; only a sequence without groups adds nothing')
    g = mk('param', 'g')
    data = lambda t: mentions(t, lambda s: s.op == 'fcall' and s.a[0] == M + '.compute_data')
    f = ctx.p.func(M + '.build_sequence')
    for p in ctx.run(M + '.build_sequence', opaque=BS_OPAQUE):
        if p.kind != 'return':
            continue
        none = holds(p.guards, lambda a, q: (a.op == 'isnone' and a.a[0] is g and q) or (a.op == 'truthy' and a.a[0] is g and not q))
        some = holds(p.guards, lambda a, q: (a.op == 'isnone' and a.a[0] is g and not q) or (a.op == 'truthy' and a.a[0] is g and q))
        v = p.value
        if v is g:
            ctx.need(some, R, 'build_sequence:given', 'the result is the graph passed in even when none was passed in', f.loc())
        else:
            ctx.need(v.op == 'new' and none, R, 'build_sequence:fresh', 'the result is %s although a graph was passed in that it should extend' % short(v), f.loc())
        if not any(kind(e) == 'loop' for e in p.events):
            empty = holds(p.guards, lambda a, q: data(a) and ((a.op == 'truthy' and not q) or (a.op == 'eq' and q and is_const(a.a[1], 0)) or (a.op == 'lt' and not q and is_const(a.a[0], 0))))
            ctx.need(empty, R, 'build_sequence:nothing', 'no group becomes part of the graph although the sequence may have groups', f.loc())
    ctx.floor(R, 3)


def glits(lp):
    return ' and '.join(sorted(short(show_lit(l), 60) for l in lp.a[0]))


def check_step(ctx, R, G, s, prev, h):
    g = s.guards
    first = holds(g, lambda a, q: q and a.op == 'isnone' and a.a[0] is prev) \
        or holds(g, lambda a, q: not q and a.op == 'truthy' and a.a[0] is prev and False)

    def edge(u, v):
        if holds(g, lambda a, q: q and edge_atom(a, G) == (u, v)):
            return True
        if holds(g, lambda a, q: not q and edge_atom(a, G) == (u, v)):
            return False
        return None
    fwd, back = edge(prev, h), edge(h, prev)
    ev = s.events
    nodes = [e for e in ev if kind(e) == 'mut' and args(e)[1] == 'add_node']
    adds = [e for e in ev if kind(e) == 'mut' and args(e)[1] == 'add_edge']
    stores = [e for e in ev if kind(e) == 'store']
    other = [e for e in ev if e not in nodes and e not in adds and e not in stores]
    loc = eloc(ev[0])
    if other:
        ctx.bad(R, 'build_sequence:other', 'a step also does %s' % short(str(args(other[0]))), eloc(other[0]))
        return

    def node_ok():
        return len(nodes) == 1 and args(nodes[0])[2][:1] == (h,)

    def edge_is(u, v):
        if len(adds) != 1:
            return False
        a = args(adds[0])
        return a[2][:2] == (u, v) and one(kw_of(a[3], 'weight', NONE)) and len(a[3]) == 1
    if first:
        ctx.need(node_ok() and edge_is(h, h) and not stores, R, 'build_sequence:first',
                 'the first group does not become a node with a self edge of weight 1: %s' % short(str([args(e) for e in ev]), 300), loc)
        return
    hit = (h, prev) if back else (prev, h) if fwd else None
    if hit:
        u, v = hit
        ok = not nodes and not adds and len(stores) == 1
        if ok:
            base, k, val = args(stores[0])
            slot = mk('item', base, k)
            want = mk('item', mk('item', G, u), v)
            want2 = mk('item', mk('attr', G, 'edges'), mk('tuple', u, v))
            ok = base in (want, want2) and is_const(k, 'weight') and is_plus_one(val, slot)
        elif not nodes and not stores and len(adds) == 1:
            a = args(adds[0])
            w = kw_of(a[3], 'weight', NONE)
            old = mk('item', mk('item', mk('item', G, u), v), const('weight'))
            ok = a[2][:2] == (u, v) and is_plus_one(w, old)
        ctx.need(ok, R, 'build_sequence:existing-edge', 'the existing edge %s is not raised by exactly 1: %s' % (
            'current->previous' if hit[0] is h else 'previous->current', short(str([args(e) for e in ev]), 300)), loc)
        return
    both = fwd is False and back is False
    if not both:
        ctx.bad(R, 'build_sequence:new-edge', 'a new edge may be added although the groups are already joined (%s -> %s not excluded)' % (
            'current' if back is None else 'previous', 'previous' if back is None else 'current'), loc)
        return
    ctx.need(node_ok() and edge_is(prev, h) and not stores, R, 'build_sequence:new-edge',
             'groups that are not joined do not become joined by an edge of weight 1 from the previous to the current one: %s'
             % short(str([args(e) for e in ev]), 300), loc)


# ------------------------------------------------------------------ G04
def monotone(t, src, tol):
    """t is a non-decreasing function of src, numbers in `tol` being non-negative"""
    if t is src:
        return True
    pos = lambda x: (num(x) and x.a[0] > 0) or x in tol
    if t.op == 'call' and t.a[0] in ('round', 'float', 'int', 'math.floor', 'math.ceil', 'numpy.round', 'numpy.floor') and t.a[1]:
        return monotone(t.a[1][0], src, tol) and not any(mentions(x, lambda s: s is src) for x in t.a[1][1:])
    if t.op == 'bin' and t.a[0] == '*':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if pos(x) and monotone(y, src, tol):
                return True
    if t.op == 'bin' and t.a[0] in ('/', '//'):
        return pos(t.a[2]) and monotone(t.a[1], src, tol)
    if t.op == 'lin':
        return all(k > 0 and monotone(x, src, tol) or not mentions(x, lambda s: s is src) for x, k in t.a[1])
    return False


def note_lits(n):
    """predicates of the excuse literals for one note"""
    drum = lambda a, q: a.op in ('truthy', 'eq') and a.a[0] is mk('attr', n, '_is_drum') and (
        q if a.op == 'truthy' or is_const(a.a[1], True) else not q)
    vel = mk('attr', n, '_velocity')
    silent = lambda a, q: (a.op == 'eq' and a.a[0] is vel and is_const(a.a[1], 0) and q) or (a.op == 'truthy' and a.a[0] is vel and not q) \
        or (a.op == 'lt' and is_const(a.a[0], 0) and a.a[1] is vel and not q) or (a.op == 'lt' and a.a[0] is vel and is_const(a.a[1], 1) and q)
    return drum, silent


@prop('G04', 'The loop of compute_data over the notes of the sequence is checked path by path (each note is put in exactly one group unless it '
      'is a drum note or silent), the group key must be a monotone function of the start time, the filter must be conditional, and '
      'build_sequence must visit the groups sorted by that key.',
      assumptions=['compute_tolerance returns a non-negative number'])
def g04(ctx):
    R = 'G04.group'
    ctx.rule(R, 'each note is added to exactly one group, the one of its own time, unless it is a drum note or silent; no drum or silent note is added')
    fn = M + '.compute_data'
    ps = ctx.run(fn, opaque=(M + '.compute_tolerance',))
    nloops = 0
    for p in ps:
        if p.kind != 'return':
            continue
        val = p.value
        D = val.a[0] if val.op == 'tuple' else val
        seqloops = [L for L, ch in loops(p.events) if not ch and root(L.a[0]).op == 'param']
        main = [L for L in seqloops if any(added(lp, mk('elem', L.a[0], L.a[2])) for lp in L.a[3])]
        if len(main) != 1:
            ctx.bad(R, 'compute_data:loop', '%d loops over the notes add to groups' % len(main), ctx.p.func(fn).loc())
            continue
        L = main[0]
        nloops += 1
        bt = L.a[0]
        ctx.need(bt.op == 'attr' and bt.a[1] in ('_notes', '_drum_events') and bt.a[0].op == 'param', R, 'compute_data:notes',
                 'the loop runs over %s, not over the notes of the sequence' % short(bt), L_loc(L))
        n = mk('elem', L.a[0], L.a[2])
        drum, silent = note_lits(n)
        dicts = set()
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            if not normal(lp):
                ctx.bad(R, 'compute_data:stop', 'the loop over the notes ends early when %s' % glits(lp), L_loc(L))
                continue
            ad = added(lp, n)
            if not ad:
                ctx.need(holds(lp.a[0], lambda a, q: drum(a, q) or silent(a, q)), R, 'compute_data:lost',
                         'a note that is neither a drum note nor silent is left out when %s' % glits(lp), L_loc(L))
                continue
            ctx.need(len(ad) == 1, R, 'compute_data:twice', 'a note is added to %d groups' % len(ad), L_loc(L))
            cont, k, err = ad[0]
            dicts.add(cont)
            tried = any(holds(q.a[0], lambda a, v: v and a.op == 'exc') for q in L.a[3])
            ctx.need(not err or tried and 'first' in err, R, 'compute_data:slot', 'when a note is added to its group, %s' % err, L_loc(L))
            for t in subterms(k) if k is not None else ():
                if t.op == 'bin' and t.a[0] in ('/', '//', '%'):
                    ctx.need(num(t.a[2]) or holds(lp.a[0], lambda a, q: nonzero_lit(a, q, t.a[2])), R, 'compute_data:zero', 'the time of a note may be divided by a zero tolerance', L_loc(L))
            nodrum = holds(lp.a[0], lambda a, q: drum(a, not q))
            ctx.need(nodrum, R, 'compute_data:drum', 'a drum note may be grouped', L_loc(L))
            ctx.need(holds(lp.a[0], lambda a, q: silent(a, not q)), R, 'compute_data:silent', 'a silent note may be grouped', L_loc(L))
            start = mk('attr', n, '_start_time')
            tol = {t for t in subterms(k) if t.op in ('param', 'call', 'fcall') and not mentions(t, lambda s: s is n)} if k is not None else set()
            ctx.need(k is not None and monotone(k, start, tol), R, 'compute_data:key', 'the group of a note is chosen by %s, not by its start time'
                     % (short(k) if k is not None else '?'), L_loc(L))
        # what is returned
        okd = False
        filt = None
        if D in dicts:
            okd = True
            for F, ch in loops(p.events):
                if not ch and F not in main and any(kind(e) in ('delitem', 'mut', 'store') and same_obj(args(e)[0], D) for lp in F.a[3] for e in lp.a[1]):
                    okd = filt = filter_ok(F, D, leaves_out=True)
        elif D.op == 'new':
            src = p.st.cont.get(D)
            m = [x for x in loops(p.events) if not x[1]]
            for part in src or ():
                if part[0] == 'loop':
                    F = part[1]
                    if F.a[0] in dicts and filter_ok(F, D):
                        okd = filt = True
        ctx.need(okd, R, 'compute_data:result', 'the groups returned are %s, not the groups that were filled' % short(D), ctx.p.func(fn).loc())
        flag = holds(p.guards, lambda a, q: q and a.op in ('truthy', 'eq') and a.a[0] is mk('param', 'filter_single_notes'))
        ctx.need(not filt or flag, R, 'compute_data:filter', 'groups of one note are left out without filtering being requested', ctx.p.func(fn).loc())
        ctx.need(filt or holds(p.guards, lambda a, q: not q and a.op == 'truthy' and a.a[0] is mk('param', 'filter_single_notes')), R, 'compute_data:filter',
                 'groups of one note stay in although filtering is requested', ctx.p.func(fn).loc())
    ctx.floor(R, 8)
    R2 = 'G04.order'
    ctx.rule(R2, 'the groups are visited in ascending order of their time, every group once')
    for p, G, steps, sk, stray in all_steps(ctx):
        tops = {(s.chain[0][0] if s.chain else s.loop) for s in steps}
        for L in tops:
            b = L.a[0]
            src = b.op == 'item' and b.a[0].op == 'fcall' and b.a[0].a[0] == M + '.compute_data' and is_const(b.a[1], 0)
            ctx.need(src, R2, 'build_sequence:groups', 'the steps run over %s, not over all groups of compute_data' % short(b), L_loc(L))
            o = [x for x in L.a[1] if x[0] in ('sorted', 'reversed')]
            asc = sum(1 for x in o if x[0] == 'reversed') % 2 == 0 and any(x[0] == 'sorted' for x in o)
            srt = [x for x in o if x[0] == 'sorted']
            key_ok = bool(srt) and (srt[-1][1] is None or srt[-1][1] is NONE or srt[-1][1] is mk('arg') or
                                   (isinstance(srt[-1][1], T) and srt[-1][1].op == 'item' and is_const(srt[-1][1].a[1], 0)))
            asc = asc and key_ok and not (srt[-1][2] is True or (isinstance(srt[-1][2], T) and is_const(srt[-1][2], True)))
            ctx.need(asc, R2, 'build_sequence:order', 'the groups are visited in order %s' % (L.a[1],), L_loc(L))
            fc = b.a[0] if src else None
            if fc is not None:
                ctx.need(fc_arg(fc, 'filter_single_notes') is mk('param', 'filter_single_notes') and fc_arg(fc, 'seq') is mk('param', 'seq'), R2,
                         'build_sequence:args', 'compute_data is not called with the sequence and the filter setting of the caller', L_loc(L))
    ctx.floor(R2, 4)


def filter_ok(F, D, leaves_out=False):
    """loop F copies the entries (k, v) of its base into D, leaving out only those with at most one note (or takes just those out of D)"""
    if leaves_out and not same_obj(F.a[0], D):
        return False
    for lp in F.a[3]:
        if not normal(lp):
            return False
        k = mk('elem', D if leaves_out else F.a[0], F.a[2])
        v = mk('item', k.a[0], k)
        st = [e for e in lp.a[1] if kind(e) == 'store' and args(e)[0] is D]
        out = [e for e in lp.a[1] if kind(e) in ('delitem', 'mut') and same_obj(args(e)[0], D)]
        if leaves_out and (st or len(out) > 1 or any(not (kind(e) == 'delitem' and args(e)[1] is k or kind(e) == 'mut' and args(e)[1] == 'pop' and args(e)[2] and args(e)[2][0] is k) for e in out)):
            return False
        if leaves_out and not out:
            if Cases(lambda t: 1 if t is mk('call', 'len', (v,), ()) else True if t is mk('truthy', v) else None).lits(lp.a[0]) is not False:
                return False
        elif st:
            if len(st) != 1 or args(st[0])[1] is not k or args(st[0])[2] is not v:
                return False
            if Cases(lambda t: 1 if t is mk('call', 'len', (v,), ()) else True if t is mk('truthy', v) else None).lits(lp.a[0]) is not False:
                return False
        else:
            L1 = mk('lt', const(1), mk('call', 'len', (v,), ()))
            if not holds(lp.a[0], lambda a, q: (a is L1 and not q) or (a.op == 'eq' and a.a[0] is L1.a[1] and num(a.a[1]) and a.a[1].a[0] <= 1 and q)
                         or (a.op == 'truthy' and a.a[0] is v and not q)):
                return False
    return True


def added(lp, n):
    """-> [(dict, key, error)] of the groups the note n is added to on this path; error: what happens to the notes already in the group"""
    slot, cnt, old, where = {}, {}, {}, {}
    order = []

    def count(t):
        return sum(1 for x in t.a if x is n) if t.op in ('list', 'tuple') else 1 if mentions(t, lambda s: s is n) else 0
    for e in lp.a[1]:
        if kind(e) == 'store':
            D, k, v = args(e)
            d = dargs(e)[2]
            if v is mk('item', D, k):
                slot.pop((D, k), None)
                continue
            if v.op == 'new':
                cnt[v] = count(d)
                slot[(D, k)] = v
                if mentions(d, lambda t: is_slot(t, D, k)):
                    old[v] = True
            elif v.op in ('bin', 'list', 'lin') and mentions(d, lambda t: t is n):
                slot[(D, k)] = v
                cnt[v] = count(d)
                old[v] = mentions(d, lambda t: is_slot(t, D, k))
            else:
                continue
            order.append((D, k))
        elif kind(e) == 'mut' and args(e)[1] in ('append', 'add', 'insert') and n in args(e)[2]:
            b = args(e)[0]
            if b.op == 'item':
                slot.setdefault((b.a[0], b.a[1]), b)
                order.append((b.a[0], b.a[1]))
            cnt[b] = cnt.get(b, 0) + 1
            if b.op != 'item':
                where[b] = True
    out = []
    for key in dict.fromkeys(order):
        D, k = key
        v = slot.get(key, mk('item', D, k))
        missing = holds(lp.a[0], lambda a, q: not q and a.op == 'in' and a.a[0] is k and same_obj(a.a[1], D) or
                        q and a.op == 'exc' or q and a.op == 'isnone' and (is_slot(a.a[0], D, k) or a.a[0].op == 'mcall' and a.a[0].a[0] is D and k in a.a[0].a[2]))
        there = D.op == 'new' and D.a[0] == 'defaultdict' or holds(lp.a[0], lambda a, q: q and a.op == 'in' and a.a[0] is k and same_obj(a.a[1], D))
        where.pop(v, None)
        if v.op == 'item':
            err = 'it may be the first note of its group' if not there else None
        elif old.get(v):
            err = None
        else:
            err = 'the notes already in its group may be dropped' if not missing else None
        for _ in range(cnt.get(v, 0)):
            out.append((D, k, err))
        if not cnt.get(v, 0) and err:
            out.append((D, k, err))
    for b in where:
        out.append((b, None, None))
    return out


# ------------------------------------------------------------------ G05
def chunk_of(val, PG, size):
    """val is one part of the pitch set PG cut in parts of `size` by a recognised idiom"""
    f = frozen_of(val)
    f = val if f is None else f
    if f.op == 'call' and f.a[0] in ('list', 'tuple', 'set'):
        f = f.a[1][0]
    base, n = None, None
    if f.op == 'call' and f.a[0] == 'itertools.islice' and len(f.a[1]) == 2:
        base, n = f.a[1]
        return strip_iter(base) is PG and n is size
    if f.op == 'item' and f.a[1].op == 'slice':
        lo, hi, step = f.a[1].a
        if lo.op == 'elem' and lo.a[0].op == 'range' and is_const(step, None):
            a, b, c = lo.a[0].a
            return strip_iter(f.a[0]) is PG and is_const(a, 0) and c is size and lenarg(b) is not None and strip_iter(lenarg(b)) is PG \
                and binop('-', hi, lo) is size
    return False


def strip_iter(t):
    while t.op == 'call' and t.a[0] in ('iter', 'list', 'tuple', 'sorted') and len(t.a[1]) == 1 or t.op == 'sorted':
        t = t.a[1][0] if t.op == 'call' else t.a[0]
    return t


def max_velocity_entry(e, lp, D, n):
    """store into D of the loudest velocity per pitch"""
    pitch, vel = mk('attr', n, '_pitch'), mk('attr', n, '_velocity')
    if args(e)[1] is not pitch:
        return False
    v = args(e)[2]
    slot = lambda t: is_slot(t, D, pitch)
    missing = holds(lp.a[0], lambda a, q: a.op == 'in' and a.a[0] is pitch and same_obj(a.a[1], D) and not q)
    there = D.op == 'new' and D.a[0] == 'defaultdict' or holds(lp.a[0], lambda a, q: a.op == 'in' and a.a[0] is pitch and same_obj(a.a[1], D) and q or a.op == 'exc' and not q)
    if not missing and not there and any(t.op == 'item' and slot(t) for x in (v,) + tuple(a for a, _ in all_lits(lp.a[0])) for t in subterms(x)):
        return False
    if v is vel:
        return missing or holds(lp.a[0], lambda a, q: (a.op == 'lt' and slot(a.a[0]) and a.a[1] is vel and q) or
                                (a.op == 'lt' and a.a[0] is vel and slot(a.a[1]) and not q))
    if v.op == 'mm' and v.a[0] == 'max':
        xs = list(v.a[1])
    elif v.op == 'call' and v.a[0] == 'max':
        xs = list(v.a[1])
    else:
        return False
    return any(x is vel for x in xs) and all(x is vel or slot(x) or (num(x) and x.a[0] <= 0) for x in xs) and (missing or any(slot(x) for x in xs))


@prop('G05', 'For every step the pitch set handed to create_tensor is traced back to its group: whole when it fits, otherwise a part cut by a '
      'lossless chunking of feature size; the velocity row is traced to the loudest velocity per pitch, listed in the order of the same set; '
      'create_tensor is checked to write both rows from position 0 in the order of their arguments.',
      assumptions=['iterating one frozenset object twice gives the same order'])
def g05(ctx):
    R = 'G05.split'
    ctx.rule(R, 'the pitch set of a step is its whole group when that is not larger than the feature size, otherwise one part of a lossless cut into parts of feature size')
    R2 = 'G05.velocity'
    ctx.rule(R2, 'entry i of the velocities handed on belongs to entry i of the pitch set and is the loudest velocity of that pitch in the group')
    size = mk('param', 'feature_vec_size')
    parts = 0
    for p, G, steps, sk, stray in all_steps(ctx):
        for s in steps:
            h = node_id(s)
            S = hash_of(h) if h is not None else None
            fcs = [args(e)[0] for e in s.lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == M + '.create_tensor']
            if S is None or len(fcs) != 1:
                ctx.bad(R, 'build_sequence:tensor', 'a step makes %d tensors' % len(fcs), L_loc(s.loop))
                continue
            fc = fcs[0]
            ctx.need(fc_arg(fc, 'pitch_set') is S, R, 'build_sequence:pitches', 'the tensor is made of %s, not of the pitch set of the node' % short(fc_arg(fc, 'pitch_set')), L_loc(s.loop))
            ctx.need(fc_arg(fc, 'feature_vec_size') is size, R, 'build_sequence:size', 'the tensor has size %s' % short(fc_arg(fc, 'feature_vec_size')), L_loc(s.loop))
            for val, ch in group_sets(p, S):
                notes = notes_of_group(val)
                whole = frozen_of(val) is not None and pitch_map(frozen_of(val)) is not None
                if whole:
                    n = mk('call', 'len', (val,), ())
                    ctx.need(holds(s.guards, lambda a, q: a.op == 'lt' and a.a[0] is size and a.a[1] is n and not q), R, 'build_sequence:fits',
                             'a group is used whole although it may be larger than the feature size', L_loc(s.loop))
                else:
                    parts += 1
                    PG = None
                    for t in subterms(val):
                        if frozen_of(t) is not None and pitch_map(frozen_of(t)) is not None:
                            PG = t
                    ctx.need(PG is not None and chunk_of(val, PG, size) and chunk_complete(ch, PG, size, val), R, 'build_sequence:parts',
                             'a large group is cut into %s' % short(val), L_loc(s.loop))
            V = fc_arg(fc, 'velocity_set')
            inc = mk('param', 'is_include_velocity')
            on = holds(s.guards, lambda a, q: a.a and a.a[0] is inc and (a.op == 'truthy' and q))
            if V is NONE:
                off = holds(s.guards, lambda a, q: a.a and a.a[0] is inc and (a.op == 'truthy' and not q or a.op == 'isnone' and q))
                ctx.need(off, R2, 'build_sequence:missing', 'velocities are requested but not handed on', L_loc(s.loop))
                continue
            ctx.need(on, R2, 'build_sequence:unasked', 'velocities are handed on without being requested', L_loc(s.loop))
            # resolve through the rescaling
            src = None
            for e in s.lp.a[1]:
                if kind(e) == 'fcall' and args(e)[0] is V:
                    src = fc_arg(dargs(e)[0], 'velocities')
            if V.op == 'fcall' and V.a[0] == M + '.rescale_velocities':
                if src is None:
                    src = fc_arg(V, 'velocities')
            else:
                src = V
            ok = False
            if src is not None and src.op == 'map' and not src.a[1] and src.a[0] is S and len(src.a[2]) == 1:
                (g, v), = src.a[2]
                el = mk('elem', S, src.a[3])
                if not g and v.op == 'item' and v.a[1] is el:
                    D = v.a[0]
                    if D.op == 'content':
                        D = mk('new', *D.a[0].a)
                    ok = loudest(s, D, S, p)
                elif not g:
                    ok = loudest_direct(v, el, S, p)
            ctx.need(ok, R2, 'build_sequence:velocities', 'the velocities handed on are %s' % (short(src) if src is not None else '?'), L_loc(s.loop))
    ctx.floor(R, 8)
    ctx.floor(R2, 8)
    ctx.need(parts > 0, R, 'build_sequence:large', 'a group larger than the feature size never becomes a step', ctx.p.func(M + '.build_sequence').loc())
    R3 = 'G05.rows'
    ctx.rule(R3, 'create_tensor writes the pitches of the set, and the velocities, into their rows from position 0 in the order given')
    tensor_rule(ctx, R3)


NAT = PKG + 'midi_graph_builder.NodeAttributeType'


class Row:
    """what a tensor is made of, with n pitches and size f"""
    def __init__(self, cs, p, n, f):
        self.cs, self.p, self.n, self.f = cs, p, n, f

    def vec(self, t):
        """-> (source, length) of a plain vector of the values of P or V, or a part from its start"""
        if t.op == 'call' and t.a[0].split('.')[-1] in ('FloatTensor', 'tensor', 'as_tensor', 'Tensor', 'LongTensor', 'list', 'tuple', 'array', 'asarray') and t.a[1]:
            return self.vec(t.a[1][0])
        if t.op == 'mcall' and t.a[1] in ('float', 'long', 'int', 'clone') and not t.a[2]:
            return self.vec(t.a[0])
        if t.op == 'item' and t.a[1].op == 'slice':
            v = self.vec(t.a[0])
            lo, hi, st = t.a[1].a
            if v is None or not (is_const(lo, None) or is_const(lo, 0)) or not is_const(st, None) and not is_const(st, 1):
                return None
            h = self.number(hi) if hi is not NONE else v[1]
            return (v[0], min(v[1], h)) if isinstance(h, int) else None
        if t.op == 'param' and t.a[0] in ('pitch_set', 'velocity_set'):
            return t.a[0], self.n
        if t.op == 'alts':
            got = {self.vec(v) for g, v in t.a[0] if self.cs.lits(g) is not False}
            return got.pop() if len(got) == 1 else None
        return None

    def number(self, t):
        return self.cs.value(t)

    def row(self, t):
        """-> (source, values kept, total length) of a vector padded with zeros"""
        made = [e for e in self.p.events if kind(e) == 'alloc' and args(e)[0] is t]
        if made and len(made) == 1 and t.op == 'res' and t.a[0].op == 'call' and t.a[0].a[0] == 'torch.zeros':
            c = t.a[0]
            dt = dict(c.a[2]).get('dtype')
            if dt is not None and not (dt.op == 'ext' and 'float' in dt.a[0]):
                return None
            size = [self.number(x) for x in c.a[1]]
            st = [e for e in self.p.events if kind(e) in ('store', 'mut') and args(e)[0] is t]
            if len(size) != 1 or len(st) != 1 or kind(st[0]) != 'store':
                return None
            _, k, v = args(st[0])
            src = self.vec(v)
            if src is None or k.op != 'slice' or not (is_const(k.a[0], None) or is_const(k.a[0], 0)) or not is_const(k.a[2], None):
                return None
            stop = self.number(k.a[1])
            if stop != src[1]:
                return None
            return src[0], src[1], size[0]
        return None

    def rows(self, t):
        if t.op == 'call' and t.a[0] in ('torch.cat', 'torch.stack', 'torch.vstack', 'torch.concat') and t.a[1]:
            xs, dim = t.a[1][0], kw_of(t.a[2], 'dim', t.a[1][1] if len(t.a[1]) > 1 else const(0))
            if xs.op not in ('list', 'tuple') or not is_const(dim, 0):
                return None
            out = []
            for x in xs.a:
                if t.a[0] != 'torch.stack' and t.a[0] != 'torch.vstack':
                    if x.op == 'mcall' and x.a[1] == 'unsqueeze' and len(x.a[2]) == 1 and is_const(x.a[2][0], 0):
                        x = x.a[0]
                    elif x.op == 'item' and is_const(x.a[1], None):
                        x = x.a[0]
                    else:
                        return None
                out.append(self.row(x))
            return out
        r = self.row(t)
        return None if r is None else r

    def onehot(self, t):
        """-> (source, number of classes)"""
        if t.op == 'mcall' and t.a[1] in ('float', 'long', 'int') and not t.a[2]:
            return self.onehot(t.a[0])
        if t.op == 'call' and t.a[0] == 'torch.nn.functional.one_hot' and t.a[1]:
            v = self.vec(t.a[1][0])
            n = kw_of(t.a[2], 'num_classes', t.a[1][1] if len(t.a[1]) > 1 else None)
            return (v[0], v[1], self.number(n)) if v is not None and n is not None else None
        return None


@prop('G11', 'The return paths of create_tensor are evaluated for each encoding, with and without velocities, for sets smaller than, as large as and larger than the feature '
      'size; every node added by build_sequence must carry the tensor made in its own step for its own set.')
def g11(ctx):
    R, R2 = 'G11.tensor', 'G11.node'
    ctx.rule(R, 'the tensor of a set has one row (two with velocities) of feature size with the values from position 0 and zeros after them, or one one-hot row per pitch')
    ctx.rule(R2, 'the attribute of a node is the tensor made from its own set, with the encoding asked for')
    tensor_rule(ctx, R)
    node_rule(ctx, R2)


def tensor_rule(ctx, R):
    fn = M + '.create_tensor'
    loc = ctx.p.func(fn).loc()
    ps = ctx.run(fn)
    V = mk('param', 'velocity_set')
    for enc in ('Tensor', 'OneHotTensor'):
        for vel in (False, True):
            for n, f in ((3, 12), (12, 12), (4, 3)):
                def leaf(t):
                    if t.op == 'eq' or t.op == 'is':
                        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                            if x.op == 'param' and x.a[0] == 'node_attr_type' and y.op == 'enum':
                                return y.a[1] == enc
                    if t.op == 'enum' and t.a[0] == NAT:
                        return t.a[1]
                    if t.op == 'param':
                        return {'node_attr_type': enc, 'feature_vec_size': f, 'num_classes': 128}.get(t.a[0])
                    if t.op == 'isnone':
                        x = t.a[0]
                        return not vel if x is V else False if x.op == 'param' else not vel if mentions(x, lambda s: s is V) else None
                    if t.op == 'isinst':
                        return None
                    if t.op == 'truthy':
                        x = t.a[0]
                        if x is V:
                            return vel
                        if x.op == 'call' and x.a[0] == 'numpy.isscalar':
                            return False
                        if x.op == 'call' and x.a[0] in ('torch.all', 'all'):
                            return True
                        if x.op == 'mcall' and x.a[1] == 'all':
                            return True
                        return None
                    # the number of values of a vector
                    x = None
                    if t.op == 'item' and is_const(t.a[1], 0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
                        x = t.a[0].a[0]
                    if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1:
                        x = t.a[1][0]
                    if t.op == 'mcall' and t.a[1] in ('size', 'numel') and (not t.a[2] or is_const(t.a[2][0], 0)):
                        x = t.a[0]
                    if x is not None:
                        v = Row(cs, None, n, f).vec(x)
                        return None if v is None else v[1]
                    return None
                cs = Cases(leaf)
                what = '%s, %s velocities, %d pitches, size %d' % (enc, 'with' if vel else 'no', n, f)
                got = 0
                for p in ps:
                    if cs.lits(p.guards) is False:
                        continue
                    if p.kind != 'return':
                        ctx.need(cs.lits(p.guards) is None, R, 'create_tensor:%s' % enc, '%s: an error is raised' % what, loc)
                        continue
                    got += 1
                    rw = Row(cs, p, n, f)
                    m = min(n, f)
                    if enc == 'Tensor' and not vel:
                        ctx.need(rw.rows(p.value) == ('pitch_set', m, f), R, 'create_tensor:Tensor', '%s: the tensor is %s' % (what, short(p.value, 80)), loc)
                    elif enc == 'Tensor':
                        if n > f:
                            continue
                        ctx.need(rw.rows(p.value) == [('pitch_set', m, f), ('velocity_set', m, f)], R, 'create_tensor:Tensor velocities',
                                 '%s: the tensor is %s' % (what, short(p.value, 80)), loc)
                    elif not vel:
                        ctx.need(rw.onehot(p.value) == ('pitch_set', n, 128), R, 'create_tensor:OneHot', '%s: the tensor is %s' % (what, short(p.value, 80)), loc)
                    else:
                        v, ok = p.value, False
                        if v.op == 'call' and v.a[0] in ('torch.cat', 'torch.concat') and v.a[1] and v.a[1][0].op in ('list', 'tuple') and len(v.a[1][0].a) == 2:
                            a, b = v.a[1][0].a
                            dim = kw_of(v.a[2], 'dim', v.a[1][1] if len(v.a[1]) > 1 else const(0))
                            col = b.op == 'mcall' and b.a[1] == 'unsqueeze' and cs.value(b.a[2][0]) in (1, -1) and rw.vec(b.a[0]) == ('velocity_set', n)
                            ok = rw.onehot(a) == ('pitch_set', n, 128) and col and cs.value(dim) in (1, -1)
                        ctx.need(ok, R, 'create_tensor:OneHot velocities', '%s: the tensor is %s' % (what, short(p.value, 80)), loc)
                ctx.need(got > 0, R, 'create_tensor:%s' % enc, '%s: no tensor is made' % what, loc)
    ctx.floor(R, 18)


def node_rule(ctx, R2):
    fn = M + '.create_tensor'
    for p, G, steps, sk, stray in all_steps(ctx):
        for e, _ in walk(p.events):
            b = changed_tensor(e, G, fn)
            ctx.need(b is None, R2, 'build_sequence:kept', b or '', eloc(e))
        for s in steps:
            for e in s.lp.a[1]:
                if kind(e) != 'mut' or args(e)[0] is not G or args(e)[1] != 'add_node':
                    continue
                x = kw_of(args(e)[3], 'attr')
                if not ctx.need(x is not None and x.op == 'fcall' and x.a[0] == fn, R2, 'build_sequence:attr', 'the attribute of a node is %s' % (short(x, 60) if x is not None else 'missing'), eloc(e)):
                    continue
                S = hash_of(args(e)[2][0]) if args(e)[2] else None
                n = fc_arg(x, 'num_classes')
                ctx.need(S is not None and fc_arg(x, 'pitch_set') is S and fc_arg(x, 'node_attr_type') is mk('param', 'node_attr_type'), R2, 'build_sequence:attr',
                         'a node carries the tensor of another set or encoding', eloc(e))
                ctx.need(num(n) and n.a[0] >= 128, R2, 'build_sequence:classes', 'one-hot rows have %s classes, there are 128 MIDI pitches' % short(n), eloc(e))
                ctx.need(kw_of(args(e)[3], 'label') is not None, R2, 'build_sequence:label', 'a node has no label', eloc(e))
    ctx.floor(R2, 6)


def part_of(t, stop):
    """the object the term is part of that satisfies stop, or None"""
    while isinstance(t, T):
        if stop(t):
            return t
        if t.op not in ('attr', 'elem', 'item', 'cur', 'mcall', 'mres', 'copyof', 'idx'):
            return None
        t = t.a[0]
    return None


def built_kept(ctx, p, rid):
    """build() changes no graph and no converted graph once it was made"""
    BSQ, NX = M + '.build_sequence', M + '.from_midi_networkx'
    for e, _ in walk(p.events):
        if kind(e) in ('store', 'setattr', 'delitem', 'delattr') and isinstance(args(e)[0], T):
            x = part_of(args(e)[0], lambda t: t.op == 'fcall' and t.a[0] in (BSQ, NX) or t.op in ('elem', 'item') and (
                is_attr(t.a[0], '_pyg_data') or is_attr(t.a[0], '_sub_graphs')))
            ctx.need(x is None, rid, 'build:changed', 'a graph is changed after it was built (%s)' % short(args(e)[0], 80), eloc(e))


def build_runs(ctx):
    return ctx.run(M + '.build', opaque=(M + '.build_sequence', M + '.from_midi_networkx', SEQS + '.__getitem__', SEQS + '.__iter__', SEQS + '.__len__'),
                   hints={('MidiGraphBuilder', 'midi_sequences'): 'MidiNoteSequences'})


def changed_tensor(e, G, fn):
    """why this event changes the tensor of a node after it was made, or None"""
    if kind(e) not in ('store', 'setattr', 'delitem', 'mut') or not isinstance(args(e)[0], T):
        return None
    t = args(e)[0]
    made = part_of(t, lambda x: x.op == 'fcall' and x.a[0] == fn)
    of_node = part_of(t, lambda x: x.op == 'item' and is_const(x.a[1], 'attr') and mentions(x.a[0], lambda y: y is G))
    if kind(e) == 'mut':
        if (made is not None or of_node is not None) and args(e)[1].endswith('_') and not args(e)[1].startswith('_'):
            return 'the tensor of a node is changed in place by %s' % args(e)[1]
        return None
    if made is not None or of_node is not None:
        return 'the tensor of a node is changed after it was made'
    if kind(e) == 'store' and args(e)[1] is const('attr') and mentions(t, lambda y: y is G):
        v = dargs(e)[2]
        if not (v is mk('item', t, const('attr')) or v.op == 'fcall' and v.a[0] == fn):
            return 'the tensor of a node is replaced by %s' % short(v, 80)
    return None


def chunk_complete(ch, PG, size, val):
    """the loop that makes the parts ends only when nothing is left"""
    f = frozen_of(val)
    f = val if f is None else f
    if not ch:
        return True
    L, lp = ch[-1]
    if f.op == 'call' and f.a[0] == 'itertools.islice' or (f.op == 'call' and f.a[1] and f.a[1][0].op == 'call' and f.a[1][0].a[0] == 'itertools.islice'):
        for q in L.a[3]:
            if out_kind(q) == 'break' and not holds(q.a[0], lambda a, pol: a.op == 'truthy' and not pol and mentions(a, lambda t: t.op == 'call' and t.a[0] == 'itertools.islice')):
                return False
            if normal(q) and not any(kind(e) == 'mut' and args(e)[1] in ('append', 'add') for e in q.a[1]):
                return False
        return any(out_kind(q) == 'break' for q in L.a[3])
    return all(normal(q) and any(kind(e) == 'mut' and args(e)[1] in ('append', 'add') for e in q.a[1]) for q in L.a[3])


def tensor_source(t):
    while True:
        if t.op == 'call' and t.a[0].split('.')[-1] in ('FloatTensor', 'tensor', 'Tensor', 'LongTensor', 'as_tensor', 'list', 'tuple') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'item' and t.a[1].op == 'slice' and (is_const(t.a[1].a[0], None) or is_const(t.a[1].a[0], 0)) and is_const(t.a[1].a[2], None):
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] in ('float', 'long') and not t.a[2]:
            t = t.a[0]
        elif t.op in ('param', 'map', 'sorted', 'const'):
            return t
        else:
            return t


def loudest_direct(v, el, S, p):
    """v is max(n.velocity for the notes n of the group whose pitch is el)"""
    m = None
    if v.op == 'mm' and v.a[0] == 'max' or v.op == 'call' and v.a[0] == 'max':
        for t in subterms(v):
            if t.op == 'map' and all(notes_of_group(x) is t.a[0] for x, _ in group_sets(p, S)):
                m = t
    if m is None or len(m.a[2]) != 1:
        return False
    (g, x), = m.a[2]
    n = mk('elem', m.a[0], m.a[3])
    pitch = mk('attr', n, '_pitch')
    return x is mk('attr', n, '_velocity') and len(g) == 1 and all(
        q and a.op == 'eq' and {a.a[0], a.a[1]} == {pitch, el} for a, q in g)


def loudest(s, D, S, p):
    """D maps each pitch of S to its loudest velocity among the notes of the group"""
    fills = []
    for e in s.lp.a[1]:
        if kind(e) == 'loop':
            L = e.a[1][0]
            if any(kind(x) == 'store' and args(x)[0] is D for lp in L.a[3] for x in lp.a[1]):
                fills.append(L)
        elif kind(e) in ('store', 'mut', 'delitem') and args(e)[0] is D:
            return False
    if len(fills) != 1:
        return False
    L = fills[0]
    groups = [notes_of_group(v) for v, _ in group_sets(p, S)]
    if not all(g is L.a[0] for g in groups):
        return False
    n = mk('elem', L.a[0], L.a[2])
    pitch, vel = mk('attr', n, '_pitch'), mk('attr', n, '_velocity')
    for lp in L.a[3]:
        if not normal(lp):
            return False
        st = [e for e in lp.a[1] if kind(e) in ('store', 'mut', 'delitem') and args(e)[0] is D]
        if not st:
            slot = lambda t: is_slot(t, D, pitch)
            if not holds(lp.a[0], lambda a, q: (not q and a.op == 'in' and a.a[0] is pitch and a.a[1] is S) or
                         (a.op == 'lt' and slot(a.a[0]) and a.a[1] is vel and not q) or (a.op == 'lt' and a.a[0] is vel and slot(a.a[1]) and q)):
                return False
            continue
        if len(st) != 1 or kind(st[0]) != 'store' or not max_velocity_entry(st[0], lp, D, n):
            return False
    return True


# ------------------------------------------------------------------ G06
@prop('G06', 'The generator that hands out graphs is checked path by path: each iteration takes the first pending graph off the list before '
      'yielding it, yields exactly once, labels it through the index table, and iteration stops only when nothing is pending.')
def g06(ctx):
    R = 'G06.emit'
    ctx.rule(R, 'each iteration removes the first pending graph, then yields that graph exactly once; it ends only when none is pending')
    R2 = 'G06.label'
    ctx.rule(R2, 'label and y of a yielded graph hold, for each node in order, the index of its node hash')
    for entry in ('graphs', '__iter__'):
        fn = M + '.' + entry
        f = ctx.p.func(fn)
        nl = 0
        for p in ctx.run(fn):
            if p.kind != 'return':
                continue
            ylds = [(e, ch) for e, ch in walk(p.events) if kind(e) == 'yield']
            ys = {ch[0][0] for e, ch in ylds if ch}
            if any(not ch for e, ch in ylds) or len(ys) != 1:
                ctx.bad(R, entry, 'graphs are yielded from %d loops' % len(ys), f.loc())
                continue
            L, = ys
            nl += 1
            pend = None
            for lp in L.a[3]:
                direct = lp.a[1]
                yl = [i for i, e in enumerate(direct) if kind(e) == 'yield']
                if out_kind(lp) == 'raise':
                    continue
                if out_kind(lp) == 'break':
                    ok = holds(lp.a[0], lambda a, q: a.op == 'truthy' and not q and pending(a.a[0], '_pyg_data')) and not yl
                    ctx.need(ok, R, entry + ':end', 'iteration stops when %s' % glits(lp), L_loc(L))
                    continue
                if len(yl) != 1 or len([1 for e, ch in walk(direct) if kind(e) == 'yield']) != 1:
                    ctx.bad(R, entry + ':yield', 'a pending graph is yielded %d times when %s' % (len(yl), glits(lp)), L_loc(L))
                    continue
                y = args(direct[yl[0]])[0]
                taken = None
                for i, e in enumerate(direct):
                    if kind(e) == 'mut' and is_attr(args(e)[0], '_pyg_data'):
                        m, a = args(e)[1], args(e)[2]
                        if (m == 'pop' and len(a) == 1 and is_const(a[0], 0)) or m == 'popleft':
                            taken = (i, 'head') if taken is None else (i, 'twice')
                        else:
                            taken = (i, m)
                    elif kind(e) in ('delitem',) and is_attr(args(e)[0], '_pyg_data'):
                        taken = (i, 'head') if taken is None and head_slice(args(e)[1]) else (i, 'del')
                    elif kind(e) == 'setattr' and args(e)[1] == '_pyg_data':
                        taken = (i, 'head') if taken is None and tail_of(dargs(e)[2], '_pyg_data') else (i, 'an assignment')
                if taken is None:
                    # the pending list was taken over before the loop
                    src = [e for e in p.events if kind(e) == 'setattr' and args(e)[1] == '_pyg_data'] + \
                          [e for e in p.events if kind(e) == 'mut' and is_attr(args(e)[0], '_pyg_data') and args(e)[1] == 'clear']
                    ok = bool(src) and y.op == 'elem' and not L.a[1] and p.events.index(src[0]) < p.events.index(
                        next(e for e in p.events if kind(e) == 'loop' and e.a[1][0] is L))
                    ctx.need(ok, R, entry + ':take', 'a graph is yielded and stays pending', L_loc(L))
                else:
                    ctx.need(taken[1] == 'head' and taken[0] < yl[0], R, entry + ':take',
                             'the graph is taken off the pending list by %s, %s yielding' % (taken[1], 'before' if taken[0] < yl[0] else 'after'), L_loc(L))
                    ok = y.op == 'mres' and is_attr(y.a[0], '_pyg_data') and y.a[1] in ('pop', 'popleft') or \
                        (y.op == 'item' and pending(y.a[0], '_pyg_data') and is_const(y.a[1], 0))
                    ctx.need(ok, R, entry + ':value', 'what is yielded is %s, not the graph taken off the list' % short(y), L_loc(L))
                sub = [e for e in direct if (kind(e) == 'delitem' and is_attr(args(e)[0], '_sub_graphs') and head_slice(args(e)[1])) or
                       (kind(e) == 'mut' and is_attr(args(e)[0], '_sub_graphs') and args(e)[1] == 'pop' and args(e)[2][:1] == (const(0),))
                       or (kind(e) == 'mut' and is_attr(args(e)[0], '_sub_graphs') and args(e)[1] in ('clear', 'popleft'))
                       or (kind(e) == 'setattr' and args(e)[1] == '_sub_graphs' and tail_of(dargs(e)[2], '_sub_graphs'))]
                none = holds(lp.a[0], lambda a, q: a.op == 'truthy' and not q and pending(a.a[0], '_sub_graphs'))
                left = [e for e in p.events if kind(e) in ('mut', 'setattr') and (is_attr(args(e)[0], '_sub_graphs') or args(e)[1] == '_sub_graphs')]
                ctx.need(bool(sub or left or none), R, entry + ':pending', 'the networkx graph of a yielded graph stays pending', L_loc(L))
                # labels
                want = None
                for e in direct[:yl[0]]:
                    if kind(e) == 'setattr' and args(e)[0] is y:
                        v = dargs(e)[2]
                        if args(e)[1] == 'y':
                            src = v.a[1][0] if v.op == 'call' and v.a[0] in ('torch.tensor', 'torch.LongTensor', 'torch.as_tensor') else v
                            ctx.need(index_list(src, y), R2, entry + ':y', 'y is %s' % short(v), eloc(e))
                            ctx.need(holds_ints(v), R2, entry + ':y:type', 'y is %s, which cannot hold every index' % short(v), eloc(e))
                        elif args(e)[1] == 'label' and v is not NONE:
                            ctx.need(index_list(v, y), R2, entry + ':label', 'label is %s' % short(v), eloc(e))
                            want = e
                        elif args(e)[1] == 'label':
                            ctx.need(holds(lp.a[0], lambda a, q: q and a.op == 'truthy' and a.a[0] is mk('param', 'skip_label')) or entry == '__iter__', R2, entry + ':skip',
                                     'the label is removed although that was not requested', eloc(e))
                names = [args(e)[1] for e in direct[:yl[0]] if kind(e) == 'setattr' and args(e)[0] is y]
                ints = [t for a, _ in all_lits(lp.a[0]) for t in subterms(a) if t.op == 'mcall' and t.a[0].op == 'item' and
                        (self_table(t.a[0].a[0]) or '').endswith('index')]
                ctx.need(not ints, R2, entry + ':int', 'the index of a node, an int, is asked for %s' % (ints[0].a[1] if ints else ''), L_loc(L))
                ctx.need('y' in names and 'label' in names, R2, entry + ':missing', 'a graph is yielded without %s' % ('y' if 'y' not in names else 'label'), L_loc(L))
        ctx.need(nl > 0, R, entry, 'no loop hands out graphs', f.loc())


def holds_ints(v):
    """the tensor made has an element type that holds every index exactly"""
    if v.op != 'call' or v.a[0] == 'torch.LongTensor':
        return True
    d = dict(v.a[2]).get('dtype') if len(v.a) > 2 else None
    return d is None or d.op == 'const' and d.a[0] is None or d.op == 'ext' and d.a[0] in ('torch.long', 'torch.int64', 'torch.int32', 'torch.int', 'builtins.int')


def pending(t, name):
    """the pending list, as it is or as the loop left it"""
    return is_attr(t, name) or t.op == 'lh' and t.a[2] == name


def tail_of(v, name):
    """the pending list without its first graph"""
    return v.op == 'item' and pending(v.a[0], name) and v.a[1].op == 'slice' and is_const(v.a[1].a[0], 1) and \
        all(x is NONE or is_const(x, None) or (k == 1 and is_const(x, 1)) for k, x in enumerate(v.a[1].a[1:]))


def head_slice(k):
    if k.op == 'slice':
        return (is_const(k.a[0], None) or is_const(k.a[0], 0)) and is_const(k.a[1], 1)
    return is_const(k, 0)


def index_list(v, g):
    """one index per node hash of g, in order, through the hash -> index table"""
    if v.op == 'map' and not v.a[1] and len(v.a[2]) == 1:
        (gd, x), = v.a[2]
        b = v.a[0]
        el = mk('elem', b, v.a[3])
        return not gd and is_attr(b, 'node_hash') and b.a[0] is g and x.op == 'item' and self_table(x.a[0]) == '_hash_to_index' and x.a[1] is el
    return False


# ------------------------------------------------------------------ G08
OPTS = ('feature_vec_size', 'velocity_num_buckets', 'node_attr_type', 'filter_single_notes', 'tolerance', 'is_include_velocity')


@prop('G08', 'Every iteration path of the build loop is checked: a sequence is passed over only when it is a drum track or has exactly one note, '
      'otherwise build_sequence is called once with every option under its own name; its graph is stored once (per instrument) or carried into the '
      'merged graph, which is converted and stored once at the end.')
def g08(ctx):
    R = 'G08.visit'
    ctx.rule(R, 'each sequence is either a drum track, or has exactly one note, or is built exactly once with all options passed on under their own names')
    R2 = 'G08.store'
    ctx.rule(R2, 'each non-empty graph is converted and stored once (per instrument), or becomes part of the merged graph that is stored once')
    fn = M + '.build'
    BSQ, NX = M + '.build_sequence', M + '.from_midi_networkx'
    ps = ctx.run(fn, opaque=(BSQ, NX, SEQS + '.__getitem__', SEQS + '.__iter__', SEQS + '.__len__'),
                 hints={('MidiGraphBuilder', 'midi_sequences'): 'MidiNoteSequences'})
    per = mk('param', 'is_per_instrument')
    f = ctx.p.func(fn)
    for p in ps:
        if p.kind != 'return':
            continue
        built_kept(ctx, p, R2)
        ls = [L for L, ch in loops(p.events) if any(kind(e) == 'fcall' and args(e)[0].a[0] == BSQ for e, _ in walk([x for lp in L.a[3] for x in lp.a[1]]))]
        if len(ls) != 1:
            ctx.bad(R, 'build:loop', '%d loops build sequences' % len(ls), f.loc())
            continue
        L = ls[0]
        given = mk('param', 'midi_seqs')
        none = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is given and q)
        some = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is given and not q)
        src = root(L.a[0])
        own = any(is_attr(t, x) and t.a[0] is mk('param', 'self') for t in subterms(L.a[0]) for x in ('midi_sequences', '_midi_sequences'))
        ctx.need((some and src is given) or (none and own), R, 'build:source', 'the sequences built are %s when %s' % (
            short(L.a[0]), 'some are passed in' if some else 'none are passed in' if none else 'some may be passed in or not'), L_loc(L))
        merged_var = None
        drum = lambda want: lambda a, q: a.op == 'truthy' and is_attr(a.a[0], 'is_drum') and q is want
        lone = lambda want: lambda a, q: a.op == 'eq' and lenarg(a.a[0]) is not None and is_const(a.a[1], 1) and q is want
        full = lambda a, q: (a.op == 'truthy' and q and mentions(a.a[0], lambda t: t is fc)) or \
            (a.op == 'eq' and not q and lenarg(a.a[0]) is not None and mentions(a.a[0], lambda t: t is fc) and is_const(a.a[1], 0)) or \
            (a.op == 'lt' and q and is_const(a.a[0], 0) and mentions(a.a[1], lambda t: t is fc))
        hollow = lambda a, q: full(a, not q)
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            calls = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == BSQ]
            allg = set(lp.a[0]) | set(p.guards.items())
            if not normal(lp):
                ctx.bad(R, 'build:stop', 'building stops early when %s' % glits(lp), L_loc(L))
                continue
            if not calls:
                exc = holds(lp.a[0], lambda a, q: drum(True)(a, q) or lone(True)(a, q))
                ctx.need(exc, R, 'build:skip', 'a sequence is passed over when %s' % glits(lp), L_loc(L))
                continue
            ctx.need(len(calls) == 1, R, 'build:twice', 'a sequence is built %d times' % len(calls), L_loc(L))
            ctx.need(holds(lp.a[0], drum(False)), R, 'build:drum', 'a drum track may be built', L_loc(L))
            ctx.need(holds(lp.a[0], lone(False)), R, 'build:single', 'a sequence of one note may be built', L_loc(L))
            fc = args(calls[0])[0]
            sq = fc_arg(fc, 'seq')
            el = mk('elem', L.a[0], L.a[2])
            ctx.need(sq is el or (sq.op == 'item' and sq.a[0] is L.a[0] and sq.a[1] is el) or mentions(sq, lambda t: t is el), R, 'build:seq', 'the sequence built is %s' % short(sq), eloc(calls[0]))
            for o in OPTS:
                ctx.need(fc_arg(fc, o) is mk('param', o), R, 'build:' + o, 'option %s is passed on as %s' % (o, short(fc_arg(fc, o)) if fc_arg(fc, o) is not None else 'nothing'), eloc(calls[0]))
            nx = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == NX]
            ap = [e for e in lp.a[1] if kind(e) == 'mut' and is_attr(args(e)[0], '_pyg_data')]
            sub = [e for e in lp.a[1] if kind(e) == 'mut' and is_attr(args(e)[0], '_sub_graphs')]
            upd = [(lv, v) for lv, v in lp.a[3] if lv.op == 'lv' and v is not lv and mentions(v, lambda t: t is fc) and not num_like(v)]
            ison = holds(allg, lambda a, q: q and a.op == 'truthy' and a.a[0] is per)
            isoff = holds(allg, lambda a, q: not q and a.op == 'truthy' and a.a[0] is per)
            if holds(lp.a[0], hollow):
                ctx.need(not ap and not sub and not upd, R2, 'build:hollow', 'an empty graph is stored or replaces the merged graph', L_loc(L))
                continue
            ctx.need(holds(lp.a[0], full), R2, 'build:maybe-empty', 'a graph that may be empty is stored', L_loc(L))
            if ison:
                good = len(ap) == 1 and len(nx) == 1 and args(ap[0])[1] == 'append' and args(ap[0])[2] == (args(nx[0])[0],) and fc_arg(args(nx[0])[0], 'midi_graph') is fc
                ctx.need(good, R2, 'build:per-instrument', 'the graph of a sequence is not converted and stored exactly once', L_loc(L))
                ctx.need(len(sub) == 1 and args(sub[0])[2] == (fc,), R2, 'build:sub-graph', 'the networkx graph of a sequence is not stored exactly once', L_loc(L))
                gg = fc_arg(fc, 'g')
                ctx.need(gg is NONE, R2, 'build:separate', 'per-instrument graphs are built on top of %s' % short(gg), eloc(calls[0]))
            elif isoff:
                ctx.need(not ap and not sub, R2, 'build:merged', 'merged mode stores the graph of a single sequence', L_loc(L))
                good = len(upd) == 1
                if good:
                    lv, v = upd[0]
                    merged_var = lv
                    if v is fc:
                        good = fc_arg(fc, 'g') is lv
                    else:
                        nonnil = holds(lp.a[0], lambda a, q: (a.op == 'isnone' and a.a[0] is lv and not q) or (a.op == 'truthy' and a.a[0] is lv and q))
                        good = nonnil and (v.op == 'call' and v.a[0].endswith('compose') and set(v.a[1]) == {lv, fc} or (fc in v.a[1] and fc_arg(fc, 'g') is lv))
                    init = dict(L.a[4]).get(lv)
                    ctx.need(init is NONE, R2, 'build:merged-start', 'the merged graph starts as %s' % (short(init) if init is not None else '?'), L_loc(L))
                ctx.need(good, R2, 'build:merge', 'the graph of a sequence does not become part of the merged graph', L_loc(L))
            else:
                ctx.bad(R2, 'build:mode', 'the graph is stored without regard to the per-instrument option', L_loc(L))
        # the merged graph
        tail = [e for e in p.events if kind(e) == 'mut' and is_attr(args(e)[0], '_pyg_data')]
        nxt = [e for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == NX]
        off = holds(p.guards, lambda a, q: not q and a.op == 'truthy' and a.a[0] is per)
        some = holds(p.guards, lambda a, q: not q and a.op == 'isnone' and a.a[0].op == 'lo')
        if tail or nxt:
            good = len(tail) == 1 and len(nxt) == 1 and args(tail[0])[1] == 'append' and args(tail[0])[2] == (args(nxt[0])[0],)
            g = fc_arg(args(nxt[0])[0], 'midi_graph') if nxt else None
            good = good and g is not None and g.op == 'lo' and g.a[0] is L
            ctx.need(good and off, R2, 'build:merged-store', 'the merged graph is not converted and stored exactly once', f.loc())
            sb = [e for e in p.events if kind(e) == 'mut' and is_attr(args(e)[0], '_sub_graphs')]
            ctx.need(len(sb) == 1 and args(sb[0])[2] == (g,), R2, 'build:merged-sub', 'the merged networkx graph is not stored exactly once', f.loc())
        else:
            ok = holds(p.guards, lambda a, q: (q and a.op == 'truthy' and a.a[0] is per) or (a.op == 'isnone' and q and a.a[0].op == 'lo')
                       or (a.op == 'truthy' and not q and a.a[0].op == 'lo'))
            ctx.need(ok, R2, 'build:merged-lost', 'in merged mode the merged graph may never be stored', f.loc())
    ctx.floor(R, 10)
    ctx.floor(R2, 4)
    base_graph(ctx, 'G08.base')
    R3 = 'G08.factory'
    ctx.rule(R3, 'the factory functions hand each of their options to the builder under its own name')
    for name in ('from_file', 'from_midi_sequence', 'from_midi_sequences'):
        f = ctx.p.func(M + '.' + name)
        ps = ctx.run(M + '.' + name, opaque=(M, PKG + 'midi_reader.MidiReader.read', SEQS))
        opts = [x for x in f.params[1:] if x in ctx.p.func(M + '.__init__').params]
        for p in ps:
            if p.kind != 'return':
                continue
            ct = [args(e)[0] for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == M]
            ctx.need(len(ct) == 1, R3, name, 'does not make exactly one builder', f.loc())
            for c in ct:
                for o in opts:
                    ctx.need(fc_arg(c, o) is mk('param', o), R3, name + ':' + o, 'passes %s as %s' % (short(fc_arg(c, o)), o), f.loc())
                for k, v in c.a[1]:
                    if v.op == 'param' and v.a[0] in opts and v.a[0] != k:
                        ctx.bad(R3, name + ':' + v.a[0], 'passes option %s as %s' % (v.a[0], k), f.loc())
    ctx.floor(R3, 3)


def num_like(v):
    return v.op == 'lin' or (v.op == 'call' and v.a[0] == 'len')


# ------------------------------------------------------------------ G10
def clipped(t):
    """outermost value-changing operation clips into 0..127 -> inner term"""
    while True:
        if t.op == 'mcall' and t.a[1] in ('astype', 'tolist', 'copy', 'item') and not (t.a[1] == 'astype' and mentions(t.a[2][0] if t.a[2] else NONE, lambda s: s.op == 'const' and isinstance(s.a[0], str) and 'int8' in s.a[0])):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('int', 'float', 'list', 'round') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'item' and num(t.a[1]) and t.a[1].a[0] in (0, -1):
            t = t.a[0]
        elif t.op == 'map' and not t.a[1] and len(t.a[2]) == 1 and not list(t.a[2])[0][0] and t.a[0].op == 'call' and \
                list(t.a[2])[0][1].op == 'call' and list(t.a[2])[0][1].a[0] in ('int', 'float') and \
                [x.op for x in list(t.a[2])[0][1].a[1]] == ['elem'] and list(t.a[2])[0][1].a[1][0].a[0] is t.a[0]:
            t = t.a[0]              # [int(v) for v in x]
        else:
            break
    lo = hi = None
    if t.op == 'call' and t.a[0] in ('numpy.clip', 'torch.clamp') and len(t.a[1]) >= 3:
        x, lo, hi = t.a[1][:3]
    elif t.op == 'mcall' and t.a[1] in ('clip', 'clamp') and len(t.a[2]) >= 2:
        x, (lo, hi) = t.a[0], t.a[2][:2]
    elif t.op == 'call' and t.a[0] in ('numpy.minimum', 'numpy.maximum', 'numpy.fmin', 'numpy.fmax') and len(t.a[1]) == 2:
        side = lambda u: 'lo' if u.a[0] in ('numpy.maximum', 'numpy.fmax') else 'hi'
        fixed = lambda u: [x for x in u.a[1] if num(x) or x.op == 'param']
        other = lambda u: [x for x in u.a[1] if not (num(x) or x.op == 'param')]
        if len(fixed(t)) != 1:
            return None
        u, = other(t)
        if u.op != 'call' or u.a[0] not in ('numpy.minimum', 'numpy.maximum', 'numpy.fmin', 'numpy.fmax') or len(u.a[1]) != 2 or \
                len(fixed(u)) != 1 or side(u) == side(t):
            return None
        d = {side(t): fixed(t)[0], side(u): fixed(u)[0]}
        x, lo, hi = other(u)[0], d['lo'], d['hi']
    elif t.op == 'mm':
        return t
    else:
        return None
    f = lambda v, d: v.a[0] if num(v) else d.get(v.a[0]) if v.op == 'param' else None
    return (x, lo, hi)


def elementwise(t, src):
    """t has one entry per entry of src, in the same order"""
    if t is src:
        return True
    if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'numpy.round', 'numpy.full_like', 'numpy.zeros_like', 'numpy.rint', 'numpy.floor') and t.a[1]:
        return elementwise(t.a[1][0], src)
    if t.op == 'res':
        return elementwise(t.a[0], src)
    if t.op == 'bin' and t.a[0] in '+-*//':
        return any(elementwise(x, src) for x in t.a[1:]) and all(elementwise(x, src) or scalar(x, src) for x in t.a[1:])
    if t.op == 'lin':
        return any(elementwise(x, src) for x, _ in t.a[1]) and all(elementwise(x, src) or scalar(x, src) for x, _ in t.a[1])
    return False


def scalar(t, src):
    if not mentions(t, lambda s: s is src):
        return True
    if t.op == 'call' and t.a[0] in ('numpy.min', 'numpy.max', 'numpy.mean', 'numpy.sum', 'min', 'max', 'sum', 'len', 'numpy.median'):
        return True
    if t.op == 'mcall' and t.a[1] in ('min', 'max', 'mean', 'sum'):
        return True
    if t.op == 'bin':
        return all(scalar(x, src) for x in t.a[1:])
    if t.op == 'lin':
        return all(scalar(x, src) for x, _ in t.a[1])
    if t.op == 'item' and num(t.a[1]):
        return True
    return False


@prop('G10', 'Every return path of the velocity scaling functions is matched: the outermost value operation is a clip into 0..127, the clipped array is an '
      'elementwise function of the input, and every divisor is a non-zero constant or excluded to be zero on that path.',
      assumptions=['callers leave the target range of rescale_velocities within 0..127 (its defaults are)', 'inputs are finite numbers'])
def g10(ctx):
    R = 'G10.range'
    ctx.rule(R, 'each returned value is clipped into 0..127 after the last arithmetic operation')
    R2 = 'G10.shape'
    ctx.rule(R2, 'the result has one value per input value in the same order')
    R3 = 'G10.divide'
    ctx.rule(R3, 'no path divides by a value that can be zero')
    for name in ('rescale_velocities', 'scale_relative_velocities'):
        fn = M + '.' + name
        f = ctx.p.func(fn)
        V = mk('param', f.params[0])
        defaults = {}
        a = f.node.args
        for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults):
            try:
                import ast
                defaults[x.arg] = ast.literal_eval(d)
            except ValueError:
                pass
        num_of = lambda t: t.a[0] if num(t) else defaults.get(t.a[0]) if t.op == 'param' else None
        for p in ctx.run(fn):
            if p.kind != 'return':
                continue
            v = p.dvalue
            single = False
            if v.op == 'list' and len(v.a) == 1:
                single = holds(p.guards, lambda a, q: q and a.op == 'eq' and lenarg(a.a[0]) is not None and is_const(a.a[1], 1))
                ctx.need(single, R2, name + ':single', 'one value is returned for any number of velocities', f.loc())
                v = v.a[0]
            if v.op == 'list' and not v.a:
                ctx.need(holds(p.guards, lambda a, q: a.op == 'truthy' and not q), R2, name + ':empty', 'nothing is returned', f.loc())
                continue
            fill = None
            if v.op == 'bin' and v.a[0] == '*':
                ls, ns = [x for x in v.a[1:] if x.op == 'list' and len(x.a) == 1], [x for x in v.a[1:] if lenarg(x) is not None]
                if len(ls) == 1 and len(ns) == 1:       # [x] * len(velocities)
                    v, fill = ls[0].a[0], lenarg(ns[0])
                    fill = mk('call', 'numpy.array', (V,), ()) if fill is V else fill
            c = clipped(v)
            if not isinstance(c, tuple):
                ctx.bad(R, name, 'returns %s without clipping it into 0..127' % short(v), f.loc())
                continue
            x, lo, hi = c
            if fill is not None:
                x = mk('call', 'numpy.full_like', (fill, x), ())
            l, h = num_of(lo), num_of(hi)
            ctx.need(l is not None and h is not None and 0 <= l and h <= 127, R, name + ':bounds', 'values are clipped into %s..%s' % (short(lo), short(hi)), f.loc())
            srcs = [t for t in subterms(x) if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray') and t.a[1][0] is V]
            loudness(ctx, name, p, x, lo, hi, srcs, V, defaults, f)
            ctx.need(bool(srcs) and elementwise(x, srcs[0]), R2, name + ':shape', 'the result is computed as %s' % short(x), f.loc())
            for t in subterms(x):
                if t.op == 'bin' and t.a[0] in ('/', '//', '%'):
                    d = t.a[2]
                    nz = (num(d) and d.a[0] != 0) or holds(p.guards, lambda a, q: nonzero_lit(a, q, d))
                    ctx.need(nz, R3, name + ':divide', 'divides by %s, which can be zero' % short(d), f.loc())
    ctx.floor(R, 4)
    ctx.floor(R3, 2)
    ctx.floor('G10.order', 3)


def loudness(ctx, name, p, x, lo, hi, srcs, V, defaults, f):
    """the rescaled value as a function of the velocity: never falls, and covers the target range"""
    R4 = 'G10.order'
    ctx.rule(R4, 'a louder note is never rescaled below a softer one, and rescaling to a target range takes the softest and the loudest note to its two ends')
    target = [defaults[k] for k in defaults if k.startswith('target')]
    whole = srcs[:1] + [V]
    for mn, mean, mx in ((20, 60, 100), (1, 30, 127), (90, 91, 93), (45, 45, 45)):
        def leaf_for(v):
            def leaf(t):
                if t in whole:
                    return v
                if t.op == 'param':
                    return defaults.get(t.a[0])
                if t.op == 'call' and t.a[1] and t.a[1][0] in whole or t.op == 'mcall' and t.a[0] in whole:
                    n = (t.a[0] if t.op == 'call' else t.a[1]).replace('numpy.', '')
                    if n in ('min', 'amin', 'max', 'amax', 'mean', 'average', 'median'):
                        return {'min': mn, 'amin': mn, 'max': mx, 'amax': mx}.get(n, mean)
                    if n == 'len':
                        return 1 if mn == mx and t in single else 3
                    if n == 'zeros_like':
                        return 0
                    if n == 'full_like' and len(t.a[1]) > 1:
                        return Cases(leaf).value(t.a[1][1])
                if t.op == 'call' and t.a[0] in ('numpy.round', 'numpy.rint', 'round', 'float', 'numpy.array', 'numpy.asarray') and t.a[1]:
                    r = Cases(leaf).value(t.a[1][0])
                    return round(r) if isinstance(r, (int, float)) and 'r' == t.a[0].replace('numpy.', '')[0] else r
                if t.op == 'res':
                    return leaf(t.a[0])
                return None
            return leaf
        single = [t for a, q in p.guards.items() for t in subterms(a) if lenarg(t) is not None] if holds(
            p.guards, lambda a, q: q and a.op == 'eq' and lenarg(a.a[0]) is not None and is_const(a.a[1], 1)) else []
        if single and mn != mx:
            mean = mx = mn
        if Cases(leaf_for(mn)).lits(all_guards(p)) is False:
            continue
        vals = []
        for v in (mn, mean, mx):
            r = Cases(leaf_for(v)).value(x)
            if not isinstance(r, (int, float)):
                ctx.bad(R4, name + ':order', 'the rescaled velocity %s cannot be related to the velocity' % short(x, 160), f.loc())
                return
            l, h = Cases(leaf_for(v)).value(lo), Cases(leaf_for(v)).value(hi)
            vals.append(min(max(r, l), h))
        ctx.need(vals == sorted(vals), R4, name + ':order', 'velocities %d <= %d <= %d become %s: louder notes become softer' % (mn, mean, mx, vals), f.loc())
        if mn != mx and not single:
            ctx.need(vals[0] != vals[2], R4, name + ':flat', 'velocities %d and %d both become %s' % (mn, mx, vals[0]), f.loc())
        if target and mn != mx and not single:
            ctx.need(abs(vals[0] - min(target)) < 1e-6 and abs(vals[2] - max(target)) < 1e-6, R4, name + ':range',
                     'velocities from %d to %d become %g to %g instead of %s' % (mn, mx, vals[0], vals[2], target), f.loc())
        elif target:
            ctx.need(min(target) <= vals[0] <= max(target), R4, name + ':range', 'a velocity of %d becomes %g, outside %s' % (mn, vals[0], target), f.loc())


def all_guards(p):
    return list(p.guards.items())


def nonzero_lit(a, q, d):
    if a.op == 'eq' and a.a[0] is d and num(a.a[1]) and a.a[1].a[0] == 0:
        return not q
    if a.op == 'truthy' and a.a[0] is d:
        return q
    if a.op == 'lt':
        if is_num0(a.a[0]) and a.a[1] is d:
            return q
        if a.a[0] is d and is_num0(a.a[1]):
            return q
        diff = binop('-', a.a[1], a.a[0])
        if diff is d:
            return q
    return False


def is_num0(t):
    return num(t) and t.a[0] == 0


# ------------------------------------------------------------------ G07
NAMES = ('hash_to_index', 'index_to_hash', 'notes_to_hash', 'hash_to_notes')


def alias_of_table(v):
    """v is, or directly holds, one of the tables of self (not a copy)"""
    if v.op == 'attr' and v.a[0].op == 'param' and v.a[1] in TABLES:
        return v
    if v.op in ('tuple', 'list'):
        for x in v.a:
            r = alias_of_table(x)
            if r is not None:
                return r
    if v.op == 'dictlit':
        for _, x in v.a[0]:
            r = alias_of_table(x)
            if r is not None:
                return r
    if v.op == 'call' and v.a[0] in ('types.MappingProxyType',):
        return None
    if v.op == 'mcall' and v.a[1] in ('keys', 'items', 'values', '__iter__'):
        return None
    return None


@prop('G07', 'Every return path of the four table properties of the builder and of the dataset is checked to return a fresh copy of the table of that name; '
      'every other public method of the two classes is checked not to hand out a table itself.')
def g07(ctx):
    R = 'G07.copy'
    ctx.rule(R, 'the table property returns a copy of the table of its own name')
    R2 = 'G07.leak'
    ctx.rule(R2, 'no public method returns or yields one of the lookup tables itself')
    for cq in (M, PKG + 'midi_dataset.MidiDataset'):
        c = ctx.p.cls(cq)
        for n in NAMES:
            f = ctx.p.func(cq + '.' + n)
            me = mk('param', f.params[0])
            rets = [p for p in ctx.run(cq + '.' + n) if p.kind == 'return']
            for p in rets:
                v = p.dvalue
                t = mk('attr', me, '_' + n)
                ok = is_fresh_copy(v, t) or v is t and p.value.op == 'new'
                ctx.need(ok, R, c.name + '.' + n, 'returns %s, which is not a copy of the %s table' % (short(v), n), f.loc())
        for name, f in sorted(c.methods.items()):
            if name.startswith('_') or name in NAMES or f.node is None:
                continue
            for val in returned_exprs(f):
                ctx.need(not syntactic_table(val), R2, c.name + '.' + name, 'hands out a lookup table itself', f.loc(val))
            else:
                ctx.ok(R2)
    ctx.floor(R, 8)


def is_fresh_copy(v, t):
    if is_copy_of(v, t):
        return True
    if v.op == 'dictlit' and not v.a[0]:
        return False
    if v.op == 'map' and not v.a[1] and len(v.a[2]) == 1:
        b = v.a[0]
        return b.op == 'mcall' and b.a[1] == 'items' and b.a[0] is t or b is t
    if v.op == 'call' and v.a[0] in ('types.MappingProxyType', 'copy.copy', 'copy.deepcopy', 'dict') and len(v.a[1]) == 1:
        x = v.a[1][0]
        return x is t or is_fresh_copy(x, t) or (x.op == 'mcall' and x.a[1] == 'items' and x.a[0] is t)
    return False


def returned_exprs(f):
    import ast
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
            yield n.value


def syntactic_table(e):
    import ast
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
        return e.attr in TABLES
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(syntactic_table(x) for x in e.elts)
    return False


# ------------------------------------------------------------------ G09
NXG = PKG + 'midi_graph_builder.MidiGraphBuilder.from_midi_networkx'
STACK = ('torch.stack', 'torch.from_numpy', 'numpy.stack', 'numpy.array', 'numpy.asarray', 'torch.tensor', 'torch.as_tensor', 'torch.FloatTensor',
         'torch.LongTensor', 'list', 'tuple')


def graph_view(t):
    """G.nodes(data=True) / G.edges(..) / G.edges -> (G, 'nodes'|'edges')"""
    while t.op == 'call' and t.a[0] in ('list', 'iter', 'tuple') and len(t.a[1]) == 1 or t.op == 'copyof':
        t = t.a[1][0] if t.op == 'call' else t.a[1]
    if t.op == 'mcall' and t.a[1] in ('nodes', 'edges'):
        return t.a[0], t.a[1]
    if t.op == 'attr' and t.a[1] in ('nodes', 'edges'):
        return t.a[0], t.a[1]
    return None


def plain_view(t):
    """a view whose iteration order is that of the graph, nothing filtered (no nbunch)"""
    while t.op == 'call' and t.a[0] in ('list', 'iter', 'tuple') and len(t.a[1]) == 1 or t.op == 'copyof':
        t = t.a[1][0] if t.op == 'call' else t.a[1]
    return not (t.op == 'mcall' and t.a[2]) and not (t.op == 'mcall' and any(k == 'nbunch' for k, _ in t.a[3]))


def with_data(t):
    """the entries of the view carry the attribute dicts"""
    while t.op == 'call' and t.a[0] in ('list', 'iter', 'tuple') and len(t.a[1]) == 1 or t.op == 'copyof':
        t = t.a[1][0] if t.op == 'call' else t.a[1]
    if t.op == 'mcall':
        return is_const(kw_of(t.a[3], 'data', NONE), True) or any(is_const(x, True) for x in t.a[2])
    return False


def numbered(p, G, g0):
    """G is the given graph, direction kept, its nodes numbered in their order; an undirected one has both directions"""
    ints, both = 0, False
    while True:
        if G.op == 'call' and G.a[0] == 'networkx.convert_node_labels_to_integers' and G.a[1]:
            pos, kw = list(G.a[1][1:]), dict(G.a[2])
            first = pos[0] if pos else kw.get('first_label', const(0))
            order = pos[1] if len(pos) > 1 else kw.get('ordering', const('default'))
            if not (is_const(first, 0) or num(first) and first.a[0] == 0) or not is_const(order, 'default'):
                return False
            ints += 1
            G = G.a[1][0]
        elif G.op == 'mcall' and G.a[1] in ('to_directed', 'copy') and not G.a[2]:
            both = both or G.a[1] == 'to_directed'
            G = G.a[0]
        elif G.op == 'copyof':
            G = G.a[1]
        elif G.op == 'call' and G.a[0] in ('networkx.DiGraph', 'networkx.to_directed') and len(G.a[1]) == 1:
            both = True
            G = G.a[1][0]
        else:
            break
    directed = holds(p.guards, lambda a, q: q and a.op == 'truthy' and (a.a[0].op == 'mcall' and a.a[0].a[1] == 'is_directed' or
                                                                         a.a[0].op == 'call' and a.a[0].a[0] == 'networkx.is_directed'))
    return G is g0 and ints == 1 and (both or directed)


def first_dict(t, kd):
    """the attribute dict of the first node/edge"""
    return t.op == 'item' and num(t.a[1]) and t.a[1].a[0] in ((1, -1) if kd == 'nodes' else (2, -1)) and any(
        graph_view(x) is not None and graph_view(x)[1] == kd and with_data(x) for x in subterms(t.a[0]))


def dims(x, lits):
    """the numbers of dimensions x can have where the literals hold"""
    leaf = lambda d: lambda t: d if (t.op == 'mcall' and t.a[1] in ('dim', 'ndimension') and t.a[0] is x) or (t.op == 'attr' and t.a[1] == 'ndim' and t.a[0] is x) \
        or (lenarg(t) is not None and lenarg(t).op == 'attr' and lenarg(t).a[1] == 'shape' and lenarg(t).a[0] is x) else None
    return {d for d in range(5) if Cases(leaf(d)).lits(lits) is not False}


def in_rows(v, lits):
    """v is a matrix: a column that may be one-dimensional is turned into one (and only then)"""
    if v.op == 'alts':
        return all(in_rows(x, list(lits) + list(g)) for g, x in v.a[0])
    if v.op == 'mcall' and v.a[1] in ('view', 'reshape'):
        return dims(v.a[0], lits) <= {0, 1}
    if v.op == 'mcall' and v.a[1] == 'unsqueeze':
        return dims(v.a[0], lits) <= {1}
    return not dims(v, lits) & {0, 1}


def rows_kept(v, src):
    """v has one row per entry of src, in order -> True"""
    if src(v):
        return True
    if v.op == 'alts':
        return all(rows_kept(x, src) for _, x in v.a[0])
    if v.op == 'call' and v.a[0] in STACK and v.a[1]:
        kw = dict(v.a[2]) if len(v.a) > 2 else {}
        ax = kw.get('dim', kw.get('axis', v.a[1][1] if v.a[0].endswith('stack') and len(v.a[1]) > 1 else None))
        if ax is not None and not (num(ax) and ax.a[0] == 0):
            return False
        return rows_kept(v.a[1][0], src)
    if v.op == 'mcall':
        m, a = v.a[1], v.a[2]
        if m in ('float', 'long', 'contiguous', 'detach', 'clone', 'double', 'to', 'type'):
            return rows_kept(v.a[0], src)
        if m == 'unsqueeze':
            return len(a) == 1 and num(a[0]) and a[0].a[0] in (1, -1) and rows_kept(v.a[0], src)
        if m == 'view' or m == 'reshape':
            return len(a) == 2 and num(a[0]) and a[0].a[0] == -1 and is_const(a[1], 1) and rows_kept(v.a[0], src)
    if v.op == 'map' and not v.a[1] and len(v.a[2]) == 1:
        (g, x), = v.a[2]
        return not g and mentions(x, lambda t: t.op == 'elem') and rows_kept(v.a[0], src)
    return False


def feature_dict(t, L, k):
    """the attribute dict of the node/edge a loop over G.nodes(data=True) is at"""
    el = mk('elem', L.a[0], L.a[2])
    return t.op == 'item' and t.a[0] is el and num(t.a[1]) and t.a[1].a[0] in ((1, -1) if k == 'nodes' else (2, -1))


@prop('G09', 'With the default attribute groups, every path of the conversion is checked: one loop over all nodes and one over all edges of the same graph append each '
      'attribute value once, in order, under the name of its attribute and raise when the attribute names differ; every later replacement of a column keeps one row '
      'per entry in order; the edge index is the transposed list of the edges of that graph; the feature and edge matrices concatenate columns along the last dimension.',
      assumptions=['networkx views of an unmodified graph iterate in one fixed order', 'the default attribute groups are used (the library never passes others)'])
def g09(ctx):
    f = ctx.p.func(NXG)
    g0 = f.params[0]
    argv = {x: NONE for x in f.params[1:]}
    ps = [p for p in ctx.run(NXG, args=argv)]
    R, R2, R3, R4, R5 = 'G09.collect', 'G09.reject', 'G09.rows', 'G09.edges', 'G09.matrix'
    ctx.rule(R, 'every attribute of every node and every edge is appended exactly once, in iteration order, to the column of its own name')
    ctx.rule(R2, 'a node or edge whose attribute names differ from the first one raises')
    ctx.rule(R3, 'a column is only ever replaced by a value with one row per entry in the same order')
    ctx.rule(R4, 'the edge index is the transposed list of all edges of the graph the columns are collected from')
    ctx.rule(R5, 'the feature matrix and the edge weights are columns put together along the last dimension')
    R6 = 'G09.kept'
    ctx.rule(R6, 'no graph and no converted graph is changed after it was made')
    for p in build_runs(ctx):
        built_kept(ctx, p, R6)
        ctx.ok(R6)
    for p in ps:
        if p.kind != 'return':
            continue
        if holds(p.guards, lambda a, q: q and a.op == 'eq' and any(is_const(x, 'all') for x in a.a) and any(x.op in ('new', 'list', 'oneof') for x in a.a)):
            continue                # a list is never equal to a string
        graphs = {}
        column_obj = None
        for kd in ('nodes', 'edges'):
            seen = [x for e, _ in walk(p.events) for y in e.a if isinstance(y, T) for x in subterms(y)] + [x for a in p.guards for x in subterms(a)]
            if any(takes_first(x, kd) for x in seen):
                ctx.need(some_of(p, kd), R2, kd + ':empty', 'the first of the %s is looked at in a graph that may have none' % kd, f.loc())
            ls = []
            for L, ch in loops(p.events):
                gv = graph_view(L.a[0])
                if gv and gv[1] == kd and not ch and any(True for _ in walk([e for lp in L.a[3] for e in lp.a[1]])):
                    ls.append((L, gv[0]))
            if len(ls) != 1:
                ctx.bad(R, kd, '%d loops collect attributes of %s' % (len(ls), kd), f.loc())
                continue
            L, G = ls[0]
            graphs[kd] = G
            ctx.need(numbered(p, G, mk('param', g0)), R4, kd + ':graph', 'the %s are those of %s' % (kd, short(G)), L_loc(L))
            ctx.need(with_data(L.a[0]), R, kd + ':data', 'the %s are visited without their attributes' % kd, L_loc(L))
            ctx.need(not L.a[1] and plain_view(L.a[0]), R, kd + ':order', 'the %s are not visited all, in graph order' % kd, L_loc(L))
            nrm = [lp for lp in L.a[3] if normal(lp)]
            for lp in L.a[3]:
                oc = out_kind(lp)
                if oc == 'raise':
                    continue
                if not normal(lp):
                    ctx.bad(R, kd + ':stop', 'collecting the %s stops early when %s' % (kd, glits(lp)), L_loc(L))
                    continue
                # same attribute names, or it raised
                none = none_of(p, kd)
                same = none or holds(lp.a[0], lambda a, q: q and a.op == 'eq' and any(mentions(x, lambda t: first_dict(t, kd)) for x in a.a)
                             and any(mentions(x, lambda t: feature_dict(t, L, kd)) for x in a.a)) or \
                    holds(lp.a[0], lambda a, q: not q and a.op == 'truthy' and mentions(a, lambda t: feature_dict(t, L, kd)) and
                          any(t.op == 'bin' and t.a[0] == '^' for t in subterms(a)))
                ctx.need(same, R2, kd, 'a %s with other attribute names is accepted' % kd[:-1], L_loc(L))
                inner = [x for x in lp.a[1] if kind(x) == 'loop']
                inner = [x.a[1][0] for x in inner]
                if len(inner) != 1 or not attr_items(inner[0], L, kd):
                    ctx.bad(R, kd + ':attributes', 'the attributes of a %s are not visited exactly once' % kd[:-1], L_loc(L))
                    continue
                I = inner[0]
                for q in I.a[3]:
                    if not normal(q):
                        ctx.bad(R, kd + ':attribute', 'an attribute of a %s may end the collection' % kd[:-1], L_loc(I))
                        continue
                    ap = [e for e in q.a[1] if kind(e) == 'mut']
                    okk = len(ap) == 1 and args(ap[0])[1] == 'append' and attr_value(dargs(ap[0])[2][0], I, L, kd) if ap and args(ap[0])[2] else False
                    ctx.need(okk, R, kd + ':append', 'an attribute value of a %s is not appended exactly once' % kd[:-1], L_loc(I))
                    if okk:
                        tgt = args(ap[0])[0]
                        d, key = None, None
                        if tgt.op == 'item':
                            d, key = tgt.a[0], tgt.a[1]
                        elif tgt.op == 'mcall' and tgt.a[1] == 'setdefault':
                            d, key = tgt.a[0], tgt.a[2][0]
                        else:
                            for e in q.a[1]:
                                if kind(e) == 'store' and args(e)[2] is tgt or kind(e) == 'store' and dargs(e)[2].op in ('list', 'call') and tgt.op == 'new':
                                    d, key = args(e)[0], args(e)[1]
                        ctx.need(d is not None and column_name(key, I), R, kd + ':column', 'an attribute of a %s goes into column %s' % (kd[:-1], short(key) if key is not None else '?'), L_loc(I))
                        if kd == 'edges' and key is not None and column_name(key, I):
                            free = none_of(p, 'nodes') or any(x.op == 'fstr' for x in subterms(key)) or holds(q.a[0], lambda a, w: not w and taken(a, mk('elem', I.a[0], I.a[2])))
                            ctx.need(free, R, 'edges:clash', 'an edge attribute may go into the column of a node attribute of the same name', L_loc(I))
                        column_obj = d if d is not None and d.op == 'new' else column_obj
        if len(graphs) == 2:
            ctx.need(graphs['nodes'] is graphs['edges'], R, 'graph', 'nodes and edges are taken from different graphs', f.loc())
        D = column_obj
        if D is None:
            continue
        # every grouped column is converted
        for L, ch in loops(p.events):
            b = L.a[0]
            if not ch and (b is D or (b.op == 'mcall' and b.a[0] is D)):
                for lp in L.a[3]:
                    if out_kind(lp) == 'raise':
                        continue
                    if not normal(lp):
                        ctx.bad(R3, 'column:stop', 'the conversion of the columns stops early when %s' % glits(lp), L_loc(L))
                        continue
                    st = [e for e in lp.a[1] if kind(e) == 'store' and args(e)[0] is D]
                    if holds(lp.a[0], lambda a, q: a.op == 'exc' or a.op == 'in' and not q and a.a[1].op in ('oneof', 'list', 'new', 'tuple')):
                        continue
                    ctx.need(len(st) == 1, R3, 'column:raw', 'a column that becomes part of the feature matrix is not turned into a tensor', L_loc(L))
                    for e in st:
                        ctx.need(is_tensor(dargs(e)[2]), R3, 'column:list', 'a column that becomes part of the feature matrix is replaced by %s, which is no tensor' % short(dargs(e)[2], 80), L_loc(L))
        # replacements of whole columns, and the edge index
        eidx = []
        for e, ch in walk(p.events):
            if kind(e) == 'store' and args(e)[0] is D:
                if any(graph_view(L.a[0]) for L, _ in ch):
                    continue
                k, v = args(e)[1], args(e)[2]
                if is_const(k, 'edge_index'):
                    eidx.append((dargs(e)[2], e))
                    continue
                old = lambda t: t.op == 'item' and same_obj(t.a[0], D) and t.a[1] is k
                if is_const(v) or not mentions(v, old):
                    ctx.bad(R3, 'column', 'column %s is replaced by %s' % (short(k, 60), short(v, 100)), eloc(e))
                    continue
                ctx.need(rows_kept(v, old), R3, 'column', 'column %s is replaced by %s, which is not one row per entry in order' % (short(k, 60), short(v, 100)), eloc(e))
            elif kind(e) in ('mut', 'delitem') and args(e)[0] is D:
                ctx.bad(R3, 'column', 'columns are changed by %s' % kind(e), eloc(e))
        for v, e in eidx:
            ctx.need(edge_list_t(v, graphs.get('edges')), R4, 'edge_index', 'the edge index is %s' % short(v), eloc(e))
        ctx.need(len(eidx) == 1, R4, 'edge_index:once', 'the edge index is set %d times' % len(eidx), f.loc())
        res = p.value
        for nm in ('x', 'edge_attr'):
            k = [e for e in p.events if kind(e) == 'setattr' and args(e)[0] is res and args(e)[1] == nm]
            ctx.need(len(k) == 1, R5, nm + ':once', 'data.%s is set %d times' % (nm, len(k)), f.loc())
        for e in p.events:
            if kind(e) == 'setattr' and args(e)[0] is res and args(e)[1] in ('x', 'edge_attr'):
                v = dargs(e)[2]
                nm = args(e)[1]
                ok = v.op == 'call' and v.a[0] in ('torch.cat', 'torch.hstack') and v.a[1]
                if ok and v.a[0] == 'torch.cat':
                    kw = dict(v.a[2]) if len(v.a) > 2 else {}
                    d = kw.get('dim', v.a[1][1] if len(v.a[1]) > 1 else None)
                    ok = d is not None and num(d) and d.a[0] in (-1, 1)
                if ok:
                    xs = v.a[1][0]
                    ok = xs.op in ('list', 'tuple') and len(xs.a) == 1 and rows_kept(xs.a[0], lambda t: t.op == 'item' and (t.a[0] is res or t.a[0] is deref_of(res, p)) and is_const(t.a[1]))
                    if ok:
                        key = [t.a[1] for t in subterms(xs.a[0]) if t.op == 'item' and is_const(t.a[1]) and isinstance(t.a[1].a[0], str)]
                        want = {'x': ('attr',), 'edge_attr': ('weight', 'edge_weight')}[nm]
                        ctx.need(all(k.a[0] in want for k in key[:1]), R5, nm + ':column', 'data.%s is made of column %s' % (nm, short(key[0]) if key else '?'), eloc(e))
                        lits = list(p.guards.items())
                        if nm == 'edge_attr' and key:
                            clash = holds(p.guards, lambda a, q: q and taken(a, const('weight')))
                            free = holds(p.guards, lambda a, q: not q and taken(a, const('weight')))
                            ctx.need((clash and key[0].a[0] == 'edge_weight') or (free and key[0].a[0] == 'weight') or not (clash or free), R5, nm + ':clash',
                                     'data.edge_attr is made of column %s although the weights are in the other one' % short(key[0]), eloc(e))
                        for y in xs.a:
                            ctx.need(in_rows(y, lits), R5, nm + ':matrix', 'the column %s is not a matrix of one row per entry in every case' % short(y, 100), eloc(e))
                ctx.need(ok, R5, nm, 'data.%s is %s' % (nm, short(v)), eloc(e))
    ctx.floor(R, 6)
    ctx.floor(R2, 2)
    ctx.floor(R3, 2)
    ctx.floor(R4, 2)
    ctx.floor(R5, 2)


def is_tensor(v):
    while v.op == 'mcall' and v.a[1] in ('unsqueeze', 'view', 'reshape', 'float', 'contiguous', 'clone', 'to', 'squeeze', 'long', 'double', 'type'):
        v = v.a[0]
    return v.op == 'call' and isinstance(v.a[0], str) and v.a[0].startswith('torch.')


def counts(t, kd):
    """t is the number of nodes (or edges) of a graph"""
    if t.op == 'mcall':
        return t.a[1] == 'number_of_' + kd or (kd == 'nodes' and t.a[1] == 'order') or (kd == 'edges' and t.a[1] == 'size' and not t.a[2])
    x = lenarg(t)
    return x is not None and counted(x, kd)


def counted(x, kd):
    """x has one entry per node (or edge)"""
    v = graph_view(x)
    if v is not None:
        return v[1] == kd
    return kd == 'nodes' and (x.op == 'param' or x.op == 'call' and x.a[0] == 'networkx.convert_node_labels_to_integers' or x.op == 'mcall' and x.a[1] in ('to_directed', 'copy') or x.op == 'alts' and all(counted(y, kd) for _, y in x.a[0]))


def none_of(p, kd):
    """the path is the one of a graph without nodes (or edges)"""
    return holds(p.guards, lambda a, q: size_is(a, q, kd, False))


def some_of(p, kd):
    """the path is one of a graph with nodes (or edges)"""
    return holds(p.guards, lambda a, q: size_is(a, q, kd, True))


def size_is(a, q, kd, some):
    """the literal says that the graph has some (or none) of them"""
    if a.op == 'lt' and is_const(a.a[0], 0) and counts(a.a[1], kd):
        return q == some
    if a.op == 'lt' and is_const(a.a[1], 1) and counts(a.a[0], kd):
        return q != some
    if a.op == 'eq' and is_const(a.a[1], 0) and counts(a.a[0], kd):
        return q != some
    if a.op == 'truthy':
        return q == some and (counted(a.a[0], kd) or counts(a.a[0], kd))
    return False


def takes_first(t, kd):
    """t is the first node/edge, which fails when there is none"""
    return t.op == 'call' and t.a[0] == 'next' and not dict(t.a[2]).get('default') and len(t.a[1]) < 3 and any(
        graph_view(x) is not None and graph_view(x)[1] == kd for x in subterms(t))


def taken(a, k):
    """atom: k is the name of a node attribute"""
    if a.op == 'in':
        ks = [k] + [x for x in (a.a[0],) if x.op == 'call' and x.a[0] == 'str' and x.a[1] and x.a[1][0] is k]
        return a.a[0] in ks and any(graph_view(t) is not None and graph_view(t)[1] == 'nodes' for t in subterms(a.a[1]))
    return False


def deref_of(v, p):
    return p.dvalue


def attr_items(I, L, kd):
    b = I.a[0]
    if b.op == 'mcall' and b.a[1] in ('items', 'keys') and not b.a[2]:
        b = b.a[0]
    return not I.a[1] and feature_dict(b, L, kd)


def attr_value(v, I, L, kd):
    el = mk('elem', I.a[0], I.a[2])
    if v.op == 'item' and feature_dict(v.a[0], L, kd) and v.a[1] is el:
        return True
    return v.op == 'item' and v.a[0] is el and is_const(v.a[1], 1)


def column_name(k, I):
    el = mk('elem', I.a[0], I.a[2])
    names = (el, mk('item', el, const(0)))
    if k.op == 'call' and k.a[0] == 'str' and len(k.a[1]) == 1:
        k = k.a[1][0]
    if k in names:
        return True
    if k.op == 'fstr':
        parts = k.a[0] if len(k.a) == 1 and isinstance(k.a[0], tuple) else k.a
        rest = [x for x in parts if not is_const(x)]
        return len(rest) == 1 and rest[0] in names
    return False


def edge_list_t(v, G):
    """v is the transposed list of the edges of G"""
    t = 0
    while True:
        if v.op == 'mcall' and v.a[1] in ('contiguous', 'view', 'long', 'reshape'):
            if v.a[1] in ('view', 'reshape') and not (len(v.a[2]) == 2 and is_const(v.a[2][0], 2) and is_const(v.a[2][1], -1)):
                return False
            if v.a[1] in ('view', 'reshape') and not t and not mentions(v.a[0], lambda x: x.op == 'mcall' and x.a[1] in ('t', 'transpose') or x.op == 'attr' and x.a[1] == 'T'):
                return False
            v = v.a[0]
        elif v.op == 'mcall' and v.a[1] in ('t',) or (v.op == 'mcall' and v.a[1] == 'transpose' and {x.a[0] for x in v.a[2] if num(x)} <= {0, 1}):
            t += 1
            v = v.a[0]
        elif v.op == 'attr' and v.a[1] == 'T':
            t += 1
            v = v.a[0]
        elif v.op == 'call' and v.a[0] in ('torch.tensor', 'torch.LongTensor', 'torch.as_tensor', 'list', 'numpy.array') and v.a[1]:
            if not holds_ints(v):
                return False
            v = v.a[1][0]
        else:
            break
    gv = graph_view(v)
    return t % 2 == 1 and gv is not None and gv[1] == 'edges' and gv[0] is G and plain_view(v)


# ------------------------------------------------------------------ G12
def graph_call(t, G, names):
    """call of one of the methods on the graph -> its arguments"""
    if t.op in ('mcall',) and t.a[0] is G and t.a[1] in names:
        return t.a[2]
    return None


LIST_KINDS = {'list', 'List', 'Sequence', 'Iterable', 'Collection', 'MutableSequence'}


def refused(ps, kinds):
    """None when every path taken by arguments of these kinds (one element each) gives an answer"""
    def of(x):
        if x.op == 'param' and x.a[0] in kinds:
            return {'int'} if kinds[x.a[0]] == 'id' else LIST_KINDS
        if x.op in ('item', 'elem') and x.a[0].op == 'param' and kinds.get(x.a[0].a[0]) in ('notes', 'pitches'):
            if x.op == 'item' and not (num(x.a[1]) and x.a[1].a[0] in (0, -1)):
                return 'beyond'
            return {'MidiNote'} if kinds[x.a[0].a[0]] == 'notes' else {'int', 'Integral', 'Number'}
        return None

    def given(x):
        return x.op == 'param' and x.a[0] in kinds

    def lit(a):
        """True, False, None (unknown) or 'beyond'"""
        if a.op == 'isinst':
            k = of(a.a[0])
            return any(c.a[0].split('.')[-1] in k for c in a.a[1]) if isinstance(k, set) else k
        if a.op == 'truthy' and given(a.a[0]) and kinds[a.a[0].a[0]] != 'id':
            return True
        if a.op == 'isnone' and given(a.a[0]):
            return False
        if a.op == 'any' and given(a.a[0]):
            alts = [[lit(x) if lit(x) in (None, 'beyond') else lit(x) is q for x, q in conj(g)] for g in a.a[1]]
            return True if any(all(x is True for x in g) for g in alts) else False if all(any(x is False for x in g) for g in alts) else None
        if a.op in ('lt', 'eq'):
            return Cases(lambda t: 1 if lenarg(t) is not None and given(lenarg(t)) else None).atom(a)
        return None
    answered = False
    for p in ps:
        lits = [(lit(a), q) for a, q in conj(p.guards)]
        if any(r in (True, False) and r is not q for r, q in lits):
            continue
        if any(r == 'beyond' for r, q in lits):
            return 'a second element is looked at although there may be only one'
        if p.kind == 'return':
            answered = True
        elif all(r is q for r, q in lits):
            return 'such a question is refused'
    return None if answered else 'no path answers such a question'


@prop('G12', 'Every path of the queries and of merge_nodes is matched: a query answers from the edge or neighbour test of the graph it was given on exactly the two nodes it '
      'was asked about, and merging adds one node with a fresh id, joins it once to every outside neighbour in both directions with the attributes of the old edge, '
      'and afterwards removes every merged node.',
      assumptions=['networkx queries are faithful to the graph'])
def g12(ctx):
    R, R2, R3 = 'G12.query', 'G12.edge', 'G12.merge'
    ctx.rule(R, 'neighbour and connectivity queries answer from the graph for exactly the nodes asked about')
    ctx.rule(R2, 'an edge is returned when, and only when, the graph has that edge')
    ctx.rule(R3, 'merging replaces the nodes by one fresh node joined to every outside neighbour')
    notes = lambda x: lambda t: notes_of_group(hash_of(t)) is x if hash_of(t) is not None else False

    def ident(t, x):
        """t is the node identity of the pitches x (ints, or notes)"""
        h = hash_of(t)
        if h is None:
            return False
        f = frozen_of(h)
        f = f if f is not None else h
        return f is x or pitch_map(f) is x or (f.op in ('list', 'tuple') and f.a == (x,)) or (f.op == 'copyof' and f.a[1] is x)

    R4 = 'G12.kinds'
    ctx.rule(R4, 'a set of pitches may be given as notes or as pitches, of any number, and is answered')
    for name, kinds in (('neighbors', ('notes', 'pitches')), ('is_connected', ('notes', 'pitches', 'id')), ('get_edge_connected', ('pitches',))):
        f = ctx.p.func(M + '.' + name)
        who = f.params[1:3]
        ps = ctx.run(M + '.' + name)
        for ks in itertools.product(kinds, repeat=len(who)):
            bad = refused(ps, dict(zip(who, ks)))
            ctx.need(bad is None, R4, '%s:%s' % (name, '/'.join(ks)), bad or '', f.loc())
    ctx.floor(R4, 6)
    # neighbours
    q = M + '.neighbors'
    f = ctx.p.func(q)
    gp, up = f.params[0], f.params[1]
    G, U = mk('param', gp), mk('param', up)
    n = 0
    for p in ctx.run(q):
        if p.kind != 'return':
            continue
        v = p.value
        while v.op == 'call' and v.a[0] in ('iter', 'list', 'set', 'tuple') and len(v.a[1]) == 1:
            v = v.a[1][0]
        a = graph_call(v, G, ('neighbors', 'successors'))
        if a is None and v.op == 'item' and (v.a[0] is G or is_attr(v.a[0], 'adj')):
            a = (v.a[1],)
        empty = holds(p.guards, lambda a_, q_: (a_.op == 'truthy' and a_.a[0] is U and not q_) or (a_.op == 'lt' and is_const(a_.a[0], 0) and lenarg(a_.a[1]) is U and not q_))
        ctx.need(a is not None and len(a) == 1 and (empty or ident(a[0], U)), R, 'neighbors', 'the neighbours of a set of pitches are %s' % short(p.value), f.loc())
        n += 1
    # connected
    q = M + '.is_connected'
    f = ctx.p.func(q)
    G, U, V = (mk('param', x) for x in f.params[:3])
    for p in ctx.run(q):
        if p.kind != 'return':
            continue
        v = p.value

        def end(t, x):
            lst = holds(p.guards, lambda a_, q_: a_.op == 'isinst' and a_.a[0] is x and q_)
            raw = holds(p.guards, lambda a_, q_: a_.op == 'isinst' and a_.a[0] is x and not q_)
            return (lst and ident(t, x)) or (raw and t is x)
        truth = None
        if v.op == 'const' and v.a[0] in (True, False):
            for a_, q_ in p.guards.items():
                if a_.op == 'in' or edge_atom(a_, G):
                    truth, v = (q_ is v.a[0]), a_
        elif v.op in ('in', 'truthy') or v.op == 'mcall':
            truth = True
        pair = None
        if v.op == 'in':
            a = graph_call(v.a[1], G, ('neighbors', 'successors')) or ((v.a[1].a[1],) if v.a[1].op == 'item' and v.a[1].a[0] is G else None)
            if a and len(a) == 1:
                pair = (a[0], v.a[0])
        elif edge_atom(mk('truthy', v), G) if v.op == 'mcall' else edge_atom(v, G):
            pair = edge_atom(mk('truthy', v), G) if v.op == 'mcall' else edge_atom(v, G)
        ok = pair is not None and truth and end(pair[0], V) and end(pair[1], U)
        ctx.need(ok, R, 'is_connected', 'whether two sets of pitches are connected is answered by %s' % short(p.value), f.loc())
        n += 1
    ctx.floor(R, 4)
    # the edge
    q = M + '.get_edge_connected'
    f = ctx.p.func(q)
    G, U, V = (mk('param', x) for x in f.params[:3])
    for p in ctx.run(q):
        if p.kind != 'return':
            continue
        v = p.dvalue

        def has(want, other=lambda a_, q_: False):
            return holds(p.guards, lambda a_, q_: other(a_, q_) or (q_ is want and edge_atom(a_, G) is not None and ident(edge_atom(a_, G)[0], U) and ident(edge_atom(a_, G)[1], V)))
        if v is NONE:
            gone = lambda a_, q_: not q_ and a_.op == 'in' and (a_.a[1] is G or is_attr(a_.a[1], 'nodes')) and (ident(a_.a[0], U) or ident(a_.a[0], V))
            ctx.need(has(False, gone), R2, 'get_edge_connected', 'no edge is returned although the graph may have it', f.loc())
        else:
            ctx.need(has(True) and v.op == 'tuple' and len(v.a) == 2 and ident(v.a[0], U) and ident(v.a[1], V), R2, 'get_edge_connected',
                     'the edge returned is %s' % short(v), f.loc())
    ctx.floor(R2, 2)
    # merging
    q = M + '.merge_nodes'
    f = ctx.p.func(q)
    G, N = mk('param', f.params[0]), mk('param', f.params[1])
    for p in ctx.run(q):
        if p.kind != 'return':
            continue
        new = p.value
        fresh = new.op == 'lin' and num(mk('const', new.a[0])) and new.a[0] > 0 and len(new.a[1]) == 1 and new.a[1][0][1] == 1 and new.a[1][0][0].op == 'call' and \
            new.a[1][0][0].a[0] == 'max' and strip_nodes(new.a[1][0][0].a[1][0]) is G
        ctx.need(fresh, R3, 'merge:id', 'the merged node is %s, which may already be a node' % short(new), f.loc())
        adds = [e for e in p.events if kind(e) == 'mut' and args(e)[0] is G and args(e)[1] == 'add_node']
        ctx.need(len(adds) == 1 and args(adds[0])[2][:1] == (new,) and kw_of(args(adds[0])[3], 'merged_nodes', NONE) in (N,) or
                 (adds and dargs(adds[0])[3] and any(k == 'merged_nodes' and mentions(v, lambda t: t is N) for k, v in dargs(adds[0])[3])), R3, 'merge:node',
                 'the merged node is not added once with the nodes it stands for', f.loc())
        dirs = {'out': 0, 'in': 0}
        removed = 0
        directed = holds(p.guards, lambda a_, q_: a_.op == 'truthy' and mentions(a_.a[0], lambda t: t.op in ('mcall', 'mres') and t.a[1] == 'is_directed' or t.op == 'call' and t.a[0].endswith('is_directed')) and q_)
        seen_remove = False
        for e in p.events:
            if kind(e) == 'mut' and args(e)[0] is G and args(e)[1] == 'remove_nodes_from':
                removed += args(e)[2][:1] == (N,)
                seen_remove = True
            if kind(e) != 'loop':
                continue
            L = e.a[1][0]
            evs = [x for lp in L.a[3] for x in lp.a[1]]
            if not any(kind(x) == 'mut' and args(x)[0] is G for x, _ in walk(evs)):
                continue
            if L.a[0] is not N or L.a[1]:
                ctx.bad(R3, 'merge:nodes', 'the loop runs over %s, not over all nodes to merge' % short(L.a[0]), L_loc(L))
                continue
            node = mk('elem', L.a[0], L.a[2])
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                if not normal(lp):
                    ctx.bad(R3, 'merge:stop', 'merging stops early', L_loc(L))
                    continue
                rm = [x for x in lp.a[1] if kind(x) == 'mut' and args(x)[0] is G and args(x)[1] == 'remove_node']
                if rm:
                    ctx.need(len(rm) == 1 and args(rm[0])[2] == (node,), R3, 'merge:remove', 'a merged node is not removed', L_loc(L))
                    removed += 1
                    seen_remove = True
                inner = [x.a[1][0] for x in lp.a[1] if kind(x) == 'loop']
                got = set()
                for I in inner:
                    b = I.a[0]
                    while b.op == 'call' and b.a[0] in ('list', 'set', 'tuple', 'iter') or b.op == 'copyof':
                        b = b.a[1][0] if b.op == 'call' else b.a[1]
                    way = 'out' if graph_call(b, G, ('neighbors', 'successors')) == (node,) else 'in' if graph_call(b, G, ('predecessors',)) == (node,) else None
                    if way is None:
                        ctx.bad(R3, 'merge:neighbours', 'edges are taken over along %s' % short(I.a[0]), L_loc(I))
                        continue
                    got.add(way)
                    other = mk('elem', I.a[0], I.a[2])
                    for r in I.a[3]:
                        own = holds(r.a[0], lambda a_, q_: a_.op == 'in' and q_ and a_.a[0] is other and mentions(a_.a[1], lambda t: t is N))
                        out = holds(r.a[0], lambda a_, q_: a_.op == 'in' and not q_ and a_.a[0] is other and mentions(a_.a[1], lambda t: t is N))
                        ed = [x for x in r.a[1] if kind(x) == 'mut' and args(x)[0] is G]
                        if not normal(r):
                            ctx.bad(R3, 'merge:stop', 'taking over the edges stops early', L_loc(I))
                        elif own and not ed:
                            ctx.ok(R3)
                        else:
                            u, w = (new, other) if way == 'out' else (other, new)
                            a, b_ = (node, other) if way == 'out' else (other, node)
                            okk = out and len(ed) == 1 and args(ed[0])[1] == 'add_edge' and args(ed[0])[2] == (u, w)
                            okk = okk and any(k == '**' and old_edge(v, G, a, b_) for k, v in args(ed[0])[3])
                            ctx.need(okk, R3, 'merge:edge-' + way, 'an edge %s an outside node does not become the same edge of the merged node' % ('to' if way == 'out' else 'from'), L_loc(I))
                if inner:
                    und = holds(lp.a[0] if lp.a[0] else (), lambda a_, q_: not q_ and directed_atom(a_)) or holds(p.guards, lambda a_, q_: not q_ and directed_atom(a_))
                    ctx.need('out' in got and ('in' in got or und), R3, 'merge:direction', 'the edges %s the merged nodes are lost' % (
                        'from' if 'out' not in got else 'to'), L_loc(L))
                    ctx.need(not seen_remove, R3, 'merge:order', 'nodes are removed before their edges are taken over', L_loc(L))
                    dirs['out'] += 1
        ctx.need(removed >= 1, R3, 'merge:kept', 'the merged nodes stay in the graph', f.loc())
        ctx.need(dirs['out'] >= 1, R3, 'merge:edges', 'no edges are taken over', f.loc())
    ctx.floor(R3, 8)


def directed_atom(a):
    return a.op == 'truthy' and mentions(a.a[0], lambda t: (t.op in ('mcall',) and t.a[1] == 'is_directed') or (t.op == 'mres' and 'is_directed' in t.a)
                                         or (t.op == 'call' and t.a[0].endswith('is_directed')))


def strip_nodes(t):
    while t.op == 'call' and t.a[0] in ('list', 'set', 'tuple') and len(t.a[1]) == 1:
        t = t.a[1][0]
    if t.op == 'attr' and t.a[1] == 'nodes':
        return t.a[0]
    if t.op == 'mcall' and t.a[1] == 'nodes' and not t.a[2]:
        return t.a[0]
    return t


def old_edge(v, G, a, b):
    if v.op == 'item' and v.a[0].op == 'attr' and v.a[0].a[1] == 'edges' and v.a[0].a[0] is G:
        return v.a[1].op == 'tuple' and v.a[1].a == (a, b)
    if v.op == 'item' and v.a[0].op == 'item' and v.a[0].a[0] is G:
        return v.a[0].a[1] is a and v.a[1] is b
    return v.op == 'mcall' and v.a[0] is G and v.a[1] == 'get_edge_data' and v.a[2][:2] == (a, b)


# ------------------------------------------------------------------ G13
@prop('G13', 'A usage that creates a builder and reads back every setting is interpreted: each setting must be the value it was given (12 when no feature size is given), the '
      'sequences the ones given, and the tables and outputs fresh and empty; the paths that return are evaluated for bad settings, which none of them may accept, both '
      'for the constructor and for build_sequence.',
      assumptions=['settings have the types the signatures declare, or are the bad values listed in the rule'])
def g13(ctx):
    R, R2 = 'G13.settings', 'G13.reject'
    ctx.rule(R, 'a builder holds exactly the settings and sequences it was created with; its tables and outputs start empty')
    ctx.rule(R2, 'no path accepts a bad setting')
    SEQ = PKG + 'midi.midi_sequence.MidiNoteSequence'
    f = ctx.p.func(M + '.__init__')
    rd = ['midi_sequences', 'pre_instrument', 'feature_size', 'is_include_velocity', 'tolerance', 'node_attr_type']
    ps = ctx.drive('midi_graph_builder', 'def use(d, i, f, v, t, n):\n    b = MidiGraphBuilder(d, is_instrument_graph=i, feature_size=f, is_include_velocity=v, tolerance=t, '
                   'node_attr_type=n)\n    return [%s]' % ', '.join('b.' + x for x in rd + ['pyg_data', 'sub_graphs', 'hash_to_index', 'index_to_hash', 'notes_to_hash', 'hash_to_notes']),
                   opaque=(SEQS,))
    P = {x: mk('param', x) for x in 'difvtn'}
    n = 0
    for p in ps:
        if p.kind != 'return':
            continue
        n += 1
        got = dict(zip(rd, p.dvalue.a))
        for x, k in (('pre_instrument', 'i'), ('is_include_velocity', 'v'), ('tolerance', 't'), ('node_attr_type', 'n')):
            ctx.need(got[x] is P[k], R, x, 'the setting %s is %s' % (x, short(got[x])), f.loc())
        none = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is P['f'] and q)
        some = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is P['f'] and not q)
        fs = got['feature_size']
        ctx.need((none and is_const(fs, 12)) or (some and fs is P['f']) or (not none and not some and fs is P['f']) and False, R, 'feature_size',
                 'the feature size is %s when %s is given' % (short(fs), 'none' if none else 'one' if some else 'one or none'), f.loc())
        D = P['d']
        nod = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is D and q)
        fine = lambda a, q: q and (a.op == 'isnone' and a.a[0] is D or a.op == 'isinst' and a.a[0] is D and all(c.a[0] == SEQS for c in a.a[1]))
        either = any(q and a.op == 'or' and all(any(fine(x, y) for x, y in conj(alt)) for alt in a.a[0]) for a, q in conj(p.guards.items()))
        one_ = holds(p.guards, lambda a, q: a.op == 'isinst' and a.a[0] is D and q and all(c.a[0] == SEQ for c in a.a[1]))
        many = holds(p.guards, lambda a, q: a.op == 'isinst' and a.a[0] is D and q and all(c.a[0] == SEQS for c in a.a[1]))
        ms = got['midi_sequences']
        ct = [dargs(e)[0] for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == SEQS]
        ok = (nod and (ms is NONE or ms is D)) or ((many or either) and ms is D) or \
            (one_ and ms.op == 'new' and len(ct) == 1 and fc_arg(ct[0], 'midi_seq') is not None and
             (fc_arg(ct[0], 'midi_seq') is D or fc_arg(ct[0], 'midi_seq').op in ('list', 'tuple') and fc_arg(ct[0], 'midi_seq').a == (D,)))
        ctx.need(ok, R, 'midi_sequences', 'the sequences of the builder are %s' % short(ms), f.loc())
        for t in p.dvalue.a[len(rd):]:
            e = (t.op in ('list', 'dictlit', 'dict') and not any(t.a)) or (t.op == 'copyof' and t.a[1].op in ('list', 'dictlit') and not any(t.a[1].a))
            ctx.need(e, R, 'empty', 'a table or output of a new builder is %s' % short(t), f.loc())
        for bad in ({'t': -1.0}, {'f': 0}, {'f': -3}, {'f': 128}, {'f': 1000}):
            leaf = lambda t: bad.get(t.a[0]) if t.op == 'param' else None
            ctx.need(Cases(leaf).lits(list(p.guards.items())) is False, R2, 'init:%s=%s' % ({'t': 'tolerance', 'f': 'feature_size'}[list(bad)[0]], list(bad.values())[0]),
                     'a builder can be created with the setting %s' % bad, f.loc())
    ctx.need(n >= 3, R, 'paths', 'a builder cannot be created', f.loc())
    # the factories hand on what they are given
    READ = PKG + 'midi_reader.MidiReader.read'
    for name in ('from_file', 'from_midi_sequence', 'from_midi_sequences'):
        q = M + '.' + name
        g = ctx.p.func(q)
        src = mk('param', g.params[1])
        k = 0
        for p in ctx.run(q, opaque=(M, READ, SEQS)):
            if p.kind != 'return':
                continue
            k += 1
            ct = [args(e)[0] for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == M]
            ctx.need(len(ct) == 1 and p.value.op == 'new', R, name, 'does not return the one builder it makes', g.loc())
            for c in ct:
                d = fc_arg(c, 'midi_data')
                if name == 'from_file':
                    ok = d is not None and d.op == 'fcall' and d.a[0] == READ and any(v is src or v.op == 'call' and src in v.a[1] for _, v in d.a[1])
                elif name == 'from_midi_sequences':
                    ok = d is src
                else:
                    sq = [dargs(e)[0] for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == SEQS]
                    ok = d is src or (d is not None and d.op == 'new' and len(sq) == 1 and (
                        fc_arg(sq[0], 'midi_seq') is src or fc_arg(sq[0], 'midi_seq').op == 'list' and fc_arg(sq[0], 'midi_seq').a == (src,)))
                ctx.need(ok, R, name + ':data', 'the builder is made from %s' % (short(d) if d is not None else 'nothing'), g.loc())
        ctx.need(k >= 1, R, name + ':paths', 'never returns a builder', g.loc())
    # build_sequence
    fb = ctx.p.func(M + '.build_sequence')
    cases = [('feature_vec_size', 0), ('feature_vec_size', -1), ('feature_vec_size', 129), ('velocity_num_buckets', 0), ('velocity_num_buckets', -4),
             ('tolerance', -0.5), ('tolerance', 1.5)]
    for p in ctx.run(M + '.build_sequence', opaque=BS_OPAQUE):
        if p.kind != 'return':
            continue
        for name, val in cases:
            leaf = lambda t: val if t.op == 'param' and t.a[0] == name else None
            ctx.need(Cases(leaf).lits(list(p.guards.items())) is False, R2, 'build_sequence:%s=%s' % (name, val), 'a graph is built with %s=%s' % (name, val), fb.loc())
        for name, cls in (('seq', SEQ), ('node_attr_type', None)):
            x = mk('param', name)
            ok = holds(p.guards, lambda a, q: a.op == 'isinst' and a.a[0] is x and q) or holds(p.guards, lambda a, q: a.op == 'in' and a.a[0] is x and q)
            ctx.need(ok, R2, 'build_sequence:' + name, 'a graph is built from a %s of any type' % name, fb.loc())
    # good settings are taken
    for given in [{'f': f_, 't': t_} for f_ in (1, 2, 12, 126, 127) for t_ in (0, 0.0, 0.5, 2)]:
        refuse = [p for p in ps if p.kind == 'raise' and taken_by(p, given) is True]
        ctx.need(not refuse and any(p.kind == 'return' and taken_by(p, given) is not False for p in ps), R2, 'init:accepts',
                 'a builder with feature size %s and tolerance %s is refused' % (given['f'], given['t']), f.loc())
    bs = ctx.run(M + '.build_sequence', opaque=BS_OPAQUE)
    for given in [{'feature_vec_size': f_, 'velocity_num_buckets': b, 'tolerance': t_, 'filter_single_notes': x, 'is_include_velocity': x}
                  for f_ in (1, 12, 127, 128) for b in (1, 8) for t_ in (0.0, 0.5, 1.0) for x in (True, False)]:
        refuse = [p for p in bs if p.kind == 'raise' and taken_by(p, given) is True]
        ctx.need(not refuse and any(p.kind == 'return' and taken_by(p, given) is not False for p in bs), R2, 'build_sequence:accepts',
                 'no graph is built with the settings %s' % given, fb.loc())
    ctx.floor(R, 12)
    ctx.floor(R2, 20)
