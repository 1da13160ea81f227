"""Whole-program rules X01-X06."""
import ast

from ..loader import ClassInfo, FuncInfo, Module, dotted_of, mangle, walk_own, AnalysisBroken
from ..resolve import Resolver, bind_error, undefined_names
from . import prop

SCOPE = ('neural_graph_composer/', 'ngc_shared.py')


def in_scope(m):
    r = m.relpath
    return r.startswith(SCOPE) and '/tests/' not in r


def short_q(q):
    return q.replace('neural_graph_composer.', '')


# ---------------------------------------------------------------- names that cannot be bound yet
class _MayBind:
    """Forward may-assignment: the local names some path can have bound before each use."""

    def __init__(self, f):
        self.f = f
        a = f.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = set()
        glob = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(x.asname or x.name.split('.')[0]) for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
        # comprehension targets are their own scope
        self.comp = set()
        for n in walk_own(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    self.comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.locals -= glob | self.comp
        self.bad = []

    def uses(self, node, have):
        for n in ast.walk(node):
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, ast.NamedExpr):
                have.add(n.target.id)
        inner = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Lambda):
                inner |= {id(x) for x in ast.walk(n.body)}
        for n in ast.walk(node):
            if id(n) not in inner and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in self.params and n.id not in have:
                self.bad.append(n)

    def stores(self, node, have):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)

    @staticmethod
    def binds(stmts):
        out = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(x.asname or x.name.split('.')[0]) for x in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def block(self, body, have):
        for s in body:
            self.stmt(s, have)

    def stmt(self, s, have):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            have |= {(x.asname or x.name.split('.')[0]) for x in s.names}
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.uses(s.iter, have)
            have |= self.binds(s.body)
            self.stores(s.target, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
        elif isinstance(s, ast.While):
            have |= self.binds(s.body)
            self.uses(s.test, have)
            self.block(s.body, have)
            self.block(s.orelse, have)
        elif isinstance(s, ast.If):
            self.uses(s.test, have)
            a, b = set(have), set(have)
            self.block(s.body, a)
            self.block(s.orelse, b)
            have |= a | b
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.uses(i.context_expr, have)
                if i.optional_vars is not None:
                    self.stores(i.optional_vars, have)
            self.block(s.body, have)
        elif isinstance(s, ast.Try):
            nb = len(self.bad)
            self.block(s.body, have)
            if any(h.type is not None and {'NameError', 'UnboundLocalError'} & {dotted_of(x) for x in ast.walk(h.type)} for h in s.handlers):
                del self.bad[nb:]
            for h in s.handlers:
                if h.type is not None:
                    self.uses(h.type, have)
                hv = set(have)
                if h.name:
                    hv.add(h.name)
                self.block(h.body, hv)
                have |= hv
            self.block(s.orelse, have)
            self.block(s.finalbody, have)
        elif isinstance(s, ast.Assign):
            self.uses(s.value, have)
            for t in s.targets:
                self.uses(t, have)
                self.stores(t, have)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value, have)
                self.stores(s.target, have)
        elif isinstance(s, ast.AugAssign):
            self.uses(s.value, have)
            if isinstance(s.target, ast.Name) and s.target.id in self.locals and s.target.id not in self.params and s.target.id not in have:
                self.bad.append(s.target)
            else:
                self.uses(s.target, have)
            self.stores(s.target, have)
        else:
            for n in ast.iter_child_nodes(s):
                self.uses(n, have)

    def run(self):
        self.block(self.f.node.body, set())
        return self.bad


def slots_of(c):
    """names instances may store when the whole class is slotted, else None"""
    out = set()
    if c.ext_bases() and not all(b.split('.')[-1] in ('object', 'ABC', 'Generic') for b in c.ext_bases()):
        return None
    for b in c.mro():
        sl = b.attrs.get('__slots__')
        if sl is None:
            return None
        try:
            v = ast.literal_eval(sl)
        except ValueError:
            return None
        out |= {mangle(b.name, x) for x in ([v] if isinstance(v, str) else v)}
    return None if '__dict__' in out else out


@prop('X01', 'Every name, in-library import, attribute of an object of known library class, attribute store and '
             'in-library call of the package is resolved against the definitions of the current tree.',
      technique='name and attribute resolution, call-signature checking over the whole package',
      assumptions=['attributes of objects whose class cannot be derived from constructors, annotations and returns are not '
                   'checked', 'a name bound on some path is taken to be bound (correlated conditions are not followed)'])
def x01(ctx):
    p = ctx.p
    r = Resolver(p)
    ctx.rule('name', 'every name used resolves to a local, enclosing, module or builtin binding')
    ctx.rule('bound', 'a local name is used only where some path can have bound it')
    ctx.rule('import', 'every in-library import names a module or member that exists')
    ctx.rule('attr', 'every attribute read of an object of a library class is defined by the class')
    ctx.rule('store', 'attribute stores hit a slot, a settable property or an ordinary attribute')
    ctx.rule('call', 'every in-library call fits the signature of the function it reaches')
    mods = [m for m in p.modules.values() if in_scope(m)]
    for m in mods:
        seen = set()
        for n, scope, line in undefined_names(m, p):
            seen.add(n)
            ctx.bad('name', '%s:%s:%s' % (m.relpath, scope, n), 'the name %s is not defined' % n, '%s:%s' % (m.relpath, line))
        names = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name)}
        ctx.ok('name', len(names - seen))
        for n in m.import_nodes:
            if isinstance(n, ast.ImportFrom):
                b = p.rel_base(m, n)
                if p.is_internal(b):
                    for a in n.names:
                        ctx.need(a.name == '*' or p.abs(b + '.' + a.name) is not None, 'import', '%s:%s.%s' % (m.relpath, b, a.name),
                                 '%s has no %s' % (b, a.name), '%s:%s' % (m.relpath, n.lineno))
            else:
                for a in n.names:
                    if p.is_internal(a.name):
                        ctx.need(p.abs(a.name) is not None, 'import', '%s:%s' % (m.relpath, a.name), 'no module %s' % a.name,
                                 '%s:%s' % (m.relpath, n.lineno))
    for f in p.functions.values():
        if not in_scope(f.module):
            continue
        ctx.analysed.add(f.qualname)
        q = short_q(f.qualname)
        mb = _MayBind(f)
        bad = mb.run()
        for n in bad:
            ctx.bad('bound', '%s:%s' % (q, n.id), 'the local name %s is used before anything can have bound it' % n.id, f.loc(n))
        ctx.ok('bound', max(0, len(mb.locals) - len({n.id for n in bad})))
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute):
                t = r.type_of(n.value, f)
                c = t if isinstance(t, ClassInfo) else t[1] if isinstance(t, tuple) and t[0] == 'type' else None
                if isinstance(t, Module):
                    ctx.need(p.member(t, n.attr) is not None, 'attr', '%s:%s.%s' % (q, t.name, n.attr),
                             'module %s has no %s' % (t.name, n.attr), f.loc(n))
                if not isinstance(c, ClassInfo):
                    continue
                nm = mangle(f.cls.name if f.cls else None, n.attr)
                if isinstance(n.ctx, ast.Load):
                    mem = r.members(c)
                    if mem is not None:
                        ctx.need(nm in mem or n.attr in mem, 'attr', '%s:%s.%s' % (q, c.name, n.attr),
                                 '%s objects have no attribute %s' % (c.name, n.attr), f.loc(n))
                elif isinstance(n.ctx, ast.Store) and isinstance(t, ClassInfo):
                    g = c.find(nm)
                    if g is not None and g.is_property:
                        ctx.need(any(nm in b.setters for b in c.mro()), 'store', '%s:%s.%s' % (q, c.name, n.attr),
                                 'the property %s.%s cannot be assigned' % (c.name, n.attr), f.loc(n))
                        continue
                    sl = slots_of(c)
                    if sl is not None:
                        ctx.need(nm in sl or any(nm in b.setters for b in c.mro()), 'store', '%s:%s.%s' % (q, c.name, n.attr),
                                 '%s has slots and none is called %s' % (c.name, n.attr), f.loc(n))
                    else:
                        ctx.ok('store')
            elif isinstance(n, ast.Call):
                g = r.callee(n, f)
                if g is None:
                    continue
                e = bind_error(n, *g)
                fn = g[0].qualname if g[0] is not None else g[2].qualname
                ctx.need(not e, 'call', '%s:%s' % (q, short_q(fn)), 'call of %s: %s' % (short_q(fn), e), f.loc(n))
    ctx.floor('name', 1500)
    ctx.floor('import', 40)
    ctx.floor('attr', 900)
    ctx.floor('call', 250)
    ctx.floor('bound', 500)
    ctx.floor('store', 150)


# ---------------------------------------------------------------- X02 shared mutable state
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
            'discard', 'appendleft', 'popleft', 'move_to_end', 'extendleft', 'rotate', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', 'add_node', 'add_edge',
            'add_nodes_from', 'add_edges_from', 'remove_node', 'remove_edge'}
MUT_FUNCS = {'bisect.insort', 'bisect.insort_left', 'bisect.insort_right', 'insort', 'insort_left', 'insort_right', 'heapq.heappush',
             'heapq.heappop', 'heappush', 'heappop', 'random.shuffle', 'shuffle', 'np.random.shuffle', 'setattr'}
MAKERS = {'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'SortedDict', 'SortedList', 'collections.defaultdict',
          'collections.OrderedDict', 'collections.deque', 'collections.Counter'}
READERS = {'len', 'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'enumerate', 'iter', 'min', 'max', 'sum', 'any', 'all', 'str', 'repr',
           'isinstance', 'print', 'zip', 'map', 'filter', 'reversed', 'bool', 'range', 'type', 'copy.copy', 'copy.deepcopy', 'next'}


def makes_mutable(p, module, node):
    """expression that builds a new mutable object"""
    if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(node, ast.Call):
        d = dotted_of(node.func)
        if d in MAKERS:
            return True
        if d:
            c = p.resolve(module, d)
            if isinstance(c, ClassInfo) and not c.is_enum:
                fz = any(isinstance(x, ast.Call) and any(k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value for k in x.keywords)
                         for x in c.node.decorator_list)
                return not fz
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Mult, ast.Add)):
        return makes_mutable(p, module, node.left) or makes_mutable(p, module, node.right)
    return False


def parents_of(f):
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


def mutating_use(n, par):
    """the expression n is changed right where it stands"""
    up = par.get(n)
    if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, (ast.Store, ast.Del)):
        return 'item assigned or deleted'
    if isinstance(up, ast.Attribute) and up.value is n:
        if isinstance(up.ctx, (ast.Store, ast.Del)):
            return 'attribute assigned'
        call = par.get(up)
        if isinstance(call, ast.Call) and call.func is up and up.attr in MUTATORS:
            return '.%s()' % up.attr
    if isinstance(up, ast.AugAssign) and up.target is n:
        return 'augmented assignment'
    if isinstance(up, ast.Call) and up.args and up.args[0] is n and dotted_of(up.func) in MUT_FUNCS:
        return dotted_of(up.func)
    return None


def reading_use(n, par):
    """the expression n is only read where it stands"""
    up = par.get(n)
    if isinstance(up, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.FormattedValue, ast.If, ast.While, ast.Assert)):
        return not isinstance(up, ast.BoolOp) or reading_use(up, par)
    if isinstance(up, (ast.For, ast.comprehension)) and up.iter is n:
        return True
    if isinstance(up, ast.IfExp) and up.test is n:
        return True
    if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, ast.Load):
        return True
    if isinstance(up, ast.Attribute) and up.value is n and isinstance(up.ctx, ast.Load):
        call = par.get(up)
        return isinstance(call, ast.Call) and call.func is up and up.attr not in MUTATORS
    if isinstance(up, ast.Call) and n in up.args and dotted_of(up.func) in READERS:
        return True
    if isinstance(up, ast.Starred) or isinstance(up, ast.keyword) and up.arg is None:
        return True
    return False


@prop('X02', 'Every default argument that builds a mutable object and every class-level container is followed to all its uses: '
             'a mutable default may only be read, and no function may change a class-level container.',
      technique='escape and mutation analysis of defaults and class-level containers',
      assumptions=['containers reached through more than one local alias are not followed'])
def x02(ctx):
    p = ctx.p
    r = Resolver(p)
    ctx.rule('default', 'a default value that builds a mutable object is only read, never stored, returned or changed')
    ctx.rule('class', 'no function changes a container held at class level')
    ctx.rule('inst', 'no instance attribute is bound to an existing class-level or module-level mutable container')
    shared = {}
    for c in p.classes.values():
        if in_scope(c.module):
            for k, v in c.attrs.items():
                if makes_mutable(p, c.module, v) and k != '__slots__':
                    shared.setdefault(mangle(c.name, k), []).append(c)
                ctx.ok('class')
    glob = {}
    for m in p.modules.values():
        if in_scope(m):
            for k, v in m.globals.items():
                if makes_mutable(p, m, v):
                    glob[(m.name, k)] = v
    inst = {}
    for c in p.classes.values():
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f.params and not f.is_static and not f.is_classmethod:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params[0]:
                        inst.setdefault(c.qualname, {}).setdefault(mangle(c.name, n.attr), set()).add(f.name)

    def is_shared(n, f):
        """attribute or name expression that denotes a class-level or module-level mutable container"""
        if isinstance(n, ast.Attribute):
            nm = mangle(f.cls.name if f.cls else None, n.attr)
            if nm not in shared:
                return None
            t = r.type_of(n.value, f)
            if isinstance(t, tuple) and t[0] == 'type':
                c = t[1]
            elif isinstance(t, ClassInfo):
                c = t
                if any('__init__' in inst.get(b.qualname, {}).get(nm, ()) for b in c.mro()):
                    return None          # the constructor gives every object its own
            else:
                return None
            for b in c.mro():
                if b in shared[nm]:
                    return '%s.%s' % (b.name, n.attr)
            return None
        if isinstance(n, ast.Name) and (f.module.name, n.id) in glob:
            from ..resolve import is_local
            return None if is_local(f, n.id) else '%s.%s' % (f.module.name.split('.')[-1], n.id)
        return None

    for f in p.functions.values():
        if not in_scope(f.module):
            continue
        q = short_q(f.qualname)
        ctx.analysed.add(f.qualname)
        a = f.node.args
        pos = a.posonlyargs + a.args
        dfl = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        par = None
        for x, d in dfl:
            if not makes_mutable(p, f.module, d):
                ctx.ok('default')
                continue
            par = par or parents_of(f)
            rebound = False
            bad = None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == x.arg and isinstance(n.ctx, ast.Load) and not reading_use(n, par):
                    bad = n
            ctx.need(bad is None, 'default', '%s:%s' % (q, x.arg),
                     'the mutable default of %s is shared by all calls and is stored, passed on or changed' % x.arg, f.loc(bad) if bad is not None else '')
        par = parents_of(f)
        alias = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                s = is_shared(n.value, f)
                if s:
                    alias[n.targets[0].id] = s
        for n in walk_own(f.node):
            s = None
            if isinstance(n, (ast.Attribute, ast.Name)):
                s = is_shared(n, f)
                if s is None and isinstance(n, ast.Name) and n.id in alias:
                    s = alias[n.id]
            if s is None:
                continue
            m = mutating_use(n, par) if not isinstance(getattr(n, 'ctx', None), ast.Store) or isinstance(par.get(n), ast.AugAssign) else None
            ctx.need(m is None, 'class', '%s:%s' % (q, s), 'the shared container %s is changed (%s)' % (s, m), f.loc(n))
            up = par.get(n)
            if isinstance(up, ast.Assign) and up.value is n and any(isinstance(t, ast.Attribute) for t in up.targets):
                ctx.bad('inst', '%s:%s' % (q, s), 'every object is bound to the one container %s' % s, f.loc(n))
            else:
                ctx.ok('inst')
        # one new container bound to two places
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) > 1 and makes_mutable(p, f.module, n.value):
                at = [t for t in n.targets if isinstance(t, ast.Attribute)]
                ctx.need(len(at) < 2, 'inst', '%s:%s' % (q, '/'.join(t.attr for t in at)), 'one container is bound to several attributes', f.loc(n))
    ctx.floor('default', 200)
    ctx.floor('class', 60)


# ---------------------------------------------------------------- X03 queries
DUNDERS = {'__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__len__', '__iter__', '__contains__', '__repr__',
           '__str__', '__reversed__', '__sub__', '__bool__'}
PREFIX = ('get_', 'is_', 'has_', 'num_', 'slice_', 'as_', 'calculate_', 'count_', 'contains', 'depth_score')
QUERIES = {
    'MidiNoteSequences': {'initial_tempo', 'time_signature', 'tempo_signature', 'key_signature', 'instrument_midi_seq_len'},
    'MidiNoteSequence': {'initial_tempo', 'truncate_to_last_event', 'validate_instrument', 'truncate', 'split', 'extract', 'slice', 'cut',
                         'clone', 'clone_empty', '__add__', '__getitem__'},
    'MidiNote': {'overlaps', 'make_copy', 'duration'},
    'MidiControlChange': {'make_copy'},
    'Interval': {'intersection', 'union', 'overlaps'},
    'FloatInterval': {'overlaps', 'overlap_size', 'range_matches', 'distance_to', 'length', 'lt', 'le', 'gt', 'ge', 'isclose', 'copy', '__cmp__'},
    'FloatIntervalTree': {'copy', 'difference', 'union', 'intersection', 'symmetric_difference', 'find_nested', 'overlaps',
                          'overlaps_point', 'overlaps_range', 'items', 'at', 'envelop', 'overlap', 'begin', 'end', 'range', 'span', 'verify',
                          'score', '__getitem__'},
    'Node': {'center_hit', 'hit_branch', 'search_overlap', 'all_children', 'compute_depth', 'count_nodes', '__getitem__'},
    'SortedDict': {'keys', 'values', 'items', '__getitem__', 'get'},
    'SortedIntervalDict': {'__getitem__'},
}
# constructors inlined elsewhere (they build new objects only)
X3_OPAQUE = ('neural_graph_composer.interval.intervaltree.FloatIntervalTree.__init__',)
NOT_QUERIES = {'FloatIntervalTree.verify', 'MidiNoteSequences.get_track', 'MidiGraphBuilder.__iter__', 'MidiNoteSequences.__getitem__'}
X3_SCOPE = ('neural_graph_composer/midi/', 'neural_graph_composer/interval/', 'neural_graph_composer/midi_graph_builder.py')


def is_query(f):
    c = f.cls
    if c is None or f.outer is not None or f.is_static or f.is_classmethod:
        return False
    if '%s.%s' % (c.name, f.name) in NOT_QUERIES:
        return False
    return bool(f.is_property or f.name in DUNDERS or f.name.startswith(PREFIX)
                or any(f.name in QUERIES.get(b.name, ()) for b in c.mro()))


@prop('X03', 'Every property getter, comparison, hash, length, iteration, printing and question method of the musical and interval classes is '
             'executed symbolically over its syntax tree, with everything it calls inlined; no path may change an object it was given.',
      technique='interprocedural effect analysis over paths',
      assumptions=['filling an empty slot with an empty container on first use is not a change', 'reading a track by index or get_track '
                   'creates the track by design and is not a query'])
def x03(ctx):
    from ..lib import walk, kind, args, root, holds, show, conj, eloc
    p = ctx.p
    ctx.rule('pure', 'no path of a query changes an object reachable from its arguments')
    ctx.rule('memo', 'a query that fills a slot only fills it when it is empty, with an empty container')
    for f in list(p.functions.values()):
        if not f.module.relpath.startswith(X3_SCOPE) or not is_query(f):
            continue
        q = short_q(f.qualname)
        try:
            ps = ctx.run(f.qualname, opaque=X3_OPAQUE)
        except (AnalysisBroken, RecursionError) as e:
            ctx.bad('pure', q, 'the query cannot be followed: %s' % e, f.loc())
            continue
        bad = {}
        for pa in ps:
            for e, ch in walk(pa.events):
                k = kind(e)
                if not (k in ('setattr', 'store', 'delattr', 'delitem') or k == 'mut' and args(e)[1] in MUTATORS):
                    continue
                b = args(e)[0]
                if not owned_outside(b):
                    continue
                if k == 'setattr' and empty_container(args(e)[2]):
                    slot = args(e)[1]
                    if holds(e.a[2], lambda a, pol: pol and a.op == 'isnone' and a.a[0].op == 'attr' and a.a[0].a[0] is b and a.a[0].a[1] == slot):
                        ctx.ok('memo')
                        continue
                bad[(show(b)[:60], str(args(e)[1])[:40])] = (k, eloc(e))
        if not bad:
            ctx.ok('pure')
        for (o, w), (k, loc) in bad.items():
            what = {'setattr': 'sets .%s' % w, 'delattr': 'deletes .%s' % w, 'store': 'stores an item', 'delitem': 'deletes an item'}.get(k, 'calls .%s()' % w)
            ctx.bad('pure', '%s:%s' % (q, o), 'the query %s on %s' % (what, o), loc)
    ctx.floor('pure', 120)


def owned_outside(t):
    """the object was there before the call (reached from a parameter, a global or a class attribute)"""
    while True:
        if t.op in ('new', 'copyof', 'map', 'sorted', 'call', 'fcall', 'binop'):
            return False
        if t.op in ('param', 'glob', 'cattr', 'self'):
            return True
        if t.op in ('attr', 'item', 'elem', 'idx', 'mcall', 'mres', 'reversed', 'enum_', 'content'):
            if t.op in ('mcall', 'mres') and t.a[1] in ('copy', 'union', 'intersection', 'difference', 'symmetric_difference', 'search_point', 'search_overlap'):
                return False
            if t.op in ('elem', 'item') and t.a[0].op in ('map', 'new', 'sorted', 'copyof'):
                src = t.a[0]
                while src.op in ('sorted', 'reversed'):
                    src = src.a[0]
                if src.op in ('new', 'map'):
                    return False
                if src.op == 'copyof':
                    if src.a[0] == 'deep':
                        return False
                    t = src.a[1]
                    continue
                t = src
                continue
            t = t.a[0]
            if not hasattr(t, 'op'):
                return False
            continue
        return False


def empty_container(v):
    if v.op == 'new':
        return True
    return v.op in ('call', 'fcall', 'dict', 'list')


# ---------------------------------------------------------------- call graph
_BUILTIN_METHODS = set()
for _t in (list, dict, set, frozenset, str, bytes, tuple, int, float, object):
    _BUILTIN_METHODS |= set(dir(_t))


class CallGraph:
    """caller -> callees; unresolved receivers go to every library method of that name"""

    def __init__(self, p, r):
        self.p, self.r = p, r
        self.by_name = {}
        for f in p.functions.values():
            if in_scope(f.module) and f.cls is not None:
                self.by_name.setdefault(mangle(f.cls.name, f.name), []).append(f)
        self.out = {}
        for f in p.functions.values():
            if in_scope(f.module):
                self.out[f.qualname] = self.edges(f)
        self.inc = {}
        for a, bs in self.out.items():
            for b in bs:
                self.inc.setdefault(b, set()).add(a)

    def over(self, c, nm, table):
        """the method found for class c and every override below it"""
        res = []
        for k in self.r.subs.get(c.qualname, [c]):
            g = k.find(nm, table)
            if g is not None:
                res.append(g)
        return res

    def edges(self, f):
        r, p, out = self.r, self.p, set()
        me = f.cls.name if f.cls else None
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node:
                for g in p.functions.values():
                    if g.node is n:
                        out.add(g.qualname)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                t = r.type_of(n, f)
                if isinstance(t, FuncInfo):
                    out.add(t.qualname)
            if isinstance(n, ast.Call):
                g = r.callee(n, f)
                if g is not None and g[0] is not None:
                    out.add(g[0].qualname)
            if isinstance(n, ast.Attribute):
                nm = mangle(me, n.attr)
                t = r.type_of(n.value, f)
                table = 'setters' if isinstance(n.ctx, ast.Store) else 'methods'
                if isinstance(t, ClassInfo):
                    out |= {g.qualname for g in self.over(t, nm, table)}
                elif isinstance(t, tuple) and t[0] in ('type', 'super'):
                    g = t[1].find(nm)
                    if g is not None:
                        out.add(g.qualname)
                elif isinstance(t, Module):
                    m = p.member(t, n.attr)
                    if isinstance(m, FuncInfo):
                        out.add(m.qualname)
                elif t is None and nm not in _BUILTIN_METHODS and table == 'methods':
                    base = dotted_of(n.value)
                    rs = p.resolve(f.module, base) if base and not self._localroot(f, base) else None
                    if isinstance(rs, str):
                        continue                # attribute of an external module
                    out |= {g.qualname for g in self.by_name.get(nm, ())}
            if isinstance(n, (ast.For, ast.comprehension)):
                t = r.type_of(n.iter, f)
                if isinstance(t, ClassInfo):
                    out |= {g.qualname for g in self.over(t, '__iter__', 'methods')}
            if isinstance(n, ast.Subscript):
                t = r.type_of(n.value, f)
                if isinstance(t, ClassInfo):
                    out |= {g.qualname for k in ('__getitem__', '__setitem__', '__delitem__') for g in self.over(t, k, 'methods')}
        return out

    @staticmethod
    def _localroot(f, dotted):
        from ..resolve import is_local
        return is_local(f, dotted.split('.')[0])

    def reach(self, starts):
        seen, todo = {}, [(s, None) for s in starts]
        while todo:
            q, frm = todo.pop()
            if q in seen or q not in self.out:
                continue
            seen[q] = frm
            todo += [(b, q) for b in sorted(self.out[q])]
        return seen


def route(seen, q):
    out = []
    while q is not None:
        out.append(short_q(q))
        q = seen[q]
    return ' <- '.join(out)


def ext_name(p, f, fn):
    """dotted external name of a called expression, or None"""
    from ..resolve import is_local
    d = dotted_of(fn)
    if d is None or is_local(f, d.split('.')[0]):
        return None
    rs = p.resolve(f.module, d)
    if isinstance(rs, str):
        return rs
    return d if rs is None else None


# ---------------------------------------------------------------- X04 file system
WRITE_EXT = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.truncate', 'os.link',
             'os.symlink', 'os.chmod', 'os.chown', 'os.system', 'os.popen', 'os.mkfifo', 'os.open', 'os.utime', 'shutil.', 'torch.save', 'numpy.save', 'np.save',
             'json.dump', 'pickle.dump', 'yaml.dump', 'tempfile.', 'subprocess.', 'matplotlib.pyplot.savefig', 'urllib.request.urlretrieve',
             'torch_geometric.data.download_url', 'torch_geometric.data.extract', 'joblib.dump', 'torch.jit.save', 'soundfile.write')
WRITE_EXACT_NOT = {'json.dumps', 'pickle.dumps', 'shutil.which', 'shutil.disk_usage', 'shutil.get_terminal_size', 'tempfile.gettempdir'}
WRITE_METHODS = {'write', 'writelines', 'write_text', 'write_bytes', 'unlink', 'mkdir', 'touch', 'rmdir', 'rename', 'savefig', 'to_csv', 'to_pickle',
                 'tofile', 'symlink_to', 'hardlink_to', 'save', 'dump', 'makedirs'}
WRITERS = {'MidiReader.write', 'MidiNoteSequence.to_midi_file', 'save_midi_callback', 'MidiDataset.__init__', 'MidiDataset.process', 'MidiDataset.download',
           'Experiments.plot_metrics', 'Experiments.save_model', 'Experiments.save_checkpoint', 'Experiments.load_checkpoint',
           'Experiments.update_test_metric', 'Experiments.update_metrics', 'Experiments.update_val_metric'}


def open_writes(n):
    """open(...) call that can create or change the file"""
    mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
    if isinstance(n.func, ast.Attribute):        # Path.open(mode)
        mode = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'mode'), None)
    if mode is None:
        return False
    if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
        return any(c in mode.value for c in 'wax+')
    return True


def temp_names(p, r, f, depth=0):
    """names of f that only ever stand for a temporary file that is removed again, or for a buffer in memory (and the ids of the calls making one)"""
    temps = set()
    made = {}
    for n in walk_own(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if isinstance(i.context_expr, ast.Call):
                    d = ext_name(p, f, i.context_expr.func) or ''
                    if d.startswith('tempfile.') and not any(k.arg == 'delete' for k in i.context_expr.keywords) or d in ('io.BytesIO', 'io.StringIO'):
                        temps.add(id(i.context_expr))
                        if isinstance(i.optional_vars, ast.Name):
                            temps.add(i.optional_vars.id)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            made.setdefault(n.targets[0].id, []).append(n.value)

    def is_temp(v):
        if isinstance(v, ast.Call) and ext_name(p, f, v.func) in ('io.BytesIO', 'io.StringIO'):
            return True
        return any(isinstance(x, ast.Name) and x.id in temps for x in ast.walk(v))
    if depth < 4 and f.name.startswith('_') and not f.name.endswith('__'):
        # a private helper that is only handed such files
        given = {}
        if not hasattr(r, 'calls_by_name'):
            r.calls_by_name = {}
            for u in p.functions.values():
                for n in walk_own(u.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                        r.calls_by_name.setdefault(n.func.id if isinstance(n.func, ast.Name) else n.func.attr, []).append((n, u))
        for n, u in r.calls_by_name.get(f.node.name, []):
            g = r.callee(n, u)
            if g is None or g[0] is not f:
                given[None] = [False]
                continue
            mine = temp_names(p, r, u, depth + 1)
            ps = f.params[1:] if g[1] else f.params
            for k, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                given.setdefault(k, []).append(any(isinstance(x, ast.Name) and x.id in mine for x in ast.walk(a)))
        if None not in given:
            temps |= {k for k, ok in given.items() if all(ok)}
    for _ in range(4):
        temps |= {k for k, vs in made.items() if all(is_temp(v) for v in vs)}
    return temps


def fs_sinks(p, r, f):
    """-> [(call node, what)] file system changes made directly by f"""
    temps = temp_names(p, r, f)
    out = []
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call) or id(n) in temps:
            continue
        vals = list(n.args) + [k.value for k in n.keywords]
        if any(isinstance(x, ast.Name) and x.id in temps for a in vals for x in ast.walk(a)):
            continue                            # written to a temporary file that is removed again
        d = ext_name(p, f, n.func)
        if d is not None:
            d = d[9:] if d.startswith('builtins.') else d
            if d in ('open', 'io.open'):
                if open_writes(n):
                    out.append((n, 'open for writing'))
                continue
            if d not in WRITE_EXACT_NOT and any(d == x or x.endswith('.') and d.startswith(x) or not x.endswith('.') and d.startswith(x) for x in WRITE_EXT):
                out.append((n, d))
                continue
            if '.' in d:
                if d.rsplit('.', 1)[1] in WRITE_METHODS and d.split('.')[0] not in ('sys', 'logging'):
                    out.append((n, d))
                continue
        if isinstance(n.func, ast.Attribute):
            g = r.callee(n, f)
            if g is not None and g[0] is not None:
                continue
            if isinstance(n.func.value, ast.Name) and n.func.value.id in temps:
                continue
            if n.func.attr == 'open' and open_writes(n) or n.func.attr in WRITE_METHODS:
                t = r.type_of(n.func.value, f)
                if isinstance(t, ClassInfo) and t.find(n.func.attr) is not None:
                    continue
                out.append((n, '.%s()' % n.func.attr))
    return out


@prop('X04', 'Every call in the package that can create, change or delete a file is located and traced up the call graph to the operations '
             'that reach it; all of them must be designated writers.',
      technique='effect reachability over the call graph',
      assumptions=['external libraries write only through the listed calls', 'a temporary file opened in a with statement is removed again'])
def x04(ctx):
    p = ctx.p
    r = Resolver(p)
    cg = CallGraph(p, r)
    ctx.rule('sink', 'a call that changes the file system is only reachable from designated writing operations')
    ctx.rule('entry', 'a reading, building, transforming, comparing or querying operation reaches no call that changes the file system')

    def name(f):
        return '%s.%s' % (f.cls.name, f.name) if f.cls else f.name
    sinks = {}
    for f in p.functions.values():
        if in_scope(f.module):
            s = fs_sinks(p, r, f)
            if s:
                sinks[f.qualname] = s
            ctx.analysed.add(f.qualname)

    memo = {}

    def bad_entry(q):
        """an operation that reaches q and is not a designated writer, or None"""
        if q in memo:
            return memo[q]
        memo[q] = None
        f = p.functions[q]
        if name(f) in WRITERS:
            return None
        ups = sorted(cg.inc.get(q, set()) - {q})
        if not ups:
            memo[q] = q
            return q
        for u in ups:
            b = bad_entry(u)
            if b:
                memo[q] = b
                return b
        return None
    for q, ss in sorted(sinks.items()):
        b = bad_entry(q)
        for n, what in ss:
            ctx.need(b is None, 'sink', '%s:%s' % (short_q(q), what), '%s is reached from %s, which is not a writing operation' % (what, short_q(b or '')),
                     p.functions[q].loc(n))
    # everything that can end up in such a call
    reaches = {}
    todo = [(q, None) for q in sinks]
    while todo:
        q, down = todo.pop()
        if q in reaches:
            continue
        reaches[q] = down
        todo += [(u, q) for u in cg.inc.get(q, ())]
    state = {}

    def fine(q):
        """q writes nothing, is a writer, or only serves writers"""
        f = p.functions[q]
        if q not in reaches or name(f) in WRITERS:
            return True
        if q in state:
            return state[q]
        state[q] = True
        ups = cg.inc.get(q, set()) - {q}
        state[q] = bool(ups) and all(fine(u) for u in ups)
        return state[q]
    for f in p.functions.values():
        if in_scope(f.module):
            q = f.qualname
            way, x = [], q
            while x is not None and x in reaches:
                way.append(short_q(x))
                x = reaches[x]
            ctx.need(fine(q), 'entry', short_q(q), 'it can change the file system: ' + ' -> '.join(way), f.loc())
    ctx.floor('sink', 12)


# ---------------------------------------------------------------- X05 determinism
NONDET = ('random.', 'numpy.random', 'np.random', 'torch.rand', 'torch.multinomial', 'torch.bernoulli', 'torch.normal', 'torch.empty', 'time.', 'datetime.',
          'uuid.', 'secrets.', 'os.urandom', 'os.environ', 'os.getenv', 'os.getpid', 'os.listdir', 'os.scandir', 'os.walk', 'glob.', 'socket.',
          'platform.', 'getpass.', 'numpy.empty', 'os.times', 'os.stat', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime')
NONDET_BUILTIN = {'id', 'hash', 'vars', 'dir', 'input'}
NONDET_METHODS = {'iterdir', 'rglob', 'shuffle', 'now', 'today', 'utcnow', 'permutation', 'randint', 'randn', 'uniform_', 'normal_', 'random_'}
X5_ENTRY = ('midi_reader.MidiReader.read', 'midi_graph_builder.MidiGraphBuilder.build', 'midi_graph_builder.MidiGraphBuilder.build_sequence',
            'midi_graph_builder.MidiGraphBuilder.graphs', 'midi_graph_builder.MidiGraphBuilder.from_midi_networkx',
            'midi_graph_builder.MidiGraphBuilder.compute_data', 'midi_graph_builder.MidiGraphBuilder.create_tensor',
            'midi_graph_builder.MidiGraphBuilder.rescale_velocities', 'midi_graph_builder.MidiGraphBuilder.from_file')


@prop('X05', 'All functions reachable in the call graph from reading and graph building are searched for random numbers, the clock, object '
             'addresses, directory order, the environment and hashes of anything but sets of numbers.',
      technique='source reachability over the call graph',
      assumptions=['external readers (mido, pretty_midi), librosa, networkx and torch are deterministic', 'the hash of a set of integers is the '
                   'same in every process'])
def x05(ctx):
    p = ctx.p
    r = Resolver(p)
    cg = CallGraph(p, r)
    ctx.rule('source', 'no source of nondeterminism is reachable from reading or building')
    ctx.rule('hash', 'values are only hashed in a way that does not depend on the process')
    ctx.rule('order', 'no set of strings is iterated: its order changes with the hash seed')
    starts = []
    for e in X5_ENTRY:
        starts.append(p.func('neural_graph_composer.' + e).qualname)
    seen = cg.reach(starts)
    for q in sorted(seen):
        f = p.functions[q]
        ctx.analysed.add(q)
        bad = False
        strsets = str_sets(p, f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                d = ext_name(p, f, n.func)
                d = d[9:] if d and d.startswith('builtins.') else d
                what = None
                if d and (any(d.startswith(x) for x in NONDET)) and d not in ('torch.empty_like',):
                    what = d
                elif d in NONDET_BUILTIN and d != 'hash':
                    what = d + '()'
                elif isinstance(n.func, ast.Attribute) and d is None and n.func.attr in NONDET_METHODS and r.callee(n, f) is None:
                    what = '.%s()' % n.func.attr
                if what:
                    bad = True
                    ctx.bad('source', '%s:%s' % (short_q(q), what), '%s is used on the way of reading or building (%s)' % (what, route(seen, q)), f.loc(n))
                if d == 'hash' and n.args:
                    ctx.need(not mentions_str(p, f, n.args[0], strsets), 'hash', '%s:hash' % short_q(q), 'the hash of strings differs from process to process', f.loc(n))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = ext_name(p, f, n)
                if d == 'os.environ':
                    bad = True
                    ctx.bad('source', '%s:os.environ' % short_q(q), 'the environment is read', f.loc(n))
            it = n.iter if isinstance(n, (ast.For, ast.comprehension)) else n.args[0] if isinstance(n, ast.Call) and dotted_of(n.func) in ('list', 'tuple', 'iter', 'enumerate', 'next') and n.args else None
            if it is not None:
                ctx.need(not is_str_set(p, f, it, strsets), 'order', '%s:iteration' % short_q(q), 'the order of a set of strings is used', f.loc(n) if hasattr(n, 'lineno') else f.loc(it))
        if not bad:
            ctx.ok('source')
    ctx.floor('source', 40)
    ctx.floor('hash', 1)


STR_MAKERS = {'librosa.midi_to_note', 'librosa.core.midi_to_note', 'str', 'repr', 'librosa.hz_to_note', 'format', 'chr'}


def str_expr(p, f, e):
    if isinstance(e, ast.Constant):
        return isinstance(e.value, (str, bytes))
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.Call):
        d = ext_name(p, f, e.func)
        d = d[9:] if d and d.startswith('builtins.') else d
        return d in STR_MAKERS or isinstance(e.func, ast.Attribute) and e.func.attr in ('lower', 'upper', 'strip', 'join', 'format', 'replace', 'decode', 'hexdigest')
    if isinstance(e, ast.Attribute):
        return e.attr in ('name', 'pitch_name', 'filename', 'text')
    if isinstance(e, ast.Tuple):
        return any(str_expr(p, f, x) for x in e.elts)
    return False


def str_sets(p, f):
    """local names bound to sets of strings"""
    out = set()
    for _ in (0, 1):
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and is_str_set(p, f, n.value, out):
                out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return out


def is_str_set(p, f, e, known):
    if isinstance(e, ast.Name):
        return e.id in known
    if isinstance(e, ast.Set):
        return any(str_expr(p, f, x) for x in e.elts)
    if isinstance(e, ast.SetComp):
        return str_expr(p, f, e.elt)
    if isinstance(e, ast.Call) and dotted_of(e.func) in ('set', 'frozenset') and e.args:
        a = e.args[0]
        if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            return str_expr(p, f, a.elt)
        if isinstance(a, (ast.List, ast.Tuple)):
            return any(str_expr(p, f, x) for x in a.elts)
        return is_str_set(p, f, a, known)
    return False


def mentions_str(p, f, e, known):
    if str_expr(p, f, e) or is_str_set(p, f, e, known):
        return True
    return any(mentions_str(p, f, c, known) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr) and not isinstance(e, (ast.GeneratorExp, ast.ListComp))) or (
        isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) and str_expr(p, f, e.elt))


# ---------------------------------------------------------------- X06 messages
LOGGING = ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn')
PURE_CALLS = {'len', 'type', 'str', 'repr', 'round', 'isinstance', 'id', 'abs', 'bool', 'getattr', 'hasattr', 'format', 'dict', 'tuple', 'list', 'sorted',
              'set', 'frozenset', 'sum', 'min', 'max', 'any', 'all', 'enumerate', 'zip', 'map', 'filter', 'range', 'reversed', 'int', 'float', 'iter', 'super',
              'vars', 'dir', 'hash', 'callable', 'issubclass', 'bytes', 'ord', 'chr', 'hex', 'bin', 'ascii', 'divmod', 'pow', 'locals', 'globals'}
CONSUMERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'dict'}
MAY_FAIL = {'int', 'float', 'min', 'max', 'chr', 'ord', 'getattr', 'divmod', 'pow', 'bytes'}
EFFECT_METHODS = {'read', 'readline', 'readlines', 'write', 'seek', 'close', 'step', 'backward', 'zero_grad', 'send', 'throw', 'acquire', 'release',
                  'put', 'rename', 'unlink', 'mkdir', 'index', 'shuffle_', 'cache_clear'}


def message_calls(p, f):
    """[(call, its statement)] of the calls in f that only report"""
    out = []
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = dotted_of(n.func) or ''
        last = d.split('.')[-1]
        e = ext_name(p, f, n.func) or d
        if e in ('print', 'builtins.print', 'warnings.warn', 'pprint.pprint') or e.startswith('logging.') and last in LOGGING or \
                ('logger' in d.split('.')[:-1] or d.split('.')[0] in ('log', '_log', '_logger')) and last in LOGGING:
            out.append(n)
    return out


def iterator_names(p, f):
    """names of f that stand for something that can be iterated once only"""
    out = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            v = n.value
            once = isinstance(v, ast.GeneratorExp)
            if isinstance(v, ast.Call):
                d = dotted_of(v.func) or ''
                last = d.split('.')[-1]
                once = d in ('iter', 'map', 'filter', 'zip', 'enumerate', 'reversed') or \
                    any(g.node.name == last and any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in walk_own(g.node)) for g in p.functions.values())
            if once:
                out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.annotation is not None and any(k in ast.unparse(a.annotation) for k in ('Iterator', 'Generator', 'Iterable')):
            out.add(a.arg)
    return out


def method_effects(ctx, cands):
    """what calling one of these functions may do besides giving a value"""
    from ..lib import walk, kind, args, holds, num, mentions
    for g in cands:
        try:
            ps = ctx.run(g.qualname)
        except (AnalysisBroken, RecursionError):
            return '%s cannot be followed' % short_q(g.qualname)
        for pa in ps:
            if pa.kind == 'raise' and not holds(pa.guards, lambda a, q: a.op == 'lt' and any(num(x) and abs(x.a[0]) >= 1e9 for x in a.a)):
                return '%s may raise' % short_q(g.qualname)        # (beyond the limit on the size of a file)
            for e, ch in walk(pa.events):
                if (kind(e) in ('setattr', 'store', 'delattr', 'delitem') or kind(e) == 'mut' and args(e)[1] in MUTATORS) and owned_outside(args(e)[0]):
                    if kind(e) == 'setattr' and empty_container(args(e)[2]):
                        continue
                    if kind(e) == 'setattr' and holds(e.a[2], lambda a, q: a.op == 'lt' and mentions(
                            a, lambda x: x.op in ('attr', 'lh', 'lv') and args(e)[1] in str(x.a))):
                        continue                # a table that is only extended when it is too short
                    return '%s changes %s' % (short_q(g.qualname), str(args(e)[1])[:40])
    return None


def message_faults(ctx, f):
    """[(node, why)] of what a message of f computes that may change something or fail"""
    p = ctx.p
    out = []
    calls = message_calls(p, f)
    if not calls:
        return len(calls), out
    once = None
    par = parents_of(f)
    inside = {id(x) for c in calls for x in ast.walk(c)}
    for c in calls:
        for a in c.args + [k.value for k in c.keywords]:
            for n in ast.walk(a):
                if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                    out.append((n, 'binds or waits'))
                elif isinstance(n, ast.Call):
                    d = dotted_of(n.func)
                    last = n.func.attr if isinstance(n.func, ast.Attribute) else d or ''
                    if isinstance(n.func, ast.Name) and last in PURE_CALLS and ext_name(p, f, n.func) in (last, 'builtins.' + last, None):
                        x = n.args[0] if n.args else None
                        if last in CONSUMERS and isinstance(x, ast.Name):
                            once = iterator_names(p, f) if once is None else once
                            if x.id in once:
                                out.append((n, 'uses up %s' % x.id))
                        if last in ('min', 'max') and len(n.args) == 1 and not any(k.arg == 'default' for k in n.keywords) and not excused(ctx, f, n, par, inside):
                            out.append((n, 'fails for an empty collection'))
                        continue
                    if last == 'next':
                        out.append((n, 'advances an iterator'))
                        continue
                    cands = [g for g in p.functions.values() if g.node.name == last and in_scope(g.module)]
                    own = ext_name(p, f, n.func) if d else None
                    if isinstance(n.func, ast.Name) and not cands:
                        if own is None:
                            out.append((n, 'calls %s' % last))
                        continue
                    if cands:
                        why = method_effects(ctx, cands)
                        if why:
                            out.append((n, why))
                    elif last in MUTATORS or last in EFFECT_METHODS or last.endswith('_') and not last.startswith('_'):
                        out.append((n, 'calls %s' % last))
                elif isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
                    if not excused(ctx, f, n, par, inside):
                        out.append((n, 'there may be no such item'))
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)):
                    txt = isinstance(n.left, (ast.JoinedStr, ast.Constant)) and not isinstance(getattr(n.left, 'value', ''), (int, float))
                    if not (txt and isinstance(n.op, ast.Mod)) and not (isinstance(n.right, ast.Constant) and n.right.value) and not excused(ctx, f, n, par, inside):
                        out.append((n, 'divides by what may be zero'))
    return len(calls), out


def spelled(f):
    """a function giving the text of an expression of f with its local names for attributes and items written out"""
    seen, vals = {}, {}
    for x in walk_own(f.node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            seen[x.id] = seen.get(x.id, 0) + 1
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Attribute, ast.Subscript, ast.Name)):
            vals[x.targets[0].id] = x.value
    for a in f.node.args.args + f.node.args.kwonlyargs:
        seen[a.arg] = seen.get(a.arg, 0) + 1

    class Sub(ast.NodeTransformer):
        def __init__(self, left):
            self.left = left

        def visit_Name(self, n):
            if self.left and isinstance(n.ctx, ast.Load) and n.id in vals and seen.get(n.id) == 1:
                return Sub(self.left - 1).visit(ast.parse(ast.unparse(vals[n.id]), mode='eval').body)
            return n

    return lambda e: ast.unparse(Sub(4).visit(ast.parse(ast.unparse(e), mode='eval').body))


def same_elsewhere(ctx, f, n, text):
    """another method of the class computes the same item of the object for its work"""
    if f.cls is None or not text.startswith('self.'):
        return False
    for g in ctx.p.functions.values():
        if g.cls is not f.cls or g is f:
            continue
        inside = {id(x) for c in message_calls(ctx.p, g) for x in ast.walk(c)}
        sp = None
        for y in walk_own(g.node):
            if type(y) is type(n) and id(y) not in inside and isinstance(getattr(y, 'ctx', None), ast.Load):
                sp = sp or spelled(g)
                if sp(y) == text:
                    return True
    return False


def excused(ctx, f, n, par, inside):
    """the operation computes the same anyway next to the message, the item is there by construction, or the emptiness was tested"""
    sp = spelled(f)
    text = sp(n)
    base = n.value if isinstance(n, ast.Subscript) else n.right if isinstance(n, ast.BinOp) else n.args[0]
    bt = sp(base)
    x = n
    while x in par:
        x = par[x]
        if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(x, (ast.For, ast.AsyncFor)):
            gens = [(x.target, x.iter)] if isinstance(x, (ast.For, ast.AsyncFor)) else [(g.target, g.iter) for g in x.generators]
            for t, it in gens:
                if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(t, ast.Name) and t.id == n.slice.id and \
                        sp(it) in (bt, bt + '.keys()', 'range(len(%s))' % bt, 'sorted(%s)' % bt):
                    return True
        if isinstance(x, (ast.If, ast.While, ast.IfExp)) and any(isinstance(y, ast.expr) and sp(y) == bt for y in ast.walk(x.test)):
            return True
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(x, field, None)
            if isinstance(block, list) and any(id(n) in {id(z) for z in ast.walk(s)} for s in block):
                for s in block:
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)):
                        if any(id(y) not in inside and type(y) is type(n) and sp(y) == text for y in ast.walk(s)):
                            return True
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == ast.unparse(base) for t in s.targets) and \
                                isinstance(s.value, (ast.List, ast.Tuple, ast.Dict)) and isinstance(n, ast.Subscript):
                            return True
    return same_elsewhere(ctx, f, n, text)


def demo(p, f, used):
    """a function that only prints: nothing uses it and it gives nothing"""
    return f.cls is None and f.node.name not in used and not any(
        isinstance(n, ast.Return) and n.value is not None or isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))


@prop('X06', 'Every logging, print and warning call of the package is located by resolving its name; each expression it formats is searched '
      'for calls, items, divisions and bindings, and every in-library function it calls is followed path by path for effects and exceptions.')
def x06(ctx):
    ctx.rule('quiet', 'what a message computes changes nothing and cannot fail')
    ctx.rule('messages', 'messages of the library')
    used = {n.id if isinstance(n, ast.Name) else n.attr for m in ctx.p.modules.values() for s in m.tree.body
            if not (isinstance(s, ast.If) and '__main__' in ast.unparse(s.test)) for n in ast.walk(s)
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load)}
    for f in list(ctx.p.functions.values()):
        if not f.module.relpath.startswith('neural_graph_composer/') or not in_scope(f.module) or demo(ctx.p, f, used):
            continue
        n, bad = message_faults(ctx, f)
        if n:
            ctx.ok('messages', n)
            if not bad:
                ctx.ok('quiet', n)
        for node, why in bad:
            ctx.bad('quiet', '%s: %s' % (short_q(f.qualname), ast.unparse(node)[:60]), 'a message computes %s: %s' % (ast.unparse(node)[:60], why),
                    '%s:%d' % (f.module.relpath, node.lineno))
    ctx.floor('messages', 20)
