"""Abstract interpreter: path-sensitive, interprocedural dataflow over provenance terms.

A run interprets one entry function on symbolic inputs.  States are partitioned by trace: an `if` splits a state,
states that agree on variables, heap, container contents and event log are joined again (their guards become a
disjunction).  In-repository calls, properties, setters and constructors are followed; loops are summarised by the
set of paths through one arbitrary iteration after every variable, field and container that any iteration changes has
been replaced by an unknown.  No solver is involved: a branch is decided only when the very same literal (or a direct
contradiction of it) is already among the guards.
"""
import ast
import copy as _copy
import string

from .loader import AnalysisBroken, Unproved, ClassInfo, FuncInfo, Module, dotted_of, mangle, walk_own
from .terms import (T, fstr, mk, const, NONE, TRUE, FALSE, is_const, num, binop, neg, cmp_lit, lit_not, atom_term,
                    ATOM_OPS, is_atom, subterms, mentions, subst, key, lenarg, show)

IGNORED_ROOTS = ('logging.', 'warnings.warn', 'builtins.print', 'pprint.')
IMPURE_EXT = ('torch.save', 'torch.load', 'shutil.', 'os.remove', 'os.unlink', 'os.makedirs', 'os.mkdir', 'os.rename',
              'os.replace', 'os.rmdir', 'builtins.open', 'random.', 'numpy.random', 'torch.rand', 'torch.manual_seed',
              'tempfile.', 'subprocess.', 'pickle.dump', 'json.dump', 'torch_geometric.data.download_url',
              'torch_geometric.data.extract', 'builtins.setattr', 'builtins.delattr', 'time.', 'uuid.', 'bisect.insort',
              'heapq.')
ALLOC_EXT = {'torch.zeros', 'torch.ones', 'torch.empty', 'torch.full', 'torch.zeros_like', 'torch.ones_like', 'torch.eye',
             'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.eye'}
UNIQUE_EXT = ('random.', 'numpy.random', 'torch.rand', 'builtins.open', 'time.', 'uuid.')
PURE_METHODS = {
    'keys', 'values', 'items', 'get', 'copy', 'index', 'count', 'has_edge', 'has_node', 'neighbors', 'predecessors',
    'successors', 'number_of_nodes', 'number_of_edges', 'nodes', 'edges', 'to_directed', 'get_edge_data', 'size', 'dim',
    'view', 'unsqueeze', 'squeeze', 'item', 'tolist', 'long', 'float', 'bool', 'int', 'contiguous', 't', 'reshape',
    'astype', 'clip', 'max', 'min', 'sum', 'mean', 'all', 'any', 'strip', 'split', 'lower', 'upper', 'startswith',
    'endswith', 'format', 'join', 'replace', 'exists', 'is_file', 'is_dir', 'expanduser', 'resolve', 'absolute',
    'union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference', 'cpu',
    'numpy', 'detach', 'numel', 'to', 'clone', 'is_integer', 'get_tempo_changes', 'get_end_time', 'encode', 'decode',
    'find', 'rfind', 'flatten', 'transpose', 'type', 'eq', 'quantize', 'rjust', 'ljust', 'rpartition', 'partition',
    'isdigit', 'title', 'capitalize', 'fromkeys', 'time_to_tick', 'tick_to_time', 'estimate_tempo', 'dot', 'argmax',
    'hex', 'state_dict', 'bit_length', 'glob', 'rglob', 'is_absolute', 'group', 'match', 'as_posix',
}
MAXSTATES = 600
MAXDEPTH = 16
MAXSTEPS = 400000


class Closure:
    def __init__(self, node, env, fr, level):
        self.node, self.env, self.fr, self.level = node, env, fr, level
        self.nonlocals = {x for n in ast.walk(node) if isinstance(n, ast.Nonlocal) for x in n.names}


class State:
    __slots__ = ('env', 'stack', 'heap', 'cont', 'guards', 'log', 'ver', 'cnt')

    def __init__(self):
        self.env, self.stack, self.heap, self.cont = {}, (), {}, {}
        self.guards, self.log, self.ver, self.cnt = {}, None, {}, {}

    def fork(self):
        s = State()
        s.env, s.stack, s.heap, s.cont = dict(self.env), self.stack, dict(self.heap), dict(self.cont)
        s.guards, s.log, s.ver, s.cnt = dict(self.guards), self.log, dict(self.ver), dict(self.cnt)
        return s

    def sig(self):
        return (frozenset(self.env.items()), tuple(frozenset(e.items()) for e in self.stack),
                frozenset(self.heap.items()), frozenset(self.cont.items()), self.log)

    def events(self, upto=None):
        out, l = [], self.log
        while l is not None and l is not upto:
            out.append(l.a[1])
            l = l.a[0]
        out.reverse()
        return out

    def glits(self):
        return frozenset(self.guards.items())


LATER = 10 ** 6
COUNTS = {}


def name_counts(n):
    """How often each name occurs in a tree; a name some later-running code mentions counts as LATER."""
    r = COUNTS.get(id(n))
    if r is not None and r[0] is n:
        return r[1]
    out = {}

    def go(x, later):
        if isinstance(x, ast.Name):
            out[x.id] = out.get(x.id, 0) + (LATER if later else 1)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            for y in x.names:
                out[y] = out.get(y, 0) + LATER
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out[x.name] = out.get(x.name, 0) + LATER
        deep = later or (x is not n and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)))
        for c in ast.iter_child_nodes(x):
            go(c, deep)
    go(n, isinstance(n, (ast.Lambda, ast.GeneratorExp)))
    COUNTS[id(n)] = (n, out)
    return out


class Frame:
    def __init__(self, fn, module, cls, depth, parent=None):
        self.fn, self.module, self.cls, self.depth, self.parent = fn, module, cls, depth, parent
        self.on_yield = None
        self.raises = []
        self.selfname = None
        self.closure_env = {}

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent


class Path:
    """One finished path of the entry function."""
    def __init__(self, st, kind, value):
        self.st, self.kind, self.value = st, kind, value
        self.guards = st.guards
        self.events = st.events()
        self.dvalue = value

    def __repr__(self):
        return '<path %s %s>' % (self.kind, self.value)


def ev_kind(e):
    return e.a[0]


def pair_of(t):
    """quotient and remainder as a pair of values"""
    if t.op == 'call' and t.a[0] == 'divmod' and len(t.a[1]) == 2:
        return mk('tuple', mk('item', t, const(0)), mk('item', t, const(1)))
    return t


class Engine:
    def __init__(self, project, opaque=(), plain=(), hints=None, inline_ext=(), max_depth=MAXDEPTH, follow=None):
        self.p = project
        self.opaque = set(opaque)
        self.plain = set(plain) | {'neural_graph_composer.midi.sorted_dict.SortedDict'}
        self.types = {}
        self.hints = hints or {}
        self.idxorder = {}
        self.records = set()             # objects whose entries are their attributes (graphs of torch_geometric)
        self.searched = {}               # element found by a search loop -> the orders it was looked for in
        self.closures = {}
        self.steps = 0
        self.max_depth = max_depth
        self.follow = follow
        self.analysed = set()
        self._fieldtypes = {}
        self._loopdepth = 0
        self._activeloops = []
        self.ignored_calls = IGNORED_ROOTS

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None, self_cls=None, pre=None, setup=None):
        if isinstance(fn, str):
            fn = self.p.func(fn)
        st = State()
        fr = self.top_frame = Frame(fn, fn.module, fn.cls, 0)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, n in enumerate(names):
            t = (args or {}).get(n)
            if t is None:
                t = mk('param', n)
            st.env[n] = t
            if i == 0 and fn.cls is not None and not fn.is_static:
                c = self_cls or fn.cls
                if fn.is_classmethod:
                    st.env[n] = mk('cls', c.qualname)
                else:
                    self.types[t] = ('cls', c)
            elif t.op == 'param':
                arg = next(x for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == n)
                if arg.annotation is not None:
                    ty = self.ann(fn.module, arg.annotation)
                    if ty:
                        self.types[t] = ty
        if a.vararg:
            st.env[a.vararg.arg] = mk('param', '*' + a.vararg.arg)
        if a.kwarg:
            st.env[a.kwarg.arg] = mk('param', '**' + a.kwarg.arg)
        for l in (pre or ()):
            st.guards[l[0]] = l[1]
        if setup:
            setup(self, st)
        self.analysed.add(fn.qualname)
        outs = self.block(fn.node.body, st, fr)
        paths = []
        for s, o in outs:
            if o[0] == 'fall':
                paths.append(Path(s, 'return', NONE))
            elif o[0] == 'return':
                paths.append(Path(s, 'return', o[1]))
            elif o[0] == 'raise':
                paths.append(Path(s, 'raise', o[1]))
        for s, e in fr.raises:
            paths.append(Path(s, 'raise', e))
        for p in paths:
            if p.value is not None:
                p.dvalue = self._deref(p.st, p.value, 0, {})
        return paths

    def run_body(self, module, stmts, env=None, cls=None):
        """Interpret a list of statements (module level code)."""
        st = State()
        st.env.update(env or {})
        fr = self.top_frame = Frame(None, module, cls, 0)
        outs = self.block(stmts, st, fr)
        return [Path(s, o[0], None) for s, o in outs]

    # ------------------------------------------------------------------ types
    def ann(self, module, node):
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            h = (dotted_of(node.value) or '').split('.')[-1]
            sl = node.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if h in ('Optional', 'Final', 'ClassVar', 'Annotated'):
                return self.ann(module, elts[0])
            if h == 'Union':
                tys = [self.ann(module, e) for e in elts]
                for ty in tys:
                    if ty and ty[0] == 'cls':
                        return ty
                for ty in tys:
                    if ty and ty[0] in ('list', 'dict'):
                        return ty
                return None
            if h in ('List', 'list', 'Set', 'set', 'FrozenSet', 'Iterable', 'Iterator', 'Generator', 'Sequence', 'Deque'):
                return ('list', self.ann(module, elts[0]))
            if h in ('Dict', 'dict', 'SortedDict', 'OrderedDict', 'Mapping', 'DefaultDict') and len(elts) == 2:
                return ('dict', self.ann(module, elts[0]), self.ann(module, elts[1]))
            if h in ('Tuple', 'tuple'):
                return ('tuple', tuple(self.ann(module, e) for e in elts))
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann(module, node.left) or self.ann(module, node.right)
        d = dotted_of(node)
        if d:
            r = self.p.resolve(module, d)
            if isinstance(r, ClassInfo):
                return ('cls', r)
            if isinstance(r, str):
                return ('ext', r)
        return None

    def field_type(self, c, name):
        k = (c.qualname, name)
        if k in self._fieldtypes:
            return self._fieldtypes[k]
        self._fieldtypes[k] = None
        for b in c.mro():
            h = self.hints.get((b.name, name))
            if h:
                ty = self.ann(b.module, ast.parse(h, mode='eval').body)
                if ty:
                    self._fieldtypes[k] = ty
                    return ty
            if name in b.annots:
                ty = self.ann(b.module, b.annots[name])
                if ty:
                    self._fieldtypes[k] = ty
                    return ty
            for f in list(b.methods.values()):
                anns = {x.arg: x.annotation for x in f.node.args.args + f.node.args.kwonlyargs}
                for n in walk_own(f.node):
                    tgt, val, an = None, None, None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, an = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name)
                            and f.params and tgt.value.id == f.params[0]):
                        continue
                    if mangle(b.name, tgt.attr) != name:
                        continue
                    ty = None
                    if an is not None:
                        ty = self.ann(b.module, an)
                    if ty is None and val is not None:
                        ty = self.expr_ty(val, f)
                    if ty and (ty[0] != 'list' or ty[1]) and ty[0] != 'ext':
                        self._fieldtypes[k] = ty
                        return ty
        return None

    def made_by(self, f, depth=0):
        """class of what a function makes: its annotation, or the one class whose objects it returns"""
        if f.node.returns is not None:
            return self.ann(f.module, f.node.returns)
        if depth > 6:
            return None
        got = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                ty = self.expr_ty(n.value, f, depth + 1)
                got.add(ty[1] if ty and ty[0] == 'cls' else None)
        c = got.pop() if len(got) == 1 else None
        return ('cls', c) if c is not None else None

    def expr_ty(self, e, f, depth=0):
        """type of an expression of a function, from its syntax"""
        if depth > 6:
            return None
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            for v in ([e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values):
                ty = self.expr_ty(v, f, depth + 1)
                if ty is not None:
                    return ty
            return None
        if isinstance(e, ast.Name):
            if f.cls is not None and f.params and e.id == f.params[0] and not f.is_static and not f.is_classmethod:
                return ('cls', f.cls)
            for x in f.node.args.args + f.node.args.kwonlyargs:
                if x.arg == e.id:
                    return self.ann(f.module, x.annotation) if x.annotation is not None else None
            vals = []
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                    vals.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    return self.ann(f.module, n.annotation)
                elif isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                    vals.append(n)
            stores = sum(isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store) for v in vals)
            vals = [v for v in vals if not (isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store))]
            if stores != len(vals):
                return None
            tys = [self.expr_ty(v, f, depth + 1) for v in vals if not (isinstance(v, ast.Constant) and v.value is None)]
            return tys[0] if tys and all(t == tys[0] for t in tys) else None
        if isinstance(e, ast.Call):
            d = dotted_of(e.func)
            r = self.p.resolve(f.module, d) if d else None
            if r is None and d and f.is_classmethod and f.params and d == f.params[0]:
                r = f.cls
            if r is None and isinstance(e.func, ast.Attribute):
                c = None
                if isinstance(e.func.value, ast.Name) and f.cls is not None and f.params and e.func.value.id == f.params[0] and not f.is_static:
                    c = f.cls
                else:
                    ty = self.expr_ty(e.func.value, f, depth + 1)
                    c = ty[1] if ty and ty[0] == 'cls' else None
                if c is not None:
                    r = c.find(mangle(f.cls.name if f.cls else None, e.func.attr))
                    if r is not None and r.is_property:
                        r = None
            if isinstance(r, ClassInfo):
                return ('cls', r)
            if isinstance(r, FuncInfo) and not r.is_generator:
                return self.made_by(r, depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            b = self.expr_ty(e.value, f, depth + 1)
            if b and b[0] == 'cls':
                nm = mangle(f.cls.name if f.cls else None, e.attr)
                g = b[1].find(nm)
                if g is not None:
                    return self.made_by(g, depth + 1) if g.is_property else None
                return self.field_type(b[1], nm)
        return None

    def type_of(self, t):
        ty = self.types.get(t)
        if ty:
            return ty
        if t.op == 'new':
            c = self.p.classes.get(t.a[0])
            return ('cls', c) if c else None
        if t.op == 'attr':
            b = self.type_of(t.a[0])
            if b and b[0] == 'cls':
                return self.field_type(b[1], t.a[1])
        if t.op == 'elem':
            b = self.type_of(t.a[0])
            if b and b[0] == 'list':
                return b[1]
            if b and b[0] == 'dict':
                return b[1]
            if b and b[0] == 'cls':
                return self.elem_type(b[1], '__iter__')
        if t.op == 'item':
            b = self.type_of(t.a[0])
            if b and b[0] == 'list':
                return b if t.a[1].op == 'slice' else b[1]
            if b and b[0] == 'dict':
                return b[2]
            if b and b[0] == 'tuple' and num(t.a[1]) and 0 <= t.a[1].a[0] < len(b[1]):
                return b[1][t.a[1].a[0]]
            if b and b[0] == 'cls':
                return self.elem_type(b[1], '__getitem__')
        if t.op == 'fcall':
            f = self.p.functions.get(t.a[0])
            if f is not None and f.node.returns is not None:
                return self.ann(f.module, f.node.returns)
            h = self.hints.get((f.cls.name, f.name + '()')) if f is not None and f.cls is not None else None
            if h:
                return self.ann(f.module, ast.parse(h, mode='eval').body)
        if t.op == 'enum':
            return ('cls', self.p.classes.get(t.a[0]))
        if t.op == 'sorted':
            return self.type_of(t.a[0])
        return None

    def elem_type(self, c, dunder):
        h = self.hints.get((c.name, dunder))
        if h:
            return self.ann(c.module, ast.parse(h, mode='eval').body)
        f = c.find(dunder)
        if f is not None and f.node.returns is not None:
            ty = self.ann(f.module, f.node.returns)
            if dunder == '__iter__':
                return ty[1] if ty and ty[0] == 'list' else None
            return ty
        return None

    def class_of(self, t):
        ty = self.type_of(t)
        if ty and ty[0] == 'cls' and ty[1] is not None:
            return ty[1]
        return None

    # ------------------------------------------------------------------ guards
    def decide(self, st, lit):
        a, pol = lit
        if a is TRUE:
            return pol
        if a is FALSE:
            return not pol
        if a.op == 'not':
            return self.decide(st, (a.a[0], not pol))
        g = st.guards
        if a in g:
            return g[a] == pol
        v = self.know(st, a)
        return None if v is None else v == pol

    @staticmethod
    def among(x, s):
        return any(y.a[0] == x.a[0] for y in s.a[0] if y.op == 'const')

    NONNULL = {'new', 'tuple', 'fstr', 'bin', 'lin', 'fn', 'cls', 'bound', 'lambda', 'mod', 'enum', 'list', 'map',
               'slice', 'dictlit', 'range'}

    def know(self, st, a):
        g = st.guards
        if a.op == 'isnone':
            x = a.a[0]
            if x.op == 'const':
                return x.a[0] is None
            if x.op in self.NONNULL or is_atom(x) or x.op == 'idx' or x.op == 'elem' and x.a[0].op == 'range':
                return False
            if x.op == 'call' and x.a[0] in ('max', 'min') and any(k == 'default' and v is NONE for k, v in x.a[2]):
                pass
            elif x.op == 'call' and x.a[0] in ('len', 'hash', 'int', 'float', 'str', 'frozenset', 'set', 'list', 'max', 'min',
                                            'abs', 'round', 'sum'):
                return False
            if g.get(mk('truthy', x)) is True:
                return False
            for b, p in g.items():
                if p and b.op == 'isinst' and b.a[0] is x:
                    return False
                if p and b.op == 'eq' and x in b.a and any(y.op == 'const' and y.a[0] is not None for y in b.a):
                    return False
        elif a.op == 'truthy':
            x = a.a[0]
            if x.op == 'const':
                return bool(x.a[0])
            if x.op == 'tuple':
                return len(x.a) > 0
            if x.op in ('fn', 'cls', 'bound', 'lambda', 'mod'):
                return True
            if x.op == 'new':
                if x in st.cont:
                    return self.nonempty(st, x)
                c = self.class_of(x)
                if c is not None and not c.find('__len__') and not c.find('__bool__') and not c.ext_bases():
                    return True
            if g.get(mk('isnone', x)) is True:
                return False
            if is_atom(x):
                return self.decide(st, (x, True))
        elif a.op == 'isinst':
            return self.know_inst(st, a.a[0], a.a[1])
        elif a.op == 'eq':
            x, y = a.a
            if y.op == 'const':
                for b, p in g.items():
                    if p and b.op == 'eq' and b.a[0] is x and b.a[1].op == 'const':
                        return False
                    if b.op == 'in' and b.a[0] is x and b.a[1].op == 'oneof' and p != self.among(y, b.a[1]):
                        return False
                if y.a[0] is not None and g.get(mk('isnone', x)) is True:
                    return False
                if x.op in ('enum', 'new', 'tuple') and not (x.op == 'new' and x in st.cont):
                    return False
                if is_atom(x) and isinstance(y.a[0], bool):
                    v = self.decide(st, (x, True))
                    return None if v is None else v == y.a[0]
            if x.op == 'enum' and y.op == 'enum':
                return x is y
        elif a.op == 'in' and a.a[1].op == 'oneof':
            for b, p in g.items():
                if p and b.op == 'eq' and b.a[0] is a.a[0] and b.a[1].op == 'const':
                    return self.among(b.a[1], a.a[1])
            if all(g.get(mk('eq', a.a[0], y)) is False for y in a.a[1].a[0]):
                return False
        elif a.op == 'is':
            x, y = a.a
            if x.op == 'new' and y.op == 'new':
                return x is y
            if x.op == 'enum' and y.op == 'enum':
                return x is y
        elif a.op == 'lt':
            x, y = a.a
            if g.get(mk('lt', y, x)) is True:
                return False
            if g.get(mk('eq', x, y)) is True or g.get(mk('eq', y, x)) is True:
                return False
        elif a.op == 'callable':
            if a.a[0].op in ('fn', 'cls', 'bound', 'lambda'):
                return True
            if a.a[0] is NONE:
                return False
        elif a.op == 'in':
            return self.know_in(st, a.a[0], a.a[1])
        return None

    def nonempty(self, st, obj):
        parts = st.cont[obj]
        seen = None
        for p in parts:
            if p[0] == 'lit':
                if p[1]:
                    seen = True
                elif seen is None:
                    seen = False
            elif p[0] == 'append' or p[0] == 'store':
                seen = True
            elif p[0] == 'order':
                pass
            else:
                return True if seen is True and p[0] in ('loop', 'extend', 'copy') and p[0] != 'loop' else None
        return seen

    def know_in(self, st, k, d):
        if d.op == 'new' and d in st.cont:
            parts = st.cont[d]
            res = None
            known = True
            for p in parts:
                if p[0] == 'store':
                    if p[1] is k:
                        res = True
                    elif res is not True:
                        res = None if not (p[1].op == 'const' and k.op == 'const') else res
                        if not (p[1].op == 'const' and k.op == 'const'):
                            known = False
                elif p[0] == 'append':
                    if p[1] is k:
                        res = True
                    elif not (p[1].op == 'const' and k.op == 'const'):
                        known = False
                elif p[0] == 'lit':
                    ks = [x[0] if isinstance(x, tuple) else x for x in p[1]]
                    if any(x is k for x in ks):
                        res = True
                    elif any(x.op != 'const' for x in ks) or (k.op != 'const' and ks):
                        known = False
                elif p[0] == 'order':
                    pass
                else:
                    known = False
                    if p[0] in ('mut', 'delitem', 'havoc'):
                        res = None
            if res:
                return True
            return False if known else None
        h = st.heap.get((d, ('item', k)))
        if h is not None:
            return True
        if d.op in ('tuple', 'list') and k.op == 'const' and all(isinstance(x, T) and x.op == 'const' for x in d.a):
            return any(x is k for x in d.a)
        if d.op == 'elem' and False:
            return None
        return None

    PYT = {'int': (int,), 'float': (float,), 'str': (str,), 'bool': (bool,), 'bytes': (bytes,)}

    def know_inst(self, st, x, cs):
        """isinstance(x, any of cs); cs frozenset of class terms."""
        if x.op == 'new':
            c = self.p.classes.get(x.a[0])
            if c is not None:
                names = {b.qualname for b in c.mro()}
                if any(k.op == 'cls' and k.a[0] in names for k in cs):
                    return True
                if all(k.op == 'cls' for k in cs):
                    return False
                if all(k.op == 'cls' or (k.op == 'ext' and k.a[0].startswith('builtins.')) for k in cs) and not c.ext_bases():
                    return False
                return None
            if x in st.cont:
                kind = 'builtins.' + x.a[0]
                alias = {'builtins.list': ('builtins.list', 'typing.List'), 'builtins.dict': ('builtins.dict', 'typing.Dict'),
                         'builtins.set': ('builtins.set', 'typing.Set')}.get(kind, (kind,))
                if any(k.op == 'ext' and k.a[0] in alias for k in cs):
                    return True
                if all(k.op == 'cls' or k.a[0] in ('builtins.int', 'builtins.str', 'builtins.float', 'builtins.bool',
                                                   'builtins.tuple', 'builtins.list', 'builtins.dict', 'builtins.set')
                       for k in cs):
                    return False
        if x.op == 'const':
            if x.a[0] is None:
                return False
            for k in cs:
                if k.op == 'ext' and k.a[0].startswith('builtins.'):
                    py = self.PYT.get(k.a[0][9:])
                    if py and isinstance(x.a[0], py):
                        return True
            if all(k.op in ('ext', 'cls') for k in cs):
                return False
        if x.op == 'tuple' and all(k.op == 'cls' for k in cs):
            return False
        if st.guards.get(mk('isnone', x)) is True:
            return False
        if x.op in ('elem', 'item', 'attr') and x in self.types:
            pass
        for b, p in st.guards.items():
            if b.op == 'isinst' and b.a[0] is x:
                if p and b.a[1] <= cs:
                    return True
                if not p and cs <= b.a[1]:
                    return False
                if p and len(b.a[1]) == 1 and len(cs) == 1:
                    (k1,), (k2,) = b.a[1], cs
                    if self.disjoint(k1, k2):
                        return False
        return None

    BASIC = {'builtins.int', 'builtins.float', 'builtins.str', 'builtins.bytes', 'builtins.list', 'builtins.dict',
             'builtins.tuple', 'builtins.set', 'builtins.slice', 'typing.List'}

    def disjoint(self, k1, k2):
        if k1 is k2:
            return False
        if k1.op == 'ext' and k2.op == 'ext':
            if {k1.a[0], k2.a[0]} == {'builtins.list', 'typing.List'}:
                return False
            return k1.a[0] in self.BASIC and k2.a[0] in self.BASIC
        if k1.op == 'cls' and k2.op == 'cls':
            c1, c2 = self.p.classes.get(k1.a[0]), self.p.classes.get(k2.a[0])
            return c1 is not None and c2 is not None and c1 not in c2.mro() and c2 not in c1.mro()
        c, e = (k1, k2) if k1.op == 'cls' else (k2, k1)
        if c.op == 'cls' and e.op == 'ext':
            ci = self.p.classes.get(c.a[0])
            return ci is not None and not ci.ext_bases() and e.a[0] in self.BASIC
        return False

    def assume(self, st, lit):
        """-> state or None; st is not modified"""
        v = self.decide(st, lit)
        if v is True:
            return st
        if v is False:
            return None
        a, pol = lit
        if a.op == 'not':
            return self.assume(st, (a.a[0], not pol))
        if a.op == 'lt' and pol and a.a[0].op == 'ext' and a.a[0].a[0] in ('math.inf', 'numpy.inf'):
            return None                 # nothing is above infinity
        s = st.fork()
        s.guards[a] = pol
        if a.op == 'isinst' and pol and len(a.a[1]) == 1 and a.a[0] not in self.types:
            (k,) = a.a[1]
            if k.op == 'cls' and k.a[0] in self.p.classes:
                self.types[a.a[0]] = ('cls', self.p.classes[k.a[0]])
        # prune disjunctions
        for b in [b for b in s.guards if b.op == 'or']:
            alts = [alt for alt in b.a[0] if alt_ok(alt, a, pol)]
            if not alts:
                return None
            if len(alts) < len(b.a[0]):
                del s.guards[b]
                if len(alts) == 1:
                    for (x, p) in alts[0]:
                        if x in s.guards and s.guards[x] != p:
                            return None
                        s.guards[x] = p
                else:
                    s.guards[mk('or', frozenset(alts))] = True
        return s

    def split(self, st, lit):
        out = []
        t = self.assume(st, lit)
        if t is not None:
            out.append((t, True))
        f = self.assume(st, lit_not(lit))
        if f is not None:
            out.append((f, False))
        return out

    # ------------------------------------------------------------------ events and containers
    def emit(self, st, fr, node, kind, *args):
        loc = self.loc(fr, node)
        d = None
        if kind in ('setattr', 'store', 'mut', 'yield', 'call', 'fcall') and st.cont:
            d = (args[0],) + tuple(self._deref(st, a, 0, {}) for a in args[1:]) if kind not in ('yield', 'fcall') \
                else tuple(self._deref(st, a, 0, {}) for a in args)
            if all(x is y for x, y in zip(d, args)):
                d = None
        ev = mk('ev', kind, args, st.glits(), loc, d)
        st.log = mk('log', st.log, ev)
        return ev

    def loc(self, fr, node):
        return '%s:%d %s' % (fr.module.relpath, getattr(node, 'lineno', 0), fr.fn.qualname.split('.', 1)[-1] if fr.fn else '<module>')

    def newobj(self, st, kind, node, parts=None):
        site = '%s:%s' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        k = (kind, site)
        n = st.cnt.get(k, 0)
        st.cnt[k] = n + 1
        t = mk('new', kind, site, n)
        if parts is not None:
            st.cont[t] = tuple(parts)
        return t

    def ver(self, st, t):
        return st.ver.get(t, 0)

    def bump(self, st, t, lid=None):
        st.ver[t] = st.ver.get(t, 0) + 1

    def cparts(self, st, obj):
        """The parts of a local container, for a copy of it: what a loop put in is named by its value, not by the object."""
        parts = st.cont[obj]
        if not any(p[0] == 'loop' for p in parts):
            return parts
        out = []
        for p in parts:
            if p[0] == 'lit' and not p[1]:
                continue
            if p[0] == 'loop':
                m = self.as_map(st, obj, p[1]) if obj.a[0] in ('list', 'gen', 'set', 'deque') else None
                if m is None:
                    return (('copy', obj, ()),)
                p = ('extend', m) if out else ('copy', m, ())
            out.append(p)
        return tuple(out)

    def snapshot(self, st, obj, depth=0):
        parts = st.cont.get(obj)
        if parts is None or depth > 6:
            return obj
        kind = obj.a[0]
        d = lambda x: self.deref(st, x, depth + 1)
        if kind in ('list', 'gen', 'set', 'deque'):
            inner = None
            body = [p for p in parts if not (p[0] == 'lit' and not p[1])]
            while body and body[0][0] == 'order':
                body = body[1:]
            if all(p[0] in ('lit', 'append') for p in body):
                el = []
                for p in body:
                    el += [d(x) for x in p[1]] if p[0] == 'lit' else [d(p[1])]
                inner = mk('list', *el)
            elif len(body) == 1 and body[0][0] == 'copy':
                base, order = body[0][1], body[0][2]
                inner = d(base)
                for o in order:
                    inner = mk('sorted', inner, *o[1:]) if o[0] == 'sorted' else mk('reversed', inner) if o[0] == 'reversed' else mk('call', 'set', (inner,), ())
            elif body and body[0][0] in ('loop', 'copy') and all(p[0] == 'order' for p in body[1:]):
                m = self.as_map(st, obj, body[0][1], depth) if body[0][0] == 'loop' else d(body[0][1])
                if m is not None:
                    inner = m
                    for o in body[1:]:
                        o = o[1]
                        inner = mk('sorted', inner, *o[1:]) if o[0] == 'sorted' else mk('reversed', inner) if o[0] == 'reversed' else mk('call', 'set', (inner,), ())
            if inner is None:
                inner = mk('content', mk('objid', *obj.a), tuple(self.dparts(st, body, d)))
            if kind == 'set':
                return mk('call', 'set', (inner,), ())
            return inner
        if kind in ('dict', 'defaultdict'):
            body = [p for p in parts if not (p[0] == 'lit' and not p[1])]
            if all(p[0] in ('lit', 'store') for p in body):
                m = {}
                for p in body:
                    for k, v in (p[1] if p[0] == 'lit' else [(p[1], p[2])]):
                        m[k] = d(v)
                return mk('dictlit', tuple((k, v) for k, v in m.items()))
            if len(body) == 1 and body[0][0] == 'copy':
                return d(body[0][1])
            return mk('content', mk('objid', *obj.a), tuple(self.dparts(st, body, d)))
        return obj

    def dparts(self, st, body, d):
        for p in body:
            yield tuple(d(x) if isinstance(x, T) and p[0] in ('append', 'store', 'extend') else x for x in p)

    def as_map(self, st, obj, loop, depth=0):
        """Content of a list filled by one loop: map(base, order, {(guards, value)}) or None."""
        alts = []
        for lp in loop.a[3]:
            vals, bad = [], False
            for e in lp.a[1]:
                if e.a[0] == 'mut' and e.a[1][0] is obj:
                    if e.a[1][1] in ('append', 'add') and len(e.a[1][2]) == 1:
                        vals.append(e.a[1][2][0])
                    else:
                        bad = True
                elif e.a[0] == 'loop' and mentions(e, lambda s: s is obj):
                    bad = True
            if bad or len(vals) > 1 or lp.a[2].a[0] not in ('fall', 'continue'):
                return None
            if vals:
                # an object of a library class made here stands for its constructor call
                made = {e.a[1][0]: e.a[1][1] for e in lp.a[1] if e.a[0] == 'extnew'}
                alts.append((lp.a[0], self.deref(st, made.get(vals[0], vals[0]), depth + 1)))
        return mk('map', self.deref(st, loop.a[0], depth + 1), loop.a[1], frozenset(alts), loop.a[2])

    def deref(self, st, t, depth=0):
        """Replace local containers by what they hold."""
        if depth > 6 or not st.cont:
            return t
        if t.op == 'new':
            return self.snapshot(st, t, depth) if t in st.cont else t
        if t.op in ('const', 'param', 'ext', 'fn', 'cls', 'mod'):
            return t
        return self._deref(st, t, depth, {})

    NODEREF = {'elem', 'idx', 'lv', 'lh', 'lo', 'loop', 'any', 'objid', 'content', 'const', 'param', 'ext', 'cls', 'fn'}

    def _deref(self, st, t, depth, memo):
        if isinstance(t, T):
            if t.op == 'new':
                return self.snapshot(st, t, depth + 1) if t in st.cont else t
            if t.op in self.NODEREF:
                return t
            r = memo.get(t.id)
            if r is None:
                na = tuple(self._deref(st, x, depth, memo) for x in t.a)
                r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
                memo[t.id] = r
            return r
        if isinstance(t, tuple):
            na = tuple(self._deref(st, x, depth, memo) for x in t)
            return t if all(x is y for x, y in zip(na, t)) else na
        if isinstance(t, frozenset):
            return frozenset(self._deref(st, x, depth, memo) for x in t)
        return t

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur = [(st, ('fall',))]
        done = []
        dying = self.dying(stmts, fr) if len(stmts) > 1 else {}
        for k, s in enumerate(stmts):
            nxt = []
            for x, o in cur:
                if o[0] != 'fall':
                    done.append((x, o))
                else:
                    nxt.extend(self.stmt(s, x, fr))
            if len(nxt) > 1 and k in dying:
                nxt = [(self.forget(x, dying[k]) if o[0] == 'fall' else x, o) for x, o in nxt]
            cur = self.merge(nxt)
            if len(cur) + len(done) > MAXSTATES:
                done = self.merge(done)
                if len(cur) + len(done) > MAXSTATES:
                    raise AnalysisBroken('too many paths in %s' % (fr.fn.qualname if fr.fn else '?'))
            if not any(o[0] == 'fall' for _, o in cur):
                break
        return self.merge(done + cur)

    def forget(self, st, names):
        if any(x in st.env for x in names):
            st = st.fork()
            for x in names:
                st.env.pop(x, None)
        return st

    DYING = {}

    def dying(self, stmts, fr):
        """{statement index: local names no later statement can read}, for names which
        live in this block only and are assigned there before anything reads them."""
        f = getattr(fr.fn, 'node', None)
        if f is None or not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return {}
        key = (id(f), id(stmts[0]))
        r = self.DYING.get(key)
        if r is not None and r[0] is f and r[1] is stmts[0]:
            return r[2]
        total = name_counts(f)
        here, last, first = {}, {}, {}
        for k, s in enumerate(stmts):
            for x, c in name_counts(s).items():
                here[x] = here.get(x, 0) + c
                last[x] = k
                first.setdefault(x, s)
        params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        out = {}
        for x, c in here.items():
            s = first[x]
            if c == total.get(x) and x not in params and c < LATER and isinstance(s, ast.Assign) and \
                    all(isinstance(t, ast.Name) for t in s.targets) and x in {t.id for t in s.targets} and \
                    x not in name_counts(s.value):
                out.setdefault(last[x], []).append(x)
        self.DYING[key] = (f, stmts[0], out)
        return out

    def merge(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for s, o in outs:
            groups.setdefault((o, s.sig()), []).append(s)
        if len(groups) == len(outs):
            return outs
        res = []
        for (o, _), ss in groups.items():
            if len(ss) == 1:
                res.append((ss[0], o))
            else:
                res.append((join_guards(ss), o))
        return res

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Unproved('the analysis exceeds its budget in %s' % (fr.fn.qualname if fr.fn else '?'))
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [(st, ('fall',))]
        mark = len(fr.raises)
        outs = m(n, st, fr)
        # raises collected while evaluating expressions become outcomes of this statement
        new = fr.raises[mark:]
        del fr.raises[mark:]
        return outs + [(s, ('raise', e)) for s, e in new]

    def s_Pass(self, n, st, fr):
        return [(st, ('fall',))]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, ('fall',))]
        out = []
        for s, v in self.eval(n.value, st, fr):
            if v.op == 'signal':
                out.append((s, (v.a[0],) + v.a[1:]))
            else:
                out.append((s, ('fall',)))
        return out

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.eval(n.value, st, fr):
            cur = [s]
            for t in n.targets:
                cur = [y for x in cur for y in self.assign(t, v, x, fr)]
            out += [(x, ('fall',)) for x in cur]
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, ('fall',))]
        out = []
        for s, v in self.eval(n.value, st, fr):
            if v not in self.types and v.op not in ('const', 'new'):
                ty = self.ann(fr.module, n.annotation)
                if ty and ty[0] != 'ext':
                    self.types[v] = ty
            out += [(x, ('fall',)) for x in self.assign(n.target, v, s, fr)]
        return out

    def s_AugAssign(self, n, st, fr):
        out = []
        op = BINOPS[type(n.op)]
        if isinstance(n.target, ast.Name):
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target)
            for s, vs in self.evals([load, n.value], st, fr):
                a, b = vs
                if op == '+' and a.op == 'new' and a in s.cont:
                    self.mutate(s, fr, n, a, 'extend', (b,), ())
                    out.append((s, ('fall',)))
                else:
                    r = self.bin(s, op, a, b, n)
                    s = s.fork()
                    s.env[n.target.id] = r
                    out.append((s, ('fall',)))
            return out
        if isinstance(n.target, ast.Attribute):
            for s, vs in self.evals([n.target.value, n.value], st, fr):
                for s2, old in self.getattr(s, vs[0], n.target.attr, fr, n.target):
                    if op == '+' and old.op == 'new' and old in s2.cont:
                        self.mutate(s2, fr, n, old, 'extend', (vs[1],), ())
                        c = self.class_of(vs[0])
                        if c is not None and c.find(mangle(fr.cls.name if fr.cls else None, n.target.attr), 'setters') is not None:
                            out += [(s3, ('fall',)) for s3 in self.setattr(s2, vs[0], n.target.attr, old, fr, n)]
                        else:
                            out.append((s2, ('fall',)))
                        continue
                    for s3 in self.setattr(s2, vs[0], n.target.attr, self.bin(s2, op, old, vs[1], n), fr, n):
                        out.append((s3, ('fall',)))
            return out
        if isinstance(n.target, ast.Subscript):
            for s, vs in self.evals([n.target.value, n.target.slice, n.value], st, fr):
                for s2, old in self.getitem(s, vs[0], vs[1], fr, n.target):
                    for s3 in self.setitem(s2, vs[0], vs[1], self.bin(s2, op, old, vs[2], n), fr, n):
                        out.append((s3, ('fall',)))
            return out
        return [(st, ('fall',))]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('return', NONE))]
        return [(s, ('return', v)) for s, v in self.eval(n.value, st, fr)]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            return [(st, ('raise', mk('exc', 're-raise', ())))]
        e = n.exc
        name = None
        if isinstance(e, ast.Call):
            name = dotted_of(e.func)
        else:
            name = dotted_of(e)
        if name and name in st.env:
            v = st.env[name]
            return [(st, ('raise', v if v.op == 'exc' else mk('exc', name, ())))]
        r = self.p.resolve(fr.module, name) if name else None
        if isinstance(r, ClassInfo):
            nm = r.name
        elif isinstance(r, str):
            nm = r.split('.')[-1]
        else:
            nm = name or '?'
        return [(st, ('raise', mk('exc', nm, ())))]

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if b:
                out.append((s, ('fall',)))
            else:
                out.append((s, ('raise', mk('exc', 'AssertionError', ()))))
        return self.merge(out)

    def s_Delete(self, n, st, fr):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.fork()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.evals([t.value, t.slice], s, fr):
                        nxt += self.delitem(s2, vs[0], vs[1], fr, n)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s, fr):
                        s2 = s2.fork()
                        nm = mangle(fr.cls.name if fr.cls else None, t.attr)
                        s2.heap.pop((b, nm), None)
                        self.emit(s2, fr, n, 'delattr', b, nm)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        return [(s, ('fall',)) for s in cur]

    def delitem(self, s, base, k, fr, node):
        c = self.class_of(base)
        f = c.find('__delitem__') if c is not None and c.qualname not in self.plain else None
        if f is not None and f.qualname not in self.opaque:
            return [x for x, _ in self.call_fn(s, f, [base, k], {}, fr, node)]
        s = s.fork()
        if base in s.cont:
            s.cont[base] = s.cont[base] + (('delitem', k),)
        s.heap.pop((base, ('item', k)), None)
        self.emit(s, fr, node, 'delitem', base, k)
        self.bump(s, base)
        return [s]

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            out += self.block(n.body if b else n.orelse, s, fr) if (n.body if b else n.orelse) else [(s, ('fall',))]
        return self.merge(out)

    def s_Break(self, n, st, fr):
        return [(st, ('break',))]

    def s_Continue(self, n, st, fr):
        return [(st, ('continue',))]

    def s_FunctionDef(self, n, st, fr):
        s = st.fork()
        s.env[n.name] = self.closure(n, s, fr)
        return [(s, ('fall',))]

    def s_ClassDef(self, n, st, fr):
        return [(st, ('fall',))]

    def closure(self, n, st, fr):
        t = mk('lambda', '%s:%s:%s' % (fr.module.relpath, n.lineno, n.col_offset), frozenset(
            (k, v) for k, v in st.env.items()))
        self.closures[t] = Closure(n, dict(st.env), fr, len(st.stack))
        return t

    def s_With(self, n, st, fr):
        cur = [st]
        for it in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.eval(it.context_expr, s, fr):
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, s2, fr)
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out += self.block(n.body, s, fr)
        return self.merge(out)

    s_AsyncWith = s_With

    EXC_PARENTS = {'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
                   'FileNotFoundError': ('OSError', 'IOError', 'Exception'), 'StopIteration': ('Exception',),
                   'FileExistsError': ('OSError', 'IOError', 'Exception')}

    def exc_matches(self, exc, names):
        nm = exc.a[0]
        if not names or 'Exception' in names or 'BaseException' in names or nm in names:
            return True
        par = self.EXC_PARENTS.get(nm, ())
        if any(p in names for p in par):
            return True
        for c in self.p.class_by_name.get(nm, []):
            if any(b.name in names for b in c.mro()) or any(b.split('.')[-1] in names for b in c.ext_bases()):
                return True
        return False

    def s_Try(self, n, st, fr):
        outs = self.block(n.body, st, fr)
        res = []
        handlers = []
        for h in n.handlers:
            names = []
            if h.type is not None:
                for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names.append((dotted_of(e) or '?').split('.')[-1])
            handlers.append((h, names))

        def run_handler(h, names, s, exc):
            s = s.fork()
            if h.name:
                s.env[h.name] = exc
            o = self.block(h.body, s, fr)
            return [(x, ('raise', exc) if k[0] == 'raise' and k[1].a[0] == 're-raise' else k) for x, k in o]

        for s, o in outs:
            if o[0] == 'raise':
                for h, names in handlers:
                    if self.exc_matches(o[1], names):
                        res += run_handler(h, names, s, o[1])
                        break
                else:
                    res.append((s, o))
            elif o[0] == 'fall' and n.orelse:
                res += self.block(n.orelse, s, fr)
            else:
                res.append((s, o))
        # implicit exceptions: the handler may also run from the state in which the body started
        for h, names in handlers:
            s = st.fork()
            s.guards[mk('exc', '%s:%s' % (fr.module.relpath, n.lineno), tuple(names))] = True
            res += run_handler(h, names, s, mk('exc', names[0] if names else 'Exception', ('implicit',)))
        if n.finalbody:
            out = []
            for s, o in res:
                for s2, o2 in self.block(n.finalbody, s, fr):
                    out.append((s2, o if o2[0] == 'fall' else o2))
            res = out
        return self.merge(res)

    s_TryStar = s_Try

    def s_Match(self, n, st, fr):
        out = []
        for s, v in self.eval(n.subject, st, fr):
            cur = [s]
            for c in n.cases:
                nxt = []
                for x in cur:
                    lit = None
                    p = c.pattern
                    if isinstance(p, ast.MatchValue):
                        for s2, pv in self.eval(p.value, x, fr):
                            lit = cmp_lit('==', v, pv)
                    elif isinstance(p, ast.MatchSingleton):
                        lit = cmp_lit('is', v, const(p.value))
                    elif isinstance(p, ast.MatchAs) and p.pattern is None:
                        y = x.fork()
                        if p.name:
                            y.env[p.name] = v
                        out += self.block(c.body, y, fr)
                        continue
                    else:
                        lit = (mk('matches', v, ast.dump(p)), True)
                    for s2, b in self.split(x, lit):
                        if b:
                            out += self.block(c.body, s2, fr)
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [(x, ('fall',)) for x in cur]
        return self.merge(out)

    # -- assignment ------------------------------------------------------
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            s = st.fork()
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                nxt = []
                for s in cur:
                    if isinstance(e, ast.Starred):
                        x = mk('item', v, mk('slice', const(i), NONE, NONE))
                        e2 = e.value
                    else:
                        idx = i if star is None or i < star else i - len(t.elts)
                        x = self.component(s, v, idx)
                        e2 = e
                    nxt += self.assign(e2, x, s, fr)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st, fr):
                out += self.setattr(s, b, t.attr, v, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evals([t.value, t.slice], st, fr):
                out += self.setitem(s, vs[0], vs[1], v, fr, t)
            return out
        return [st]

    def component(self, st, v, i):
        if v.op == 'tuple' and -len(v.a) <= i < len(v.a):
            return v.a[i]
        if v.op == 'new' and v in st.cont:
            parts = st.cont[v]
            if all(p[0] in ('lit', 'append') for p in parts):
                el = []
                for p in parts:
                    el += list(p[1]) if p[0] == 'lit' else [p[1]]
                if -len(el) <= i < len(el):
                    return el[i]
        return mk('item', v, const(i))

    def setattr(self, st, base, name, v, fr, node):
        c = self.class_of(base)
        nm = mangle(fr.cls.name if fr.cls else None, name)
        if base.op == 'cls':
            s = st.fork()
            s.heap[(base, nm)] = v
            self.emit(s, fr, node, 'setattr', base, nm, v)
            return [s]
        if c is not None:
            f = c.find(nm, 'setters')
            if f is not None:
                if f.qualname in self.opaque:
                    s = st.fork()
                    self.emit(s, fr, node, 'setattr', base, nm, v)
                    return [s]
                return [x for x, _ in self.call_fn(st, f, [base, v], {}, fr, node)]
        s = st.fork()
        s.heap[(base, nm)] = v
        self.emit(s, fr, node, 'setattr', base, nm, v)
        return [s]

    def setitem(self, st, base, k, v, fr, node):
        if base in self.records and k.op == 'const' and isinstance(k.a[0], str):
            return self.setattr(st, base, k.a[0], v, fr, node)
        c = self.class_of(base)
        if c is not None and c.qualname not in self.plain:
            f = c.find('__setitem__')
            if f is not None and f.qualname not in self.opaque:
                return [x for x, _ in self.call_fn(st, f, [base, k, v], {}, fr, node)]
        s = st.fork()
        if base in s.cont:
            s.cont[base] = s.cont[base] + (('store', k, v),)
        for hk in [x for x in s.heap if x[0] is base and isinstance(x[1], tuple)]:
            if not (hk[1][1].op == 'const' and k.op == 'const'):
                del s.heap[hk]
        s.heap[(base, ('item', k))] = v
        self.emit(s, fr, node, 'store', base, k, v)
        self.bump(s, base)
        return [s]

    def getitem(self, st, base, k, fr, node):
        if base in self.records and k.op == 'const' and (base, k.a[0]) in st.heap:
            return [(st, st.heap[(base, k.a[0])])]
        if k.op == 'slice':
            base = pair_of(base)
            if base.op == 'tuple' and all(x is NONE or num(x) for x in k.a) and not any(x.op == 'star' for x in base.a):
                return [(st, mk('tuple', *base.a[slice(*(None if x is NONE else x.a[0] for x in k.a))]))]
        if k.op == 'slice' and base.op != 'tuple':
            return [(st, self.slice_of(st, base, k))]
        if base.op in ('tuple', 'list') and num(k) and isinstance(k.a[0], int) and -len(base.a) <= k.a[0] < len(base.a):
            return [(st, base.a[k.a[0]])]
        h = st.heap.get((base, ('item', k)))
        if h is not None:
            return [(st, h)]
        if base in st.cont:
            parts = st.cont[base]
            if base.a[0] in ('list', 'gen') and num(k) and isinstance(k.a[0], int):
                c = self.component(st, base, k.a[0])
                if c.op != 'item' or c.a[0] is not base:
                    return [(st, c)]
            if base.a[0] in ('dict', 'defaultdict'):
                for p in reversed(parts):
                    if p[0] == 'store':
                        if p[1] is k:
                            return [(st, p[2])]
                        if not (p[1].op == 'const' and k.op == 'const'):
                            break
                    elif p[0] == 'lit':
                        for kk, vv in p[1]:
                            if kk is k:
                                return [(st, vv)]
                    elif p[0] != 'order':
                        break
                if base.a[0] == 'defaultdict':
                    out = []
                    for s, b in self.split(st, (mk('in', k, base), True)):
                        if b:
                            out.append((s, mk('item', base, k)))
                        else:
                            fac = st.heap.get((base, '__factory__'))
                            for s2, v in self.call_value(s, fac, [], {}, fr, node) if fac is not None else [(s, NONE)]:
                                for s3 in self.setitem(s2, base, k, v, fr, node):
                                    out.append((s3, v))
                    return out
        c = self.class_of(base)
        if c is not None and c.qualname not in self.plain:
            f = c.find('__getitem__')
            if f is not None and f.qualname not in self.opaque:
                return self.call_fn(st, f, [base, k], {}, fr, node)
        # xs[i] inside a loop over the positions of xs is the element itself
        if k.op == 'idx' and (k.a[0] is base) and not self.idxorder.get(k):
            return [(st, mk('elem', base, k.a[1]))]
        if k.op == 'idx':
            nb, no, nbind = self.iter_norm(st, base)
            if nb is k.a[0] and no == self.idxorder.get(k, ()):
                return [(st, nbind(k.a[1]))]
        if base.op == 'dictlit' and k.op == 'const':
            for kk, vv in base.a[0]:
                if kk is k:
                    return [(st, vv)]
        if base.op == 'new' and base in st.cont and base.a[0] in ('list',):
            parts = st.cont[base]
            if len(parts) == 1 and parts[0][0] == 'copy' and not parts[0][2]:
                return self.getitem(st, parts[0][1], k, fr, node)
            return [(st, mk('item', self.vterm(st, base), k))]
        return [(st, mk('item', base, k))]

    def vterm(self, st, t):
        return t

    def slice_of(self, st, base, k):
        if base.op == 'new' and base in st.cont:
            parts = st.cont[base]
            if len(parts) == 1 and parts[0][0] == 'copy' and not parts[0][2]:
                base = parts[0][1]
            else:
                base = self.snapshot(st, base)
        if k.a == (NONE, NONE, NONE):
            pass
        return mk('item', base, k)

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """-> [(state, bool)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s, fr):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            out += [(s, isand) for s in cur]
            return self.merge_cond(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            out, cur = [], []
            for s, l in self.eval(e.left, st, fr):
                cur.append((s, l))
            for op, r in zip(e.ops, e.comparators):
                nxt = []
                for s, l in cur:
                    for s2, rv in self.eval(r, s, fr):
                        for s3, lit in self.compare(s2, op, l, rv, fr, e):
                            for s4, b in self.split(s3, lit):
                                if b:
                                    nxt.append((s4, rv))
                                else:
                                    out.append((s4, False))
                cur = nxt
            return self.merge_cond(out + [(s, True) for s, _ in cur])
        if isinstance(e, ast.Compare):
            out = []
            for s, vs in self.evals([e.left, e.comparators[0]], st, fr):
                for s2, lit in self.compare(s, e.ops[0], vs[0], vs[1], fr, e):
                    out += self.split(s2, lit)
            return self.merge_cond(out)
        if isinstance(e, ast.NamedExpr):
            out = []
            for s, v in self.eval(e, st, fr):
                for s2, l in self.truth(s, v, fr, e):
                    out += self.split(s2, l)
            return self.merge_cond(out)
        out = []
        for s, v in self.eval(e, st, fr):
            for s2, l in self.truth(s, v, fr, e):
                out += self.split(s2, l)
        return self.merge_cond(out)

    def merge_cond(self, out):
        return [(s, o[0]) for s, o in self.merge([(s, (b,)) for s, b in out])]

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
           ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
    DUNDER = {'==': '__eq__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__', '!=': '__ne__'}

    def compare(self, st, op, a, b, fr, node):
        """-> [(state, literal)]"""
        o = self.CMP[type(op)]
        if o in ('in', 'not in'):
            c = self.class_of(b)
            if c is not None and c.qualname not in self.plain:
                f = c.find('__contains__')
                if f is not None and f.qualname not in self.opaque and self.may_follow(f, fr):
                    out = []
                    for s, v in self.call_fn(st, f, [b, a], {}, fr, node):
                        for s2, l in self.truth(s, v, fr, node):
                            out.append((s2, l if o == 'in' else lit_not(l)))
                    return out
            b2 = b
            # k in d.keys() is k in d ; x in list(y) is x in y
            if b2.op == 'mcall' and b2.a[1] == 'keys' and not b2.a[2]:
                b2 = b2.a[0]
            elif b2.op == 'new' and b2 in st.cont:
                p = st.cont[b2]
                if len(p) == 1 and p[0][0] == 'copy' and b2.a[0] in ('list', 'set', 'gen'):
                    b2 = p[0][1]
                elif b2.a[0] in ('list', 'set', 'gen'):
                    sn = self.snapshot(st, b2)
                    if sn.op == 'call' and sn.a[0] == 'set' and len(sn.a[1]) == 1:
                        sn = sn.a[1][0]
                    if sn.op in ('list',) and self.know_in(st, a, b2) is None:
                        return [(st, (mk('in', a, mk('oneof', frozenset(sn.a))), o == 'in'))]
            if b2.op in ('tuple', 'list') and all(isinstance(x, T) for x in b2.a):
                if len(b2.a) == 1:
                    return [(st, cmp_lit('==' if o == 'in' else '!=', a, b2.a[0]))]
                v = self.know_in(st, a, b2)
                if v is None:
                    return [(st, (mk('in', a, mk('oneof', frozenset(b2.a))), o == 'in'))]
            return [(st, (mk('in', a, b2), o == 'in'))]
        # `x == y` of in-repo classes: keep as an atom (comparison methods are analysed on their own)
        a, b = self.cmpval(st, a), self.cmpval(st, b)
        if o in ('==', '!=') and (is_atom(a) or is_atom(b)):
            x, y = (a, b) if is_atom(a) else (b, a)
            if y.op == 'const' and isinstance(y.a[0], bool):
                pol = y.a[0] == (o == '==')
                return [(st, (x, pol))]
        return [(st, cmp_lit(o, a, b))]

    def cmpval(self, st, t):
        return self.deref(st, t) if t.op == 'new' and t in st.cont else t

    def truth(self, st, t, fr, node):
        """truth value of a term as a literal -> [(state, literal)]"""
        if t.op == 'const':
            return [(st, (TRUE, bool(t.a[0])))]
        if t.op == 'not':
            return [(s, lit_not(l)) for s, l in self.truth(st, t.a[0], fr, node)]
        if is_atom(t):
            return [(st, (t, True))]
        if t.op == 'call' and t.a[0] in ('len', 'bool') and len(t.a[1]) == 1:
            return self.truth(st, t.a[1][0], fr, node)
        c = self.class_of(t)
        if c is not None and c.qualname not in self.plain:
            f = c.find('__bool__') or c.find('__len__')
            if f is not None and f.qualname not in self.opaque and self.may_follow(f, fr):
                out = []
                for s, v in self.call_fn(st, f, [t], {}, fr, node):
                    out += self.truth(s, v, fr, node) if v is not t else [(s, (mk('truthy', t), True))]
                return out
        if t.op == 'new' and t in st.cont:
            ne = self.nonempty(st, t)
            if ne is not None:
                return [(st, (TRUE, ne))]
            return [(st, (mk('truthy', self.deref(st, t)), True))]
        return [(st, (mk('truthy', t), True))]

    # ------------------------------------------------------------------ expressions
    def evals(self, es, st, fr):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def eval(self, e, st, fr):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, mk('unk', type(e).__name__, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is Ellipsis:
            return [(st, mk('ellipsis'))]
        if isinstance(v, (bytes, complex)):
            return [(st, mk('konst', repr(v)))]
        return [(st, const(v))]

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.env:
            return [(st, st.env[n])]
        for f in fr.chain():
            if n in f.closure_env:
                return [(st, f.closure_env[n])]
            break
        return [(st, self.global_name(fr.module, n, st, fr))]

    def lift(self, r, st, fr):
        if isinstance(r, ClassInfo):
            return mk('cls', r.qualname)
        if isinstance(r, FuncInfo):
            return mk('fn', r.qualname)
        if isinstance(r, Module):
            return mk('mod', r.name)
        if isinstance(r, str):
            return mk('ext', r)
        if isinstance(r, tuple) and r[0] == 'global':
            v = r[1].globals[r[2]]
            k = simple_const(v)
            if k is not None:
                return k[0]
            d = dotted_of(v)
            if d and d != r[2]:
                rr = self.p.resolve(r[1], d)
                if rr is not None:
                    return self.lift(rr, st, fr)
            return mk('glob', r[1].name, r[2])
        if isinstance(r, tuple) and r[0] == 'cattr':
            return self.cattr(r[1], r[2], st, fr)
        return None

    def cattr(self, c, name, st, fr):
        if c.is_enum:
            return mk('enum', c.qualname, name)
        h = st.heap.get((mk('cls', c.qualname), name))
        if h is not None:
            return h
        v = c.attrs.get(name)
        k = simple_const(v) if v is not None else None
        if k is not None:
            return k[0]
        return mk('cattr', c.qualname, name)

    def global_name(self, module, n, st, fr):
        # names bound by imports inside the function are in module.imports as well
        r = self.p.resolve_name(module, n)
        if r is None:
            return mk('undef', n)
        t = self.lift(r, st, fr)
        return t if t is not None else mk('undef', n)

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.eval(e.value, st, fr):
            out += self.getattr(s, b, e.attr, fr, e)
        return out

    def getattr(self, st, base, name, fr, node):
        nm = mangle(fr.cls.name if fr.cls else None, name)
        if base.op == 'mod':
            r = self.p.member(self.p.modules[base.a[0]], name)
            t = self.lift(r, st, fr) if r is not None else None
            return [(st, t if t is not None else mk('undef', base.a[0] + '.' + name))]
        if base.op == 'ext':
            return [(st, mk('ext', base.a[0] + '.' + name))]
        if base.op == 'cls':
            c = self.p.classes[base.a[0]]
            h = st.heap.get((base, nm))
            if h is not None:
                return [(st, h)]
            f = c.find(nm)
            if f is not None:
                if f.is_classmethod:
                    return [(st, mk('bound', mk('fn', f.qualname), base))]
                return [(st, mk('fn', f.qualname))]
            a = c.find_attr(nm)
            if a is not None:
                return [(st, self.cattr(a[0], nm, st, fr))]
            q = self.p.classes.get(c.qualname + '.' + name)
            if q is not None:
                return [(st, mk('cls', q.qualname))]
            return [(st, mk('attr', base, nm))]
        if base.op == 'super':
            c = self.p.classes[base.a[0]]
            for b in c.mro()[1:]:
                if nm in b.methods:
                    f = b.methods[nm]
                    if f.is_property:
                        return self.call_fn(st, f, [base.a[1]], {}, fr, node)
                    return [(st, mk('bound', mk('fn', f.qualname), base.a[1]))]
            return [(st, mk('extm', base.a[1], 'super.' + name))]
        h = st.heap.get((base, nm))
        if h is not None:
            return [(st, h)]
        if base.op == 'enum' and name in ('value', 'name'):
            return [(st, mk('attr', base, name))]
        c = self.class_of(base)
        if c is not None and c.qualname not in self.plain:
            f = c.find(nm)
            if f is not None:
                if f.is_property:
                    if f.qualname in self.opaque or not self.may_follow(f, fr):
                        t = mk('attr', base, nm)
                        self.note_type(t, f)
                        return [(st, t)]
                    res = self.call_fn(st, f, [base], {}, fr, node)
                    for _, v in res:
                        if v.op not in ('const', 'new') and v not in self.types and self.type_of(v) is None:
                            self.note_type(v, f)
                    return res
                if f.is_static:
                    return [(st, mk('fn', f.qualname))]
                if f.is_classmethod:
                    return [(st, mk('bound', mk('fn', f.qualname), mk('cls', c.qualname)))]
                return [(st, mk('bound', mk('fn', f.qualname), base))]
            a = c.find_attr(nm)
            if a is not None and self.field_never_set(c, nm):
                return [(st, self.cattr(a[0], nm, st, fr))]
        if name == '__class__':
            return [(st, mk('cls', c.qualname) if c is not None else mk('attr', base, name))]
        return [(st, mk('attr', base, nm))]

    def field_never_set(self, c, name):
        for b in c.mro():
            for f in b.methods.values():
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and mangle(b.name, n.attr) == name:
                        return False
        return True

    def note_type(self, t, f):
        if f.node.returns is not None:
            ty = self.ann(f.module, f.node.returns)
            if ty and ty[0] != 'ext':
                self.types[t] = ty

    def e_Subscript(self, e, st, fr):
        out = []
        for s, vs in self.evals([e.value, e.slice], st, fr):
            out += self.getitem(s, vs[0], vs[1], fr, e)
        return out

    def e_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        out = []
        for s, vs in self.evals(parts, st, fr):
            if is_const(vs[0], 0):
                vs[0] = NONE
            if is_const(vs[2], 1):
                vs[2] = NONE
            out.append((s, mk('slice', *vs)))
        return out

    def e_Starred(self, e, st, fr):
        return [(s, mk('star', v)) for s, v in self.eval(e.value, st, fr)]

    def e_Tuple(self, e, st, fr):
        out = []
        for s, vs in self.evals(e.elts, st, fr):
            out.append((s, mk('tuple', *vs)))
        return out

    def e_List(self, e, st, fr):
        out = []
        for s, vs in self.evals(e.elts, st, fr):
            s = s.fork()
            if any(v.op == 'star' for v in vs):
                parts = []
                for v in vs:
                    parts.append(('extend', v.a[0]) if v.op == 'star' else ('append', v))
                if len(parts) == 1 and parts[0][0] == 'extend':
                    parts = [('copy',) + self.copy_of(s, parts[0][1])]
            else:
                parts = [('lit', tuple(vs))]
            out.append((s, self.newobj(s, 'list', e, parts)))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for s, vs in self.evals(e.elts, st, fr):
            s = s.fork()
            if len(vs) == 1 and vs[0].op == 'star':
                parts = [('copy',) + self.copy_of(s, vs[0].a[0])]
            else:
                parts = [('lit', tuple(vs))]
            out.append((s, self.newobj(s, 'set', e, parts)))
        return out

    def e_Dict(self, e, st, fr):
        out = []
        ks = [k if k is not None else ast.Constant('**') for k in e.keys]
        for s, vs in self.evals(list(ks) + list(e.values), st, fr):
            s = s.fork()
            n = len(ks)
            if all(k is not None for k in e.keys):
                parts = [('lit', tuple(zip(vs[:n], vs[n:])))]
            elif n == 1:
                parts = [('copy',) + self.copy_of(s, vs[1])]
            else:
                parts = []
                for i, k in enumerate(e.keys):
                    parts.append(('store', vs[i], vs[n + i]) if k is not None else ('extend', vs[n + i]))
            out.append((s, self.newobj(s, 'dict', e, parts)))
        return out

    def copy_of(self, st, v):
        """content of list(v): (base, order)"""
        b, order, binder = self.iter_norm(st, v)
        if binder(0) is not mk('elem', b, 0):
            return (v, ())
        return (b, order)

    def e_JoinedStr(self, e, st, fr):
        vals = []
        fmts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                vals.append(v)
                fmts.append(None)
            else:
                vals.append(v.value)
                f = ''
                if v.format_spec is not None:
                    f = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                fmts.append((v.conversion, f))
        out = []
        for s, vs in self.evals(vals, st, fr):
            parts = []
            for v, f in zip(vs, fmts):
                if f is not None and v.op != 'const':
                    if v.op == 'call' and v.a[0] == 'str' and len(v.a[1]) == 1 and f == (-1, ''):
                        v = v.a[1][0]
                    v = mk('fmt', v, f[1]) if f[1] or f[0] != -1 else v
                elif f is not None:
                    v = const(str(v.a[0])) if not f[1] else mk('fmt', v, f[1])
                parts.append(v)
            out.append((s, fstr(parts)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        return [(st, self.closure(e, st, fr))]

    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            out += self.eval(e.body if b else e.orelse, s, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                if isinstance(v, (ast.BoolOp, ast.Compare)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                    for s2, b in self.cond(v, s, fr):
                        if last or b != isand:
                            out.append((s2, const(b)))
                        else:
                            nxt.append(s2)
                    continue
                for s2, t in self.eval(v, s, fr):
                    if last:
                        out.append((s2, t))
                        continue
                    for s3, l in self.truth(s2, t, fr, e):
                        for s4, b in self.split(s3, l):
                            if b == isand:
                                nxt.append(s4)
                            else:
                                out.append((s4, const(b) if is_atom(t) or t.op in ('not',) else t))
            cur = nxt
        return self.merge_vals(out)

    def merge_vals(self, out):
        return [(s, o[0]) for s, o in self.merge([(s, (v,)) for s, v in out])]

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            out = []
            if isinstance(e.operand, (ast.BoolOp,)):
                return [(s, const(not b)) for s, b in self.cond(e.operand, st, fr)]
            for s, v in self.eval(e.operand, st, fr):
                for s2, l in self.truth(s, v, fr, e):
                    d = self.decide(s2, l)
                    out.append((s2, atom_term(lit_not(l)) if d is None else const(not d)))
            return out
        out = []
        for s, v in self.eval(e.operand, st, fr):
            if isinstance(e.op, ast.USub):
                v = neg(v)
            elif isinstance(e.op, ast.Invert):
                v = v.a[0] if v.op == 'inv' else mk('inv', v)
            out.append((s, v))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        op = BINOPS[type(e.op)]
        for s, vs in self.evals([e.left, e.right], st, fr):
            s2 = s
            if any(v.op == 'new' and v in s.cont for v in vs):
                s2 = s.fork()
            out.append((s2, self.bin(s2, op, vs[0], vs[1], e)))
        return out

    def bin(self, st, op, a, b, node):
        if op == '+' and any(v.op == 'new' and v in st.cont and v.a[0] == 'list' for v in (a, b)):
            parts = []
            for v in (a, b):
                if v.op == 'new' and v in st.cont and v.a[0] == 'list':
                    parts += list(self.cparts(st, v))
                else:
                    parts.append(('extend', v))
            parts = [p for p in parts if not (p[0] == 'lit' and not p[1])] or [('lit', ())]
            if parts and parts[0][0] == 'extend' and len(parts) == 1:
                parts = [('copy', parts[0][1], ())]
            return self.newobj(st, 'list', node, parts)
        if op == '+' and (a.op == 'fstr' or b.op == 'fstr' or (a.op == 'const' and isinstance(a.a[0], str))
                          or (b.op == 'const' and isinstance(b.a[0], str))):
            return fstr([a, b])
        a, b = self.deref(st, a), self.deref(st, b)
        return binop(op, a, b)

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            return [(s, const(b)) for s, b in self.cond(e, st, fr)]
        out = []
        for s, vs in self.evals([e.left, e.comparators[0]], st, fr):
            for s2, lit in self.compare(s, e.ops[0], vs[0], vs[1], fr, e):
                d = self.decide(s2, lit)
                out.append((s2, const(d) if d is not None else atom_term(lit)))
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.eval(e.value, st, fr):
            s = s.fork()
            s.env[e.target.id] = v
            out.append((s, v))
        return out

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        out = []
        vals = self.eval(e.value, st, fr) if e.value is not None else [(st, NONE)]
        for s, v in vals:
            out += self.do_yield(s, v, fr, e)
        return out

    def do_yield(self, s, v, fr, node):
        if fr.on_yield is None:
            s = s.fork()
            self.emit(s, fr, node, 'yield', v)
            return [(s, NONE)]
        out = []
        for s2, o in fr.on_yield(s, v):
            if o[0] in ('fall', 'continue'):
                out.append((s2, NONE))
            else:
                out.append((s2, mk('signal', 'gen' + o[0], *o[1:])))
        return out

    def e_YieldFrom(self, e, st, fr):
        # for x in e: yield x
        tmp = '$yf%d' % e.lineno
        y = ast.Expr(ast.Yield(ast.Name(tmp, ast.Load())))
        loop = ast.For(ast.Name(tmp, ast.Store()), e.value, [y], [])
        for n in ast.walk(loop):
            if not hasattr(n, 'lineno'):
                ast.copy_location(n, e)
        ast.fix_missing_locations(loop)
        out = []
        for s, o in self.stmt(loop, st, fr):
            if o[0] == 'fall':
                out.append((s, NONE))
            elif o[0] == 'raise':
                fr.raises.append((s, o[1]))
            else:
                out.append((s, mk('signal', *o)))
        return out

    # -- comprehensions --------------------------------------------------
    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, 'set')

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, 'gen')

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, 'dict')

    def comp(self, e, st, fr, kind):
        s = st.fork()
        obj = self.newobj(s, kind, e, [('lit', ())])
        tmp = '$c%s_%s' % (e.lineno, e.col_offset)
        name = ast.Name(tmp, ast.Load())
        if kind == 'dict':
            body = ast.Assign([ast.Subscript(name, e.key, ast.Store())], e.value)
        else:
            body = ast.Expr(ast.Call(ast.Attribute(name, 'append' if kind != 'set' else 'add', ast.Load()), [e.elt], []))
        node = body
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                node = ast.If(c, [node], [])
            node = ast.For(g.target, g.iter, [node], [])
        for n in ast.walk(node):
            if not hasattr(n, 'lineno'):
                n.lineno, n.col_offset = e.lineno, e.col_offset
            if not hasattr(n, 'end_lineno'):
                n.end_lineno, n.end_col_offset = e.lineno, e.col_offset
        shadow = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    shadow.add(n.id)
        saved = {k: s.env.get(k) for k in shadow}
        s.env[tmp] = obj
        log0 = s.log
        out = []
        for x, o in self.stmt(node, s, fr):
            if o[0] == 'raise':
                fr.raises.append((x, o[1]))
                continue
            if o[0] != 'fall':
                continue
            x = x.fork()
            x.env.pop(tmp, None)
            for k, v in saved.items():
                if v is None:
                    x.env.pop(k, None)
                else:
                    x.env[k] = v
            # forget pure loops in the log
            evs = x.events(upto=log0)
            if all(pure_for(ev, obj) for ev in evs):
                x.log = log0
            out.append((x, obj))
        return out

    # ------------------------------------------------------------------ loops
    def iter_norm(self, st, v):
        """iterable -> (base, order, binder) where binder(lid) gives the loop element term."""
        order = ()
        seen = 0
        while seen < 20:
            seen += 1
            if v.op == 'new' and v in st.cont:
                parts = st.cont[v]
                body = [p for p in parts if not (p[0] == 'lit' and not p[1])]
                if v.a[0] in ('list', 'set', 'gen', 'deque') and body and body[0][0] == 'copy' \
                        and all(p[0] == 'order' for p in body[1:]):
                    # going through a set drops duplicates and the order
                    order = tuple(body[0][2]) + ((('set',),) if v.a[0] == 'set' and body[0][1].op not in ('objid', 'new') else ()) + \
                        tuple(p[1] for p in body[1:]) + order
                    v = body[0][1]
                    continue
                if v.a[0] == 'dict' and len(body) == 1 and body[0][0] == 'copy':
                    v = body[0][1]
                    continue
                break
            if v.op == 'sorted':
                order = (('sorted',) + v.a[1:],) + order
                v = v.a[0]
                continue
            if v.op == 'reversed':
                order = (('reversed',),) + order
                v = v.a[0]
                continue
            if v.op == 'call' and v.a[0] in ('iter', 'list', 'tuple') and len(v.a[1]) == 1:
                v = v.a[1][0]
                continue
            if v.op == 'call' and v.a[0] == 'set' and len(v.a[1]) == 1 and v.a[1][0].op not in ('objid', 'new', 'content'):
                order = (('set',),) + order
                v = v.a[1][0]
                continue
            if v.op == 'mcall' and v.a[1] in ('keys', 'copy') and not v.a[2]:
                v = v.a[0]
                continue
            if v.op == 'item' and v.a[1].op == 'slice' and v.a[1].a == (NONE, NONE, NONE):
                v = v.a[0]
                continue
            break
        b = v
        if v.op == 'enumerate':
            ib, io, ibind = self.iter_norm(st, v.a[0])
            off = v.a[1]
            return ib, io + order, lambda lid: mk('tuple', binop('+', self.position(ib, lid, io), off), ibind(lid))
        if v.op == 'zip':
            subs = [self.iter_norm(st, x) for x in v.a]
            # zip(range(len(xs)), xs) and zip(xs, xs)-like pairs collapse to the common base
            bases = {x[0] for x in subs}
            if len({tuple(x[1]) for x in subs}) > 1:
                # gone through in different orders: an ordered view is not the thing it is a view of
                subs = [x if not x[1] else (y, (), (lambda y: lambda lid: mk('elem', y, lid))(y)) for x, y in zip(subs, v.a)]
                bases = {x[0] for x in subs}
            elif len(bases) > 1 and subs[0][1]:
                subs = [(y, (), (lambda y: lambda lid: mk('elem', y, lid))(y)) for y in v.a]
            if len(bases) == 1:
                return subs[0][0], subs[0][1] + order, lambda lid: mk('tuple', *[x[2](lid) for x in subs])
            zb = mk('zip', *[x[0] for x in subs])
            return zb, order, lambda lid: mk('tuple', *[x[2](lid) for x in subs])
        if v.op == 'range':
            lo, hi, step = v.a
            n = lenarg(hi)
            if n is not None and is_const(lo, 0) and is_const(step, 1):
                nb, no, nbind = self.iter_norm(st, n)
                return nb, no + order, lambda lid: self.position(nb, lid, no)
            return v, order, lambda lid: mk('elem', v, lid)
        if v.op == 'mcall' and v.a[1] == 'items' and not v.a[2]:
            d = v.a[0]
            return d, order, lambda lid: mk('tuple', mk('elem', d, lid), mk('item', d, mk('elem', d, lid)))
        if v.op == 'mcall' and v.a[1] == 'values' and not v.a[2]:
            d = v.a[0]
            return d, order, lambda lid: mk('item', d, mk('elem', d, lid))
        return b, order, lambda lid: mk('elem', b, lid)

    def position(self, base, lid, order):
        """The position of the element of a loop, in the base gone through in that order."""
        t = mk('idx', base, lid)
        self.idxorder[t] = order
        return t

    def s_For(self, n, st, fr):
        out = []
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 and not it.keywords and isinstance(it.args[0], ast.Call) \
                and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'len' and len(it.args[0].args) == 1 and isinstance(it.args[0].args[0], ast.Name) \
                and it.args[0].args[0].id in st.env:
            # for i in range(len(xs)): the positions of xs, where xs[i] is the element
            v = st.env[it.args[0].args[0].id]
            inner = self.plain_iter(st, v)
            if inner.op in ('map', 'sorted', 'reversed') or inner.op == 'new' and inner in st.cont and inner.a[0] in ('list', 'gen'):
                wrap = Positions((v, inner))
                return self.merge(self.loop_over(n, inner, st, fr, wrap=wrap))
        it = n.iter
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('list', 'tuple', 'iter') and len(it.args) == 1 and not it.keywords:
            it = it.args[0]
        if it is not n.iter and isinstance(it, ast.Call) and not isinstance(it.func, ast.Name):
            # a generator run to its end first gives the same items
            got = self.eval(it, st, fr)
            if all(v.op == 'gencall' for _, v in got):
                for s, v in got:
                    out += self.loop_over(n, v, s, fr)
                return self.merge(out)
        for s, v in self.eval(n.iter, st, fr):
            out += self.loop_over(n, v, s, fr)
        return self.merge(out)

    s_AsyncFor = s_For

    def loop_over(self, n, v, st, fr, wrap=None):
        """wrap: element term, position term -> the value bound to the target (None: the element itself)."""
        # enumerate(xs): the positions go along with whatever way xs is gone through
        if v.op == 'enumerate' and wrap is None:
            off = v.a[1]
            inner = self.plain_iter(st, v.a[0])
            if self.own_way(inner, st, fr):
                return self.loop_over(n, inner, st, fr, wrap=lambda el, pos: mk('tuple', binop('+', pos, off), el))
            return self.loop_general(n, v, st, fr)
        if wrap is None:
            v = self.plain_iter(st, v)
            if v.op == 'enumerate':
                return self.loop_over(n, v, st, fr)
        # in-repository iterables
        if v.op == 'gencall':
            return self.loop_generator(n, v, st, fr, wrap)
        c = self.class_of(v)
        if c is not None and c.qualname not in self.plain and v not in st.cont:
            f = c.find('__iter__')
            if f is not None and f.qualname not in self.opaque and self.may_follow(f, fr):
                out = []
                for s, it in self.call_fn(st, f, [v], {}, fr, n):
                    if it is v:
                        out += self.loop_general(n, it, s, fr)
                    elif wrap is None or self.own_way(it, s, fr):
                        out += self.loop_over(n, it, s, fr, wrap)
                    else:
                        out += self.loop_general(n, it, s, fr, wrap=wrap)
                return out
        if v.op == 'tuple' and len(v.a) <= 12:
            return self.loop_unroll(n, list(v.a), st, fr, wrap)
        if v.op == 'new' and v in st.cont:
            parts = st.cont[v]
            if v.a[0] in ('list', 'gen', 'set') and all(p[0] in ('lit', 'append') for p in parts):
                el = []
                for p in parts:
                    el += list(p[1]) if p[0] == 'lit' else [p[1]]
                if len(el) <= 12:
                    return self.loop_unroll(n, el, st, fr, wrap)
            body = [p for p in parts if not (p[0] == 'lit' and not p[1])]
            if v.a[0] in ('list', 'gen', 'set') and body and body[0][0] == 'loop' and all(p[0] == 'order' for p in body[1:]):
                m = self.as_map(st, v, body[0][1])
                if m is not None:
                    order = tuple(p[1] for p in body[1:])
                    return self.loop_general(n, v, st, fr, fused=m, xorder=order, wrap=wrap)
        if v.op == 'map':
            return self.loop_general(n, v, st, fr, fused=v, wrap=wrap)
        if v.op == 'range' and all(num(x) for x in v.a):
            vals = range(*[x.a[0] for x in v.a])
            if len(vals) <= 12:
                return self.loop_unroll(n, [const(i) for i in vals], st, fr, wrap)
        return self.loop_general(n, v, st, fr, wrap=wrap)

    def plain_iter(self, st, v):
        """xs for list(xs), tuple(xs), iter(xs), xs[:] -- gone through the same way."""
        for _ in range(20):
            if v.op == 'new' and v in st.cont and v.a[0] == 'list':
                body = [p for p in st.cont[v] if not (p[0] == 'lit' and not p[1])]
                if len(body) == 1 and body[0][0] == 'copy' and not body[0][2] and \
                        (body[0][1].op in ('tuple', 'map', 'gencall', 'enumerate', 'new') or self.walked(body[0][1]) is not None):
                    v = body[0][1]
                    continue
            if v.op == 'call' and v.a[0] in ('iter', 'list', 'tuple') and len(v.a[1]) == 1:
                v = v.a[1][0]
                continue
            break
        return v

    def own_way(self, v, st, fr):
        """the loop over v is not just a loop over the elements of an unknown container."""
        if v.op in ('gencall', 'tuple', 'map'):
            return True
        if v.op == 'range':
            return all(num(x) for x in v.a) and len(range(*[x.a[0] for x in v.a])) <= 12
        if v.op == 'new' and v in st.cont:
            body = [p for p in st.cont[v] if not (p[0] == 'lit' and not p[1])]
            return all(p[0] in ('lit', 'append') for p in body) or body[0][0] == 'loop'
        f = self.walked(v)
        return f is not None and v not in st.cont and f.qualname not in self.opaque and self.may_follow(f, fr)

    def walked(self, v):
        """the function that goes through an object of the repository."""
        c = self.class_of(v)
        return c.find('__iter__') if c is not None and c.qualname not in self.plain else None

    def loop_unroll(self, n, elems, st, fr, wrap=None):
        if wrap is not None:
            elems = [wrap(x, const(i)) for i, x in enumerate(elems)]
        cur = [(st, ('fall',))]
        done = []
        for el in elems:
            nxt = []
            for s, _ in cur:
                for s2 in self.assign(n.target, el, s, fr):
                    for s3, o in self.block(n.body, s2, fr):
                        if o[0] in ('fall', 'continue'):
                            nxt.append((s3, ('fall',)))
                        elif o[0] == 'break':
                            done.append((s3, ('fall',)))
                        else:
                            done.append((s3, o))
            cur = self.merge(nxt)
        if n.orelse:
            res = []
            for s, _ in cur:
                res += self.block(n.orelse, s, fr)
            cur = res
        return self.merge(done + cur)

    def loop_generator(self, n, v, st, fr, wrap=None):
        """for target in in_repo_generator(...): body -- interpret the generator, run the body at each yield."""
        fq, bound = v.a
        f = self.p.functions[fq]
        if fr.depth >= self.max_depth or any(x.fn is f for x in fr.chain()):
            return self.loop_general(n, v, st, fr, wrap=wrap)
        gfr = Frame(f, f.module, f.cls, fr.depth + 1, fr)
        self.analysed.add(fq)

        def on_yield(s, val):
            s = s.fork()
            genv = s.env
            s.env = dict(s.stack[-1])
            s.stack = s.stack[:-1] + (genv,)
            out = []
            mark = len(fr.raises)
            if wrap is not None:
                val = wrap(val, mk('idx', v, 0))
            for s2 in self.assign(n.target, val, s, fr):
                for s3, o in self.block(n.body, s2, fr):
                    s3 = s3.fork()
                    cenv = s3.env
                    s3.env = dict(s3.stack[-1])
                    s3.stack = s3.stack[:-1] + (cenv,)
                    out.append((s3, o))
            new = fr.raises[mark:]
            del fr.raises[mark:]
            for s2, e in new:
                s2 = s2.fork()
                cenv = s2.env
                s2.env = dict(s2.stack[-1])
                s2.stack = s2.stack[:-1] + (cenv,)
                out.append((s2, ('raise', e)))
            return out

        gfr.on_yield = on_yield
        s = st.fork()
        s.stack = s.stack + (s.env,)
        s.env = dict(bound)
        outs = self.block(f.node.body, s, gfr)
        outs += [(x, ('raise', e)) for x, e in gfr.raises]
        res = []
        for x, o in outs:
            x = x.fork()
            x.env = dict(x.stack[-1])
            x.stack = x.stack[:-1]
            if o[0] in ('fall', 'return'):
                if n.orelse:
                    res += self.block(n.orelse, x, fr)
                else:
                    res.append((x, ('fall',)))
            elif o[0] == 'genbreak':
                res.append((x, ('fall',)))
            elif o[0].startswith('gen'):
                res.append((x, (o[0][3:],) + o[1:]))
            else:
                res.append((x, o))
        return self.merge(res)

    def loop_general(self, n, v, st, fr, fused=None, xorder=(), wrap=None):
        if fused is not None:
            base, order = fused.a[0], tuple(fused.a[1]) + tuple(xorder)
            lid = fused.a[3]
            binder = None
        else:
            base, order, binder = self.iter_norm(st, v)
            if wrap is not None:
                plain_binder = binder
                binder = lambda lid: wrap(plain_binder(lid), mk('idx', base, lid))
            lid = sum(1 for b in self._activeloops if b is base)
            if base.op == 'new' and base in st.cont:
                # iterating a local container: elements of its present content
                pass

        def starts(s):
            """-> [(state, bound?)] states at the beginning of one iteration"""
            if fused is None:
                if isinstance(wrap, Positions):
                    s = s.fork()
                    for c in wrap.conts:
                        s.heap[(c, ('item', mk('idx', base, lid)))] = plain_binder(lid)
                return [(x, True) for x in self.assign(n.target, binder(lid), s, fr)]
            res = []
            alts = sorted(fused.a[2], key=lambda p: key(mk('x', p[0], p[1])))
            neglits = []
            for g, val in alts:
                x = s
                for l in sorted(g, key=lambda l: key(l[0])):
                    x = self.assume(x, l) if x is not None else None
                if x is None:
                    continue
                if wrap is not None:
                    pos = mk('idx', v if any(h for h, _ in alts) else base, lid)
                    if isinstance(wrap, Positions):
                        x = x.fork()
                        for c in wrap.conts:
                            x.heap[(c, ('item', pos))] = val
                    val = wrap(val, pos)
                res += [(y, True) for y in self.assign(n.target, val, x, fr)]
            if not any(not g for g, _ in alts):
                # elements left out by the filter
                skip = [s]
                for g, _ in alts:
                    nxt = []
                    for x in skip:
                        done = x
                        for l in sorted(g, key=lambda l: key(l[0])):
                            f = self.assume(done, lit_not(l))
                            if f is not None:
                                nxt.append(f)
                            done = self.assume(done, l)
                            if done is None:
                                break
                    skip = [y for y, _ in self.merge([(y, ('x',)) for y in nxt])]
                res += [(x, False) for x in skip]
            return res

        def body(s):
            out = []
            for x, bound in starts(s):
                if bound:
                    out += self.block(n.body, x, fr)
                else:
                    out.append((x, ('continue',)))
            if isinstance(wrap, Positions):
                for x, _ in out:
                    for hk in [h for h in x.heap if h[0] in wrap.conts and isinstance(h[1], tuple) and h[1][0] == 'item' and h[1][1].op == 'idx']:
                        del x.heap[hk]
            return self.merge(out)

        return self.run_loop(n, base, order, lid, body, st, fr, assigned=assigned_names(n))

    def s_While(self, n, st, fr):
        norm = while_as_for(n)
        if norm is not None:
            return self.stmt(norm, st, fr)
        lid = sum(1 for b in self._activeloops if b.op == 'while')
        base = mk('while', '')

        def body(s):
            out = []
            for x, b in self.cond(n.test, s, fr):
                if b:
                    out += self.block(n.body, x, fr)
                else:
                    out.append((x, ('break',)))
            return self.merge(out)
        return self.run_loop(n, base, (), lid, body, st, fr, assigned=assigned_names(n), iswhile=True)

    def run_loop(self, n, base, order, lid, body, st, fr, assigned, iswhile=False):
        self._activeloops.append(base)
        self._loopdepth += 1
        if self._loopdepth > 9:
            self._activeloops.pop()
            self._loopdepth -= 1
            raise AnalysisBroken('loops nested too deeply')
        try:
            havoc_env = {(len(st.stack), k) for k in assigned if k in st.env}
            havoc_heap, havoc_cont = set(), set()
            for attempt in range(6):
                s0 = st.fork()
                envs = [dict(e) for e in st.stack] + [dict(st.env)]
                for (i, k) in havoc_env:
                    t = mk('lv', lid, i, k, base)
                    if k in envs[i]:
                        ty = self.type_of(envs[i][k])
                        if ty and t not in self.types:
                            self.types[t] = ty
                    envs[i][k] = t
                s0.stack, s0.env = tuple(envs[:-1]), envs[-1]
                for hk in havoc_heap:
                    t = mk('lh', lid, hk[0], hk[1] if isinstance(hk[1], str) else mk('k', *hk[1]), base)
                    if isinstance(hk[1], tuple):
                        s0.heap.pop(hk, None)
                        continue
                    old = s0.heap.get(hk)
                    if old is None:
                        old = mk('attr', hk[0], hk[1])
                    ty = self.type_of(old)
                    if ty and t not in self.types:
                        self.types[t] = ty
                    s0.heap[hk] = t
                for ob in havoc_cont:
                    if ob in s0.cont:
                        s0.cont[ob] = s0.cont[ob] + (('havoc', lid),)
                    for hk in [x for x in s0.heap if x[0] is ob and isinstance(x[1], tuple)]:
                        del s0.heap[hk]
                    s0.ver[ob] = s0.ver.get(ob, 0) + 1
                s0.log = None
                mark = len(fr.raises)
                outs = body(s0.fork())
                outs += [(x, ('raise', e)) for x, e in fr.raises[mark:]]
                del fr.raises[mark:]
                # what changed?
                ne, nh, nc = set(), set(), set()
                for x, o in outs:
                    if o[0] in ('return', 'raise', 'genreturn') and True:
                        live = False
                    else:
                        live = True
                    if not live:
                        continue
                    xe = list(x.stack) + [x.env]
                    se = list(s0.stack) + [s0.env]
                    for i, (a, b) in enumerate(zip(xe, se)):
                        for k, vv in b.items():
                            if a.get(k) is not vv:
                                ne.add((i, k))
                    for hk in set(x.heap) | set(s0.heap):
                        if x.heap.get(hk) is not s0.heap.get(hk):
                            if known_before(hk[0], s0):
                                nh.add(hk)
                    for ob in s0.cont:
                        if x.cont.get(ob) != s0.cont.get(ob):
                            nc.add(ob)
                    for ob, vv in x.ver.items():
                        if s0.ver.get(ob, 0) != vv and known_before(ob, s0):
                            nc.add(ob)
                shrink = attempt == 0 and (havoc_env - ne)
                if nh <= havoc_heap and nc <= havoc_cont and ne <= havoc_env and not shrink:
                    break
                havoc_env = ne if attempt == 0 else havoc_env | ne
                havoc_heap |= nh
                havoc_cont |= nc
            inherited = s0.guards
            # iteration paths
            paths = []
            for x, o in outs:
                delta = frozenset((a, p) for a, p in x.guards.items() if inherited.get(a) is not p)
                evs = tuple(x.events())
                upd = []
                xe = list(x.stack) + [x.env]
                for (i, k) in havoc_env:
                    upd.append((mk('lv', lid, i, k, base), xe[i].get(k, NONE)))
                for hk in havoc_heap:
                    if isinstance(hk[1], str):
                        upd.append((mk('lh', lid, hk[0], hk[1], base), x.heap.get(hk, NONE)))
                paths.append((mk('lp', delta, evs, mk('out', *o), frozenset(upd)), x, o))
            loop = mk('loop', base, order, lid, tuple(sorted((p[0] for p in paths), key=key)),
                      frozenset((mk('lv', lid, i, k, base), (list(st.stack) + [st.env])[i].get(k, NONE)) for (i, k) in havoc_env)
                      | frozenset((mk('lh', lid, hk[0], hk[1], base), st.heap.get(hk, mk('attr', hk[0], hk[1])))
                                  for hk in havoc_heap if isinstance(hk[1], str)),
                      self.loc(fr, n))
            pureloop = all(not lp.a[1] for lp, _, _ in paths) and not havoc_env and not havoc_heap and not havoc_cont
            exits = [(lp, x, o) for lp, x, o in paths if o[0] not in ('fall', 'continue', 'break')]
            breaks = [(lp, x, o) for lp, x, o in paths if o[0] == 'break']
            results = []
            after = st.fork()
            envs = [dict(e) for e in st.stack] + [dict(st.env)]
            for (i, k) in havoc_env:
                t = mk('lo', loop, mk('lv', lid, i, k, base))
                ty = self.type_of(mk('lv', lid, i, k, base))
                if ty:
                    self.types[t] = ty
                envs[i][k] = t
            # names first bound inside the loop
            for _, x, o in paths:
                if o[0] in ('fall', 'continue', 'break'):
                    xe = list(x.stack) + [x.env]
                    for i, e2 in enumerate(xe):
                        for k, vv in e2.items():
                            if k not in envs[i] and i < len(envs):
                                envs[i][k] = mk('lo', loop, const(k)) if not iswhile else vv
            after.stack, after.env = tuple(envs[:-1]), envs[-1]
            for hk in havoc_heap:
                if isinstance(hk[1], tuple):
                    after.heap.pop(hk, None)
                    continue
                t = mk('lo', loop, mk('lh', lid, hk[0], hk[1], base))
                ty = self.type_of(mk('lh', lid, hk[0], hk[1], base))
                if ty:
                    self.types[t] = ty
                after.heap[hk] = t
            for ob in havoc_cont:
                if ob in after.cont:
                    after.cont[ob] = after.cont[ob] + (('loop', loop),)
                for hk in [x for x in after.heap if x[0] is ob and isinstance(x[1], tuple)]:
                    del after.heap[hk]
                after.ver[ob] = after.ver.get(ob, 0) + 1
            for _, x, _ in paths:
                for kk, vv in x.cnt.items():
                    if after.cnt.get(kk, 0) < vv:
                        after.cnt[kk] = vv
            quiet = all(not lp.a[1] or o[0] not in ('fall', 'continue') for lp, _, o in paths)
            if not pureloop or any(lp.a[1] for lp, _, _ in paths):
                after.log = mk('log', st.log, mk('ev', 'loop', (loop,), st.glits(), self.loc(fr, n)))
            search = (exits or breaks) and quiet and not havoc_env - {(i, k) for i, k in havoc_env if False} and not iswhile \
                and not havoc_heap and not any(lp.a[1] for lp, _, o in paths if o[0] in ('fall', 'continue'))
            updates_only_on_exit = all(o[0] not in ('fall', 'continue') or all(a is b for a, b in lp.a[3])
                                       for lp, _, o in paths)
            if not iswhile and (exits or breaks) and quiet and updates_only_on_exit and not havoc_heap:
                # a search loop: the condition of the exit is "some element satisfies it"
                normal = st.fork()
                normal.env.update({k: v for k, v in after.env.items() if k not in st.env})
                normal.cnt = after.cnt
                ok = True
                self.searched.setdefault(mk('elem', base, lid), set()).add(loop.a[1])
                for lp, x, o in exits + breaks:
                    anyatom = mk('any', base, frozenset([lp.a[0]]), lid)
                    y = self.assume(st, (anyatom, True)) if lp.a[0] else st
                    z = self.assume(normal, (anyatom, False)) if lp.a[0] and normal is not None else normal
                    if y is not None:
                        y = y.fork()
                        # variables as in the exiting iteration, with the pre-loop value where unchanged
                        m = {mk('lv', lid, i, k, base): (list(st.stack) + [st.env])[i].get(k, NONE) for (i, k) in havoc_env}
                        xs, xe = tuple({k: subst(v, m) for k, v in e.items()} for e in x.stack), {k: subst(v, m) for k, v in x.env.items()}
                        y.stack, y.env = xs, xe
                        y.heap, y.cont, y.ver, y.cnt = dict(x.heap), dict(x.cont), dict(x.ver), dict(x.cnt)
                        for ob in havoc_cont:
                            pass
                        for e in lp.a[1]:
                            y.log = mk('log', y.log, subst(e, m))
                        oo = tuple(subst(q, m) if isinstance(q, T) else q for q in o)
                        needs = any(isinstance(q, T) and mentions(q, lambda s: s.op in ('elem', 'idx') and s.a[0] is base) for q in oo) \
                            or o[0] == 'break' or lp.a[1]
                        if needs:
                            for (a, p) in lp.a[0]:
                                y.guards.setdefault(a, p)
                        results.append((y, ('fall',) if o[0] == 'break' else oo))
                    normal = z
                if normal is not None:
                    if n.orelse:
                        results += self.block(n.orelse, normal, fr)
                    else:
                        results.append((normal, ('fall',)))
                return self.merge(results)
            for lp, x, o in exits:
                y = st.fork()
                y.log = mk('log', st.log, mk('ev', 'loop', (loop,), st.glits(), self.loc(fr, n)))
                for e in lp.a[1]:
                    y.log = mk('log', y.log, e)
                y.stack, y.env = x.stack, dict(x.env)
                y.heap, y.cont, y.ver, y.cnt = dict(x.heap), dict(x.cont), dict(x.ver), dict(x.cnt)
                y.guards = dict(x.guards)
                results.append((y, o))
            if iswhile and all(o[0] not in ('fall', 'continue') or True for _, _, o in paths):
                if not breaks:
                    return self.merge(results)     # endless unless it returns or raises
                results.append((after, ('fall',)))
                return self.merge(results)
            if n.orelse:
                if breaks:
                    s1 = after.fork()
                    s1.guards[mk('broke', loop)] = True
                    results.append((s1, ('fall',)))
                    s2 = after.fork()
                    s2.guards[mk('broke', loop)] = False
                    results += self.block(n.orelse, s2, fr)
                else:
                    results += self.block(n.orelse, after, fr)
            else:
                results.append((after, ('fall',)))
            return self.merge(results)
        finally:
            self._activeloops.pop()
            self._loopdepth -= 1

    # ------------------------------------------------------------------ calls
    def may_follow(self, f, fr):
        if fr.depth >= self.max_depth:
            return False
        if any(x.fn is f for x in fr.chain()):
            return False
        if f.is_abstract:
            return False
        return True

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            c = fr.cls
            selft = None
            f = fr.fn
            if f is not None and f.params:
                selft = st.env.get(f.params[0])
            return [(st, mk('super', c.qualname, selft if selft is not None else NONE))] if c is not None else [(st, mk('unk', 'super'))]
        d = dotted_of(e.func)
        if d and self.is_ignored(d, st, fr, e):
            return [(st, NONE)]
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all') and e.func.id not in st.env and len(e.args) == 1:
            return self.any_all(e, st, fr)
        argn = []
        for a in e.args:
            argn.append(a)
        kwn = [k.value for k in e.keywords]
        out = []
        if isinstance(e.func, ast.Attribute):
            for s, b in self.eval(e.func.value, st, fr):
                for s2, vs in self.evals(argn + kwn, s, fr):
                    args, kw = self.split_args(s2, vs, e)
                    out += self.call_method(s2, b, e.func.attr, args, kw, fr, e)
            return self.merge_vals(out)
        for s, fv in self.eval(e.func, st, fr):
            for s2, vs in self.evals(argn + kwn, s, fr):
                args, kw = self.split_args(s2, vs, e)
                out += self.call_value(s2, fv, args, kw, fr, e)
        return self.merge_vals(out)

    def split_args(self, st, vs, e):
        n = len(e.args)
        args = []
        for v in vs[:n]:
            if v.op == 'star':
                x = pair_of(v.a[0])
                if x.op == 'tuple':
                    args += list(x.a)
                    continue
            args.append(v)
        kw = {}
        for k, v in zip(e.keywords, vs[n:]):
            if k.arg is None:
                if v.op == 'new' and v in st.cont and v.a[0] == 'dict' and all(p[0] in ('lit', 'store') for p in st.cont[v]):
                    for p in st.cont[v]:
                        for kk, vv in (p[1] if p[0] == 'lit' else [(p[1], p[2])]):
                            if kk.op == 'const' and isinstance(kk.a[0], str):
                                kw[kk.a[0]] = vv
                    continue
                kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def is_ignored(self, d, st, fr, e):
        head = d.split('.')[0]
        if head in st.env and head not in ('self', 'cls'):
            return False
        if '.logger.' in '.' + d and d.split('.')[-1] in ('debug', 'info', 'warning', 'error', 'setLevel', 'exception', 'critical'):
            return True
        r = self.p.resolve(fr.module, d)
        if isinstance(r, str) and any(r.startswith(x) for x in self.ignored_calls) and not r.startswith('logging.getLogger'):
            return True
        return False

    def any_all(self, e, st, fr):
        isany = e.func.id == 'any'
        out = []
        for s, v in self.eval(e.args[0], st, fr):
            d = self.deref(s, v)
            if d.op == 'map':
                alts = []
                okk = True
                for g, val in d.a[2]:
                    ls = self.truth(s, val, fr, e)
                    if len(ls) != 1:
                        okk = False
                        break
                    l = ls[0][1]
                    if not isany:
                        l = lit_not(l)
                    if l[0] is TRUE:
                        if l[1]:
                            alts.append(frozenset(g))
                        continue
                    gg = dict(g)
                    if l[0] in gg:
                        if gg[l[0]] == l[1]:
                            alts.append(frozenset(g))
                        continue
                    alts.append(frozenset(g) | {l})
                if okk:
                    alts = simplify_alts(alts)
                    if not alts:
                        out.append((s, const(not isany)))
                    elif frozenset() in alts:
                        a = mk('truthy', d.a[0])
                        out.append((s, a if isany else mk('not', a)))
                    else:
                        t = mk('any', d.a[0], frozenset(alts), d.a[3])
                        out.append((s, t if isany else mk('not', t)))
                    continue
            if d.op in ('list', 'tuple'):
                lits = []
                cur = [(s, True)] if not isany else [(s, False)]
                res = [(s, isany is False)]
                # fold as and/or
                work = [s]
                fin = []
                for x in d.a:
                    nxt = []
                    for w in work:
                        for w2, l in self.truth(w, x, fr, e):
                            for w3, b in self.split(w2, l):
                                if b == isany:
                                    fin.append((w3, const(isany)))
                                else:
                                    nxt.append(w3)
                    work = nxt
                fin += [(w, const(not isany)) for w in work]
                out += fin
                continue
            out.append((s, mk('truthy', mk('call', e.func.id, (d,), ()))))
        return self.merge_vals(out)

    def call_value(self, st, fv, args, kw, fr, node):
        if fv.op == 'fn':
            return self.call_fn(st, self.p.functions[fv.a[0]], args, kw, fr, node)
        if fv.op == 'bound':
            f = self.p.functions[fv.a[0].a[0]]
            return self.call_fn(st, f, [fv.a[1]] + args, kw, fr, node)
        if fv.op == 'cls':
            return self.construct(st, self.p.classes[fv.a[0]], args, kw, fr, node)
        if fv.op == 'ext':
            return self.call_ext(st, fv.a[0], args, kw, fr, node)
        if fv.op == 'extm':
            return self.call_method(st, fv.a[0], fv.a[1], args, kw, fr, node, raw=True)
        if fv.op == 'lambda':
            return self.call_closure(st, fv, args, kw, fr, node)
        if fv.op == 'partial':
            return self.call_value(st, fv.a[0], list(fv.a[1]) + args, dict(list(fv.a[2]) + list(kw.items())), fr, node)
        if fv.op == 'attr':
            return self.call_method(st, fv.a[0], fv.a[1], args, kw, fr, node, raw=True)
        # unknown callable: a parameter or field holding a function
        s = st.fork()
        t = mk('call', show(fv), tuple(self.deref(s, a) for a in args), tuple(sorted(((k, self.deref(s, v)) for k, v in kw.items()), key=lambda p: p[0])))
        self.emit(s, fr, node, 'call', t, fv, tuple(args))
        t2 = mk('res', t, len(s.events()))
        return [(s, t2)]

    def call_closure(self, st, fv, args, kw, fr, node):
        c = self.closures.get(fv)
        if c is None or fr.depth >= self.max_depth:
            return [(st, mk('call', 'lambda', tuple(args), ()))]
        n = c.node
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for i, nm in enumerate(names):
            if i < len(args):
                env[nm] = args[i]
            elif nm in kw:
                env[nm] = kw[nm]
            elif nm in defaults:
                r = self.eval(defaults[nm], st, c.fr)
                env[nm] = r[0][1]
            else:
                env[nm] = mk('param', nm)
        for x in a.kwonlyargs:
            env[x.arg] = kw.get(x.arg, NONE)
        nfr = Frame(c.fr.fn, c.fr.module, c.fr.cls, fr.depth + 1, fr)
        nfr.closure_env = c.env
        s = st.fork()
        s.stack = s.stack + (s.env,)
        # a closure sees the variables of the frame it was made in as they are now
        s.env = dict(c.env)
        active = c.level < len(s.stack) and any(x is c.fr for x in fr.chain())
        if active:
            s.env.update(s.stack[c.level])
        elif len(s.stack) and fr.fn is c.fr.fn:
            live = s.stack[-1]
            s.env.update({k: live[k] for k in c.env if k in live})
        s.env.update(env)
        out = []

        def leave(x):
            x = x.fork()
            if c.nonlocals and active:
                lv = dict(x.stack[c.level])
                lv.update({k: x.env[k] for k in c.nonlocals if k in x.env})
                x.stack = x.stack[:c.level] + (lv,) + x.stack[c.level + 1:]
            x.env = dict(x.stack[-1])
            x.stack = x.stack[:-1]
            return x
        if isinstance(n, ast.Lambda):
            for x, v in self.eval(n.body, s, nfr):
                x = leave(x)
                out.append((x, v))
        else:
            for x, o in self.block(n.body, s, nfr):
                x = leave(x)
                if o[0] == 'return':
                    out.append((x, o[1]))
                elif o[0] == 'fall':
                    out.append((x, NONE))
                elif o[0] == 'raise':
                    fr.raises.append((x, o[1]))
        for x, e in nfr.raises:
            x = leave(x)
            fr.raises.append((x, e))
        return out

    def bind(self, f, args, kw, st, fr):
        """-> (dict name->term, problem)"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        extra = []
        for i, v in enumerate(args):
            if v.op == 'star':
                extra.append(v)
                continue
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *extra)
        kws = {}
        allk = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allk:
                env[k] = v
            else:
                kws[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = mk('kwargs', tuple(sorted(kws.items(), key=lambda p: p[0])))
        defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if dflt is not None:
                defs[x.arg] = dflt
        dfr = Frame(None, f.module, f.cls, fr.depth)
        spread = kw.get('**') if not a.kwarg else None
        for k in pos + [x.arg for x in a.kwonlyargs]:
            if k not in env and spread is not None and k not in defs:
                env[k] = mk('item', spread, const(k))
            if k not in env:
                if k in defs:
                    k0 = simple_const(defs[k])
                    if k0 is not None:
                        env[k] = k0[0]
                    else:
                        saved = st.env
                        s = st.fork()
                        s.env = {}
                        env[k] = self.eval(defs[k], s, dfr)[0][1]
                    if spread is not None:
                        inn = mk('in', const(k), spread)
                        env[k] = mk('alts', frozenset([(frozenset([(inn, True)]), mk('item', spread, const(k))), (frozenset([(inn, False)]), env[k])]))
                else:
                    env[k] = mk('missing', k)
        # parameters' annotated types as hints for otherwise untyped values
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                v = env[x.arg]
                if v.op not in ('const', 'new', 'tuple', 'cls', 'fn', 'ext') and self.type_of(v) is None:
                    ty = self.ann(f.module, x.annotation)
                    if ty and ty[0] != 'ext':
                        self.types[v] = ty
        return env

    def call_fn(self, st, f, args, kw, fr, node):
        if f.is_classmethod and args and args[0].op != 'cls':
            c = self.class_of(args[0])
            if c is not None and args[0].op != 'param':
                args = [mk('cls', c.qualname)] + args[1:]
        env = self.bind(f, args, kw, st, fr)
        if self.follow is not None and f.qualname not in self.opaque and not self.follow(f):
            return self.opaque_call(st, f, env, fr, node)
        if f.qualname in self.opaque or not self.may_follow(f, fr):
            return self.opaque_call(st, f, env, fr, node)
        if f.is_generator:
            return [(st, mk('gencall', f.qualname, tuple(sorted(env.items(), key=lambda p: p[0]))))]
        self.analysed.add(f.qualname)
        nfr = Frame(f, f.module, f.cls, fr.depth + 1, fr)
        s = st.fork()
        s.stack = s.stack + (s.env,)
        s.env = env
        out = []
        for x, o in self.block(f.node.body, s, nfr):
            x = x.fork()
            x.env = dict(x.stack[-1])
            x.stack = x.stack[:-1]
            if o[0] == 'return':
                v = o[1]
                out.append((x, v))
            elif o[0] == 'fall':
                out.append((x, NONE))
            elif o[0] == 'raise':
                fr.raises.append((x, o[1]))
        for x, e in nfr.raises:
            x = x.fork()
            x.env = dict(x.stack[-1])
            x.stack = x.stack[:-1]
            fr.raises.append((x, e))
        fr.raises[:] = self.merge_raises(fr.raises)
        return self.merge_vals(out)

    def merge_raises(self, rs):
        return [(s, o[1]) for s, o in self.merge([(s, ('raise', e)) for s, e in rs])] if len(rs) > 1 else rs

    def opaque_call(self, st, f, env, fr, node):
        s = st.fork()
        t = mk('fcall', f.qualname, tuple(sorted(((k, v) for k, v in env.items()), key=lambda p: p[0])), len(s.events()))
        self.emit(s, fr, node, 'fcall', t)
        if f.cls is not None and f.params and not f.is_static and not f.is_classmethod:
            me = env.get(f.params[0])
            if me is not None and me.op in ('param', 'attr'):
                for nm in self.modset(f):
                    s.heap[(me, nm)] = mk('attr', me, nm, len(s.events()))
                # containers made here that the function can reach through the object
                used = self.modset(f, 'loads')
                for hk, v in list(s.heap.items()):
                    if hk[0] is me and isinstance(hk[1], str) and hk[1] in used and v.op == 'new' and v in s.cont:
                        s.heap[hk] = mk('attr', me, hk[1], len(s.events()))
        return [(s, t)]

    def modset(self, f, what='stores'):
        """attributes of self that a method (or a method of self it calls) assigns (or reads)"""
        memo = self.__dict__.setdefault('_modset_' + what, {})
        if f.qualname in memo:
            return memo[f.qualname]
        memo[f.qualname] = set()
        out = set()
        me = f.params[0] if f.params else None
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                nm = mangle(f.cls.name, n.attr)
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if f.cls.find(nm, 'setters') is None:
                        out.add(nm)
                    else:
                        out |= self.modset(f.cls.find(nm, 'setters'), what)
                else:
                    g = f.cls.find(nm)
                    if g is not None and g is not f and (not g.is_property or what == 'loads'):
                        out |= self.modset(g, what)
                    elif g is None and what == 'loads':
                        out.add(nm)
        memo[f.qualname] = out
        return out

    def construct(self, st, c, args, kw, fr, node):
        if any(b.split('.')[-1] in ('Exception', 'BaseException', 'ValueError', 'KeyError') for b in c.ext_bases()):
            return [(st, mk('exc', c.name, ()))]
        if c.is_enum:
            return [(st, mk('call', c.qualname, tuple(args), ()))]
        s = st.fork()
        obj = self.newobj(s, c.qualname, node)
        if c.qualname in self.plain:
            s.cont[obj] = (('lit', ()),) if not args else (('copy',) + self.copy_of(s, args[0]),)
            return [(s, obj)]
        init = c.find('__init__')
        if c.qualname in self.opaque or (init is not None and (init.qualname in self.opaque or not self.may_follow(init, fr))):
            env = self.bind(init, [obj] + args, kw, s, fr) if init is not None else {}
            s.heap[(obj, '__ctor__')] = mk('fcall', c.qualname, tuple(sorted(((k, v) for k, v in env.items() if k != 'self'), key=lambda p: p[0])), 0)
            self.emit(s, fr, node, 'fcall', s.heap[(obj, '__ctor__')])
            return [(s, obj)]
        if init is not None:
            return [(x, obj) for x, _ in self.call_fn(s, init, [obj] + args, kw, fr, node)]
        if c.is_dataclass:
            names = [k for b in reversed(c.mro()) for k in b.annots]
            vals = dict(zip(names, args))
            vals.update(kw)
            for k in names:
                s.heap[(obj, k)] = vals.get(k, mk('attr', obj, k))
            self.emit(s, fr, node, 'extnew', obj, mk('call', c.qualname, tuple(s.heap[(obj, k)] for k in names), ()))
            return [(s, obj)]
        s.heap[(obj, '__args__')] = mk('tuple', *args)
        self.emit(s, fr, node, 'extnew', obj, mk('call', c.qualname, tuple(args), tuple(sorted(kw.items()))))
        return [(s, obj)]

    # -- external functions ---------------------------------------------
    def call_ext(self, st, d, args, kw, fr, node):
        if d.startswith('builtins.'):
            r = self.call_builtin(st, d[9:], args, kw, fr, node)
            if r is not None:
                return r
        if d in ('copy.deepcopy', 'copy.copy') and args:
            a = args[0]
            s = st.fork()
            if a.op == 'const':
                return [(s, a)]
            if d == 'copy.copy' and a.op == 'new' and a in s.cont:
                return [(s, self.newobj(s, a.a[0], node, self.cparts(s, a)))]
            t = self.newobj(s, 'copy', node)
            t = mk('copyof', 'deep' if d == 'copy.deepcopy' else 'shallow', self.deref(s, a), t)
            ty = self.type_of(a)
            if ty:
                self.types[t] = ty
            return [(s, t)]
        if d in ('collections.defaultdict',):
            s = st.fork()
            o = self.newobj(s, 'defaultdict', node, [('lit', ())])
            if args:
                s.heap[(o, '__factory__')] = args[0]
            return [(s, o)]
        if d in ('collections.OrderedDict', 'collections.Counter'):
            s = st.fork()
            return [(s, self.newobj(s, 'dict', node, [('lit', ())] if not args else [('copy',) + self.copy_of(s, args[0])]))]
        if d == 'collections.deque':
            s = st.fork()
            return [(s, self.newobj(s, 'list', node, [('lit', ())] if not args else [('copy',) + self.copy_of(s, args[0])]))]
        if d == 'functools.partial' and args:
            return [(st, mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]
        if d in ('itertools.chain',):
            if len(args) == 1:
                return [(st, args[0])]
        if d == 'itertools.chain.from_iterable' and len(args) == 1:
            pass
        if d in ('bisect.insort', 'bisect.insort_left', 'bisect.insort_right') and args:
            s = st.fork()
            k = kw.get('key')
            self.mutate(s, fr, node, args[0], d.split('.')[-1], tuple(args[1:2]), (('key', self.keyterm(s, k, fr, node)),) if k is not None else ())
            return [(s, NONE)]
        dk = tuple(sorted(((k, self.funcval(st, v, fr, node)) for k, v in kw.items()), key=lambda p: p[0]))
        da = tuple(self.deref(st, a) for a in args)
        if d in ('math.inf', 'numpy.inf'):
            return [(st, mk('ext', d))]
        d2 = EXT_ALIAS.get(d, d)
        t = mk('call', d2, da, dk)
        if any(d.startswith(x) for x in IMPURE_EXT):
            s = st.fork()
            if any(d.startswith(x) for x in UNIQUE_EXT):
                t = mk('res', t, s.cnt.get(('res', t), 0))
                s.cnt[('res', t.a[0])] = s.cnt.get(('res', t.a[0]), 0) + 1
            self.emit(s, fr, node, 'call', t.a[0] if t.op == 'res' else t, mk('ext', d), tuple(args))
            return [(s, t)]
        if d in ALLOC_EXT:
            s = st.fork()
            k = s.cnt.get(('res', t), 0)
            s.cnt[('res', t)] = k + 1
            t = mk('res', t, k)
            self.emit(s, fr, node, 'alloc', t)
            return [(s, t)]
        last = d.split('.')[-1]
        if last[:1].isupper() and not d.startswith('builtins.') and d.split('.')[0] not in ('torch', 'numpy', 'decimal', 'pathlib', 'fractions'):
            s = st.fork()
            o = self.newobj(s, 'ext:' + d, node)
            s.heap[(o, '__ctor__')] = t
            self.emit(s, fr, node, 'extnew', o, t)
            return [(s, o)]
        return [(st, t)]

    def funcval(self, st, v, fr, node):
        if v.op in ('lambda', 'fn') or (v.op == 'call' and v.a[0].startswith('operator.')):
            return self.keyterm(st, v, fr, node)
        return self.deref(st, v)

    def keyterm(self, st, k, fr, node):
        """A function value applied to a generic element, as a term."""
        if k is None or k is NONE:
            return NONE
        if k.op == 'call' and isinstance(k.a[0], str) and k.a[0].split('.')[-1] == 'cmp_to_key':
            return k
        x = mk('arg')
        if k.op == 'call' and k.a[0] in ('operator.attrgetter', 'operator.itemgetter') and k.a[1] and not k.a[2] and \
                all(y.op == 'const' for y in k.a[1]):
            out = []
            for y in k.a[1]:
                t = x
                for nm in (str(y.a[0]).split('.') if k.a[0] == 'operator.attrgetter' else (y,)):
                    t = mk('attr', t, nm) if k.a[0] == 'operator.attrgetter' else mk('item', t, nm)
                out.append(t)
            return out[0] if len(out) == 1 else mk('tuple', *out)
        try:
            r = self.call_value(st.fork(), k, [x], {}, fr, node)
        except AnalysisBroken:
            return k
        if len(r) == 1:
            return r[0][1]
        return mk('alts', frozenset((s.glits() - st.glits(), v) for s, v in r))

    def call_builtin(self, st, n, args, kw, fr, node):
        d = lambda x: self.deref(st, x)
        if n in ('list', 'set', 'tuple', 'frozenset', 'sorted', 'len', 'iter', 'enumerate', 'zip', 'sum', 'reversed') and \
                any(a is NONE or st.guards.get(mk('isnone', a)) is True for a in (args if n == 'zip' else args[:1])):
            fr.raises.append((st.fork(), mk('exc', 'TypeError', ())))
            return []
        if n == 'len' and len(args) == 1:
            a = args[0]
            c = self.class_of(a)
            if c is not None and c.qualname not in self.plain:
                f = c.find('__len__')
                if f is not None and f.qualname not in self.opaque:
                    return self.call_fn(st, f, [a], {}, fr, node)
            if a.op == 'new' and a in st.cont:
                s = self.deref(st, a)
                if s.op == 'list':
                    return [(st, const(len(s.a)))]
                if s.op == 'map' and len(s.a[2]) == 1 and not next(iter(s.a[2]))[0]:
                    return [(st, mk('call', 'len', (s.a[0],), ()))]
                if s.op in ('sorted', 'reversed'):
                    s = s.a[0]
                return [(st, mk('call', 'len', (s,), ()))]
            if a.op == 'tuple':
                return [(st, const(len(a.a)))]
            b, o, _ = self.iter_norm(st, a)
            return [(st, mk('call', 'len', (b if a.op != 'mcall' or a.a[1] in ('keys', 'values', 'items', 'copy') else a,), ()))] \
                if b.op not in ('zip',) else [(st, mk('call', 'len', (a,), ()))]
        if n in ('list', 'tuple', 'set', 'frozenset', 'iter', 'dict'):
            if not args and n != 'dict':
                s = st.fork()
                if n in ('tuple',):
                    return [(s, mk('tuple'))]
                if n == 'frozenset':
                    return [(s, mk('call', 'frozenset', (mk('list'),), ()))]
                return [(s, self.newobj(s, n, node, [('lit', ())]))]
            if n == 'dict' and (kw or not args):
                s = st.fork()
                parts = [('lit', tuple((const(k), v) for k, v in sorted(kw.items())))]
                if args:
                    parts = [('copy',) + self.copy_of(s, args[0])] + [('store', const(k), v) for k, v in sorted(kw.items())]
                return [(s, self.newobj(s, 'dict', node, parts))]
            a = args[0]
            if a.op == 'gencall':
                return self.collect_gen(st, a, fr, node, n)
            c = self.class_of(a)
            if c is not None and c.qualname not in self.plain and a not in st.cont:
                f = c.find('__iter__')
                if f is not None and f.qualname not in self.opaque and self.may_follow(f, fr):
                    out = []
                    for s, v in self.call_fn(st, f, [a], {}, fr, node):
                        if v is a:
                            out.append((s, mk('call', n, (a,), ())))
                        else:
                            out += self.call_builtin(s, n, [v], kw, fr, node) or []
                    return out
            if n == 'iter':
                return [(st, a)]
            if n == 'frozenset':
                return [(st, mk('call', 'frozenset', (self.unordered(d(a)),), ()))]
            if n == 'tuple':
                s = d(a)
                if s.op in ('list', 'tuple'):
                    return [(st, mk('tuple', *s.a))]
                return [(st, mk('call', 'tuple', (s,), ()))]
            s = st.fork()
            if a.op == 'new' and a in s.cont:
                parts = self.cparts(s, a)
                if n == 'list' and a.a[0] in ('dict', 'set', 'defaultdict'):
                    return [(s, self.newobj(s, 'list', node, [('copy', a if a.a[0] != 'set' else a, ())]))]
                return [(s, self.newobj(s, n if n != 'iter' else 'list', node, parts))]
            if a.op in ('tuple', 'list') and all(isinstance(x, T) for x in a.a):
                return [(s, self.newobj(s, n, node, [('lit', tuple(a.a))]))]
            if a.op in ('map',):
                return [(s, self.newobj(s, n, node, [('copy', a, ())]))]
            if n == 'dict':
                return [(s, self.newobj(s, 'dict', node, [('copy', d(a), ())]))]
            return [(s, self.newobj(s, n, node, [('copy',) + self.copy_of(s, a)]))]
        if n == 'sorted' and args:
            s = st.fork()
            a = args[0]
            if a.op == 'gencall':
                r = self.collect_gen(s, a, fr, node, 'list')
                return [y for x, v in r for y in self.call_builtin(x, 'sorted', [v], kw, fr, node)]
            kt = self.keyterm(s, kw.get('key'), fr, node)
            if kt is mk('arg'):
                kt = NONE
            o = ('sorted', kt, kw.get('reverse', FALSE))
            if a.op == 'new' and a in s.cont:
                parts = self.cparts(s, a)
                body = [p for p in parts if not (p[0] == 'lit' and not p[1])]
                if a.a[0] in ('dict', 'defaultdict'):
                    return [(s, self.newobj(s, 'list', node, [('copy', a, (o,))]))]
                # going through a set drops duplicates
                once = (('set',),) if a.a[0] == 'set' and body and any(p[0] != 'lit' for p in body) else ()
                if body and body[0][0] == 'copy' and all(p[0] == 'order' for p in body[1:]):
                    return [(s, self.newobj(s, 'list', node, [('copy', body[0][1], body[0][2] + tuple(p[1] for p in body[1:]) + once + (o,))]))]
                return [(s, self.newobj(s, 'list', node, list(parts) + [('order', x) for x in once + (o,)]))]
            b, order, _ = self.iter_norm(s, a)
            return [(s, self.newobj(s, 'list', node, [('copy', a if a.op == 'mcall' and a.a[1] in ('items', 'values') else b, order + (o,))]))]
        if n == 'reversed' and args:
            s = st.fork()
            a = args[0]
            b, order, _ = self.iter_norm(s, a)
            return [(s, self.newobj(s, 'list', node, [('copy', b, order + (('reversed',),))]))]
        if n == 'enumerate' and args:
            return [(st, mk('enumerate', args[0], args[1] if len(args) > 1 else kw.get('start', const(0))))]
        if n == 'zip':
            return [(st, mk('zip', *args))]
        if n == 'range':
            a = [self.deref(st, x) for x in args]
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            return [(st, mk('range', *a))]
        if n == 'isinstance' and len(args) == 2:
            cs = set()

            def flat(t):
                if t.op == 'tuple':
                    for y in t.a:
                        flat(y)
                elif t.op == 'bin' and t.a[0] == '|':
                    flat(t.a[1])
                    flat(t.a[2])
                else:
                    cs.add(t)
            flat(args[1])
            at = mk('isinst', args[0], frozenset(cs))
            v = self.decide(st, (at, True))
            return [(st, const(v) if v is not None else at)]
        if n == 'callable':
            return [(st, mk('callable', args[0]))]
        if n in ('getattr', 'hasattr', 'setattr') and len(args) >= 2 and args[1].op == 'const':
            nm = args[1].a[0]
            if n == 'getattr':
                if len(args) == 2:
                    return self.getattr(st, args[0], nm, fr, node)
                out = []
                for s, b in self.split(st, (mk('truthy', mk('call', 'hasattr', (args[0], args[1]), ())), True)):
                    out += self.getattr(s, args[0], nm, fr, node) if b else [(s, args[2])]
                return out
            if n == 'setattr' and len(args) == 3:
                return [(s, NONE) for s in self.setattr(st, args[0], nm, args[2], fr, node)]
            return [(st, mk('truthy', mk('call', 'hasattr', (args[0], args[1]), ())))]
        if n == 'bool' and len(args) == 1:
            out = []
            for s, l in self.truth(st, args[0], fr, node):
                v = self.decide(s, l)
                out.append((s, const(v) if v is not None else atom_term(l)))
            return out
        if n in ('max', 'min'):
            if len(args) == 1:
                c = self.deref(st, args[0])
                if c.op == 'new' or args[0].op == 'gencall':
                    pass
                ks = tuple((k, self.funcval(st, v, fr, node)) for k, v in sorted(kw.items()))
                return [(st, mk('call', n, (c,), ks))]
            vals = []
            for a in args:
                a = d(a)
                if a.op == 'call' and a.a[0] == n and isinstance(a.a[1], frozenset):
                    vals += list(a.a[1])
                else:
                    vals.append(a)
            nums = [x.a[0] for x in vals if num(x)]
            vals = [x for x in vals if not num(x)]
            if nums:
                vals.append(const(max(nums) if n == 'max' else min(nums)))
            if len(vals) == 1:
                return [(st, vals[0])]
            return [(st, mk('mm', n, frozenset(vals), tuple((k, self.funcval(st, v, fr, node)) for k, v in sorted(kw.items()))))]
        if n == 'next' and args:
            a = args[0]
            s = st.fork()
            if a.op == 'gencall':
                # one step of an in-repository generator
                t = mk('next', a, s.cnt.get(('next', a), 0), *([mk('default', args[1])] if len(args) > 1 else []))
                s.cnt[('next', a)] = s.cnt.get(('next', a), 0) + 1
                self.emit(s, fr, node, 'fcall', mk('fcall', a.a[0], a.a[1], len(s.events())))
                return [(s, t)]
            dv = self.deref(s, a)
            if dv.op == 'map':
                return [(s, mk('call', 'next', (dv,) + tuple(self.deref(s, x) for x in args[1:]), ()))]
            b, o, _ = self.iter_norm(s, a)
            k = ('next', b)
            t = mk('call', 'next', (b if not o else dv, const(s.cnt.get(k, 0))), (('default', args[1]),) if len(args) > 1 else ())
            s.cnt[k] = s.cnt.get(k, 0) + 1
            return [(s, t)]
        if n == 'map' and len(args) == 2:
            return self.map_filter(st, args[0], args[1], fr, node, False)
        if n == 'filter' and len(args) == 2:
            return self.map_filter(st, args[0], args[1], fr, node, True)
        if n == 'sum' and args:
            return [(st, mk('call', 'sum', tuple(d(x) for x in args), ()))]
        if n == 'hash' and len(args) == 1:
            c = self.class_of(args[0])
            if c is not None:
                f = c.find('__hash__')
                if f is not None and self.may_follow(f, fr):
                    return self.call_fn(st, f, [args[0]], {}, fr, node)
            return [(st, mk('call', 'hash', (d(args[0]),), ()))]
        if n in ('abs', 'round', 'int', 'float', 'str', 'id', 'ord', 'chr', 'repr', 'type', 'divmod', 'pow', 'vars', 'dir',
                 'bytes', 'object', 'slice'):
            da = tuple(d(x) for x in args)
            if n == 'type' and len(args) == 1:
                c = self.class_of(args[0])
                if c is not None:
                    return [(st, mk('cls', c.qualname))]
            if n in ('int', 'float') and len(da) == 1 and num(da[0]):
                return [(st, const(int(da[0].a[0]) if n == 'int' else float(da[0].a[0])))]
            if n == 'str' and len(da) == 1 and da[0].op == 'const':
                return [(st, const(str(da[0].a[0])))]
            if n == 'str' and len(da) == 1 and da[0].op == 'fstr':
                return [(st, da[0])]
            if n == 'slice':
                x = list(da) + [NONE] * (3 - len(da)) if len(da) > 1 else [NONE, da[0], NONE]
                return [(st, mk('slice', *x))]
            return [(st, mk('call', n, da, tuple((k, d(v)) for k, v in sorted(kw.items()))))]
        if n in ('ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'IndexError', 'Exception', 'AttributeError', 'NotImplementedError',
                 'FileExistsError', 'FileNotFoundError', 'StopIteration', 'AssertionError', 'OSError'):
            return [(st, mk('exc', n, ()))]
        return None

    def unordered(self, t):
        """order and duplicates do not matter below a frozenset/set"""
        while True:
            if t.op in ('sorted', 'reversed'):
                t = t.a[0]
            elif t.op == 'call' and t.a[0] in ('set', 'list', 'tuple', 'frozenset', 'sorted') and len(t.a[1]) == 1:
                t = t.a[1][0]
            elif t.op == 'map':
                r = mk('map', t.a[0], (), t.a[2], t.a[3])
                return r
            elif t.op in ('list', 'tuple'):
                return mk('list', *sorted(set(t.a), key=key))
            else:
                return t

    def map_filter(self, st, f, it, fr, node, isfilter):
        s = st.fork()
        nm_f, nm_it, nm_x = '$mf', '$mit', '$mx'
        s.env[nm_f], s.env[nm_it] = f, it
        x = ast.Name(nm_x, ast.Load())
        callx = ast.Call(ast.Name(nm_f, ast.Load()), [x], [])
        if isfilter:
            e = ast.GeneratorExp(x, [ast.comprehension(ast.Name(nm_x, ast.Store()), ast.Name(nm_it, ast.Load()),
                                                      [callx if f is not NONE else x], 0)])
        else:
            e = ast.GeneratorExp(callx, [ast.comprehension(ast.Name(nm_x, ast.Store()), ast.Name(nm_it, ast.Load()), [], 0)])
        for n in ast.walk(e):
            if not hasattr(n, 'lineno'):
                n.lineno, n.col_offset = node.lineno, node.col_offset
                n.end_lineno, n.end_col_offset = node.lineno, node.col_offset
        out = []
        for y, v in self.eval(e, s, fr):
            y = y.fork()
            y.env.pop(nm_f, None)
            y.env.pop(nm_it, None)
            out.append((y, v))
        return out

    def collect_gen(self, st, g, fr, node, kind):
        s = st.fork()
        tmp_o, tmp_x, tmp_g = '$go', '$gx', '$gg'
        obj = self.newobj(s, 'list' if kind in ('iter', 'tuple', 'frozenset') else kind, node, [('lit', ())])
        s.env[tmp_o], s.env[tmp_g] = obj, g
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp_o, ast.Load()), 'append' if kind != 'set' else 'add', ast.Load()),
                                 [ast.Name(tmp_x, ast.Load())], []))
        loop = ast.For(ast.Name(tmp_x, ast.Store()), ast.Name(tmp_g, ast.Load()), [body], [])
        for n in ast.walk(loop):
            if not hasattr(n, 'lineno'):
                n.lineno, n.col_offset = node.lineno, node.col_offset
                n.end_lineno, n.end_col_offset = node.lineno, node.col_offset
        out = []
        for x, o in self.stmt(loop, s, fr):
            if o[0] == 'raise':
                fr.raises.append((x, o[1]))
                continue
            x = x.fork()
            for k in (tmp_o, tmp_g, tmp_x):
                x.env.pop(k, None)
            out.append((x, obj))
        return out

    # -- methods -----------------------------------------------------------
    def call_method(self, st, base, name, args, kw, fr, node, raw=False):
        if not raw:
            if base.op in ('mod', 'ext', 'cls', 'super'):
                out = []
                for s, fv in self.getattr(st, base, name, fr, node):
                    out += self.call_value(s, fv, args, kw, fr, node)
                return out
            if base.op == 'bound' or base.op == 'fn':
                if name == 'cache_clear':
                    s = st.fork()
                    fq = base.a[0].a[0] if base.op == 'bound' else base.a[0]
                    self.emit(s, fr, node, 'cacheclear', fq)
                    return [(s, NONE)]
                return [(st, NONE)]
            c = self.class_of(base)
            if c is not None and (c.qualname not in self.plain or name.startswith('_') and not name.endswith('__') and
                                  c.find(mangle(fr.cls.name if fr.cls else None, name)) is not None):
                nm = mangle(fr.cls.name if fr.cls else None, name)
                f = c.find(nm)
                if f is not None and not f.is_property:
                    if f.is_static:
                        return self.call_fn(st, f, args, kw, fr, node)
                    if f.is_classmethod:
                        return self.call_fn(st, f, [mk('cls', c.qualname)] + args, kw, fr, node)
                    return self.call_fn(st, f, [base] + args, kw, fr, node)
                h = st.heap.get((base, nm))
                if h is not None and h.op in ('fn', 'bound', 'lambda', 'cls'):
                    return self.call_value(st, h, args, kw, fr, node)
                if f is not None and f.is_property:
                    out = []
                    for s, fv in self.getattr(st, base, name, fr, node):
                        out += self.call_value(s, fv, args, kw, fr, node)
                    return out
        if base.op == 'cls':
            pass
        kind = base.a[0] if base.op == 'new' and base in st.cont else None
        d = lambda x: self.deref(st, x)
        # dictionary reads with a default
        if name == 'get' and 1 <= len(args) <= 2 and not kw and self.is_dictlike(st, base):
            out = []
            dflt = args[1] if len(args) > 1 else NONE
            k = args[0]
            for s, b in self.split(st, (mk('in', k, base), True)):
                if b:
                    out += self.getitem(s, base, k, fr, node)
                else:
                    out.append((s, dflt))
            return out
        if name == 'setdefault' and 1 <= len(args) <= 2:
            out = []
            k = args[0]
            for s, b in self.split(st, (mk('in', k, base), True)):
                if b:
                    out += self.getitem(s, base, k, fr, node)
                else:
                    v = args[1] if len(args) > 1 else NONE
                    for s2 in self.setitem(s, base, k, v, fr, node):
                        out.append((s2, v))
            return out
        if name in ('__getitem__',) and len(args) == 1:
            return self.getitem(st, base, args[0], fr, node)
        if name == '__setitem__' and len(args) == 2:
            return [(s, NONE) for s in self.setitem(st, base, args[0], args[1], fr, node)]
        if name == 'update' and len(args) == 1 and not kw and args[0].op == 'new' and args[0].a[0] == 'dict' and args[0] in st.cont and \
                all(p[0] == 'lit' for p in st.cont[args[0]]) and self.is_dictlike(st, base):
            sts = [st]                          # d.update({k: v}) is d[k] = v
            for p in st.cont[args[0]]:
                for k, v in p[1]:
                    sts = [s2 for s1 in sts for s2 in self.setitem(s1, base, k, v, fr, node)]
            return [(s, NONE) for s in sts]
        if name == 'format' and base.op == 'const':
            if isinstance(base.a[0], str) and not kw:
                pieces, k = [], 0
                try:
                    for text, fld, spec, conv in string.Formatter().parse(base.a[0]):
                        if text:
                            pieces.append(const(text))
                        if fld is None:
                            continue
                        pos = int(fld) if fld else k
                        k += 1
                        v = args[pos] if not conv else None
                        if v.op == 'call' and v.a[0] == 'str' and len(v.a[1]) == 1 and not spec:
                            v = v.a[1][0]
                        if v.op == 'const':
                            v = const(str(v.a[0])) if not spec else mk('fmt', v, spec)
                        elif spec:
                            v = mk('fmt', v, spec)
                        pieces.append(v)
                    return [(st, fstr(pieces))]
                except (ValueError, IndexError, AttributeError):
                    pass
            return [(st, mk('mcall', base, name, tuple(d(a) for a in args), tuple((k, d(v)) for k, v in sorted(kw.items()))))]
        if name == 'join' and base.op in ('const', 'fstr') and args:
            return [(st, mk('mcall', base, 'join', (d(args[0]),), ()))]
        if kind in ('list', 'set', 'dict', 'defaultdict', 'gen', 'deque') or (kind and kind in self.plain):
            if name in ('copy',) and not args:
                s = st.fork()
                return [(s, self.newobj(s, kind, node, self.cparts(s, base)))]
            if name in ('keys',) and not args:
                return [(st, base)]
            if name in ('values', 'items', 'index', 'count', 'issubset', 'union', 'intersection', 'difference',
                        'issuperset', 'isdisjoint', 'symmetric_difference', 'get'):
                if name in ('items', 'values') and not args:
                    return [(st, mk('mcall', base, name, (), ()))]
                return [(st, mk('mcall', d(base), name, tuple(d(a) for a in args), ()))]
            s = st.fork()
            return [(s, self.mutate(s, fr, node, base, name, tuple(args), tuple(sorted(((k, self.funcval(s, v, fr, node)) for k, v in kw.items()), key=lambda p: p[0]))))]
        if name == 'copy' and not args and not kw:
            return self.copy_value(st, base, node)
        if name in PURE_METHODS:
            kws = tuple(sorted(((k, self.funcval(st, v, fr, node)) for k, v in kw.items()), key=lambda p: p[0]))
            return [(st, mk('mcall', d(base), name, tuple(d(a) for a in args), kws))]
        s = st.fork()
        kws = tuple(sorted(((k, self.funcval(s, v, fr, node)) for k, v in kw.items()), key=lambda p: p[0]))
        return [(s, self.mutate(s, fr, node, base, name, tuple(args), kws))]

    def copy_value(self, st, base, node):
        """x.copy() of an unknown value: a new container with the same content"""
        ty = self.type_of(base)
        s = st.fork()
        kind = 'dict' if ty and ty[0] == 'dict' else 'list' if ty and ty[0] == 'list' else None
        if kind:
            return [(s, self.newobj(s, kind, node, [('copy', base, ())]))]
        t = mk('copyof', 'shallow', base, self.newobj(s, 'copy', node))
        if ty:
            self.types[t] = ty
        if base.op == 'attr':
            self.emit(s, self.top_frame, node, 'copy', t)
        return [(s, t)]

    def is_dictlike(self, st, base):
        if base.op == 'new' and base in st.cont:
            return base.a[0] in ('dict', 'defaultdict') or base.a[0] in self.plain
        ty = self.type_of(base)
        if ty and ty[0] == 'dict':
            return True
        if ty and ty[0] == 'cls' and ty[1].qualname in self.plain:
            return True
        return base.op in ('attr', 'param', 'item', 'lv', 'lo', 'glob', 'cattr') and not (ty and ty[0] == 'cls')

    def mutate(self, s, fr, node, base, name, args, kws):
        """effectful method; modifies s in place and returns the result term"""
        self.emit(s, fr, node, 'mut', base, name, args, kws)
        n = s.ver.get(base, 0)
        self.bump(s, base)
        if base in s.cont:
            p = s.cont[base]
            if name in ('append', 'add') and len(args) == 1:
                s.cont[base] = p + (('append', args[0]),)
            elif name in ('extend', 'update') and len(args) == 1:
                s.cont[base] = p + (('extend', args[0]),)
            elif name == 'clear':
                s.cont[base] = (('lit', ()),)
            elif name == 'sort':
                kw = dict(kws)
                k = kw.get('key', NONE)
                if k is mk('arg'):
                    k = NONE
                s.cont[base] = p + (('order', ('sorted', k, kw.get('reverse', FALSE))),)
            elif name == 'reverse':
                s.cont[base] = p + (('order', ('reversed',)),)
            else:
                s.cont[base] = p + (('mut', name, args),)
        for hk in [x for x in s.heap if x[0] is base and isinstance(x[1], tuple)]:
            del s.heap[hk]
        if name in ('append', 'add', 'extend', 'insert', 'clear', 'sort', 'reverse', 'update', 'remove', 'discard'):
            return NONE
        return mk('mres', base, name, args, n)


# ---------------------------------------------------------------------- helpers
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
EXT_ALIAS = {}


def simple_const(v):
    """literal constants of the source -> (term,) or None"""
    if isinstance(v, ast.Constant) and not isinstance(v.value, (bytes, complex)) and v.value is not Ellipsis:
        return (const(v.value),)
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
        k = simple_const(v.operand)
        if k and num(k[0]):
            return (const(-k[0].a[0]),)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('float', 'int') and len(v.args) == 1 and not v.keywords:
        k = simple_const(v.args[0])
        if k and num(k[0]):
            return (const(float(k[0].a[0]) if v.func.id == 'float' else int(k[0].a[0])),)
    return None


class Positions:
    """the target of the loop is bound to the position; the containers hold the element there"""
    def __init__(self, conts):
        self.conts = conts

    def __call__(self, el, pos):
        return pos


def alt_ok(alt, a, pol):
    for x, p in alt:
        if x is a and p != pol:
            return False
    return True


def simplify_alts(alts):
    alts = set(alts)
    changed = True
    while changed:
        changed = False
        for x in list(alts):
            for y in list(alts):
                if x is y or x not in alts or y not in alts:
                    continue
                if x < y:
                    alts.discard(y)
                    changed = True
                    continue
                dx, dy = x - y, y - x
                if len(dx) == 1 and len(dy) == 1:
                    (ax, px), = dx
                    (ay, py), = dy
                    if ax is ay and px != py:
                        alts.discard(x)
                        alts.discard(y)
                        alts.add(x & y)
                        changed = True
                elif len(dx) == 1 and dx and len(dy) >= 1:
                    (ax, px), = dx
                    if (ax, not px) in y:
                        # x = c + {a}; y = c' + {not a} with c <= c': drop the literal from y
                        if x - {(ax, px)} <= y - {(ax, not px)}:
                            alts.discard(y)
                            alts.add(y - {(ax, not px)})
                            changed = True
    return alts


def join_guards(ss):
    items = [frozenset(s.guards.items()) for s in ss]
    common = frozenset.intersection(*items)
    alts = simplify_alts([i - common for i in items])
    r = ss[0].fork()
    if len(alts) == 1:
        (a,) = alts
        r.guards = dict(common | a)
    elif frozenset() in alts:
        r.guards = dict(common)
    else:
        # flatten nested disjunctions
        flat = set()
        for a in alts:
            ors = [l for l in a if l[0].op == 'or' and l[1]]
            if len(ors) == 1:
                rest = a - {ors[0]}
                for b in ors[0][0].a[0]:
                    flat.add(rest | b)
            else:
                flat.add(a)
        flat = simplify_alts(flat)
        if len(flat) == 1:
            (a,) = flat
            r.guards = dict(common | a)
        elif frozenset() in flat:
            r.guards = dict(common)
        else:
            r.guards = dict(common)
            r.guards[mk('or', frozenset(flat))] = True
    # keep the larger occurrence counters so that objects made later stay distinct
    for s in ss[1:]:
        for k, v in s.cnt.items():
            if r.cnt.get(k, 0) < v:
                r.cnt[k] = v
        for k, v in s.ver.items():
            if isinstance(v, int) and r.ver.get(k, 0) < v:
                r.ver[k] = v
    return r


def known_before(t, s0):
    """did the object exist before the loop (as opposed to being made inside the iteration)?"""
    if t.op == 'new':
        k = (t.a[0], t.a[1])
        return t.a[2] < s0.cnt.get(k, 0)
    if t.op in ('elem', 'idx'):
        return False
    for s in subterms(t):
        if s.op == 'new' and s.a[2] >= s0.cnt.get((s.a[0], s.a[1]), 0):
            return False
    return True


def pure_for(ev, obj):
    if ev.a[0] == 'mut' and ev.a[1][0] is obj:
        return True
    if ev.a[0] == 'store' and ev.a[1][0] is obj:
        return True
    if ev.a[0] == 'loop':
        return all(pure_for(e, obj) for lp in ev.a[1][0].a[3] for e in lp.a[1]) and \
            all(lp.a[2].a[0] in ('fall', 'continue') for lp in ev.a[1][0].a[3])
    return False


def assigned_names(n):
    out = set()
    body = list(n.body)
    if isinstance(n, (ast.For, ast.AsyncFor)):
        body = [n.target] + body
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(x, ast.FunctionDef):
                out.add(x.name)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        todo.extend(ast.iter_child_nodes(x))
    return out


def while_as_for(n):
    """Index and iterator loops written with while -> the equivalent for statement, or None."""
    # while True: try: x = next(it) except StopIteration: break; body
    if isinstance(n.test, ast.Constant) and n.test.value is True and n.body and not n.orelse:
        t = n.body[0]
        if isinstance(t, ast.Try) and len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.handlers) == 1 \
                and not t.orelse and not t.finalbody:
            a, h = t.body[0], t.handlers[0]
            if isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == 'next' \
                    and len(a.value.args) == 1 and h.type is not None and dotted_of(h.type) == 'StopIteration' \
                    and len(h.body) == 1 and isinstance(h.body[0], ast.Break) and len(a.targets) == 1:
                f = ast.For(a.targets[0], a.value.args[0], n.body[1:] or [ast.Pass()], [])
                ast.copy_location(f, n)
                ast.fix_missing_locations(f)
                return f
    # while i < len(xs): ...; i += 1
    if isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and not n.orelse:
        l, op, r = n.test.left, n.test.ops[0], n.test.comparators[0]
        if isinstance(op, ast.Gt):
            l, r = r, l
            op = ast.Lt()
        if isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name) and isinstance(r, ast.Call) \
                and isinstance(r.func, ast.Name) and r.func.id == 'len':
            i = l.id
            last = n.body[-1]

            def is_inc(s):
                if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) \
                        and s.target.id == i and isinstance(s.value, ast.Constant) and s.value.value == 1:
                    return True
                return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and s.targets[0].id == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) \
                    and isinstance(s.value.left, ast.Name) and s.value.left.id == i \
                    and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1
            if not is_inc(last):
                # x = xs[i]; i += 1; rest  -- increment right after the element is read
                pos = next((k for k, s in enumerate(n.body) if is_inc(s)), None)
                if pos is None:
                    return None
                if any(isinstance(x, ast.Name) and x.id == i for s in n.body[pos + 1:] for x in ast.walk(s)):
                    return None
                body = n.body[:pos] + n.body[pos + 1:]
                pre = n.body[:pos]
                if any(isinstance(x, (ast.Continue,)) for s in pre for x in ast.walk(s)):
                    return None
            else:
                body = n.body[:-1]
                # a continue would skip the increment
                if has_own_continue(body):
                    return None
            if any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Store) for s in body for x in ast.walk(s)):
                return None
            f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [r], []), body or [ast.Pass()], [])
            ast.copy_location(f, n)
            for x in ast.walk(f):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            ast.fix_missing_locations(f)
            return f
    return None


def has_own_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for part in ('body', 'orelse', 'finalbody'):
            if has_own_continue(getattr(s, part, []) or []):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if has_own_continue(h.body):
                return True
    return False
