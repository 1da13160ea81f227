"""Constant folding of tables: the value of a module or class level expression made of literals.

Only literals, enumerations, containers, comprehensions and pure helper functions of the repository are followed; anything
else has no constant value (NoValue) and is reported as such.
"""
import ast
import itertools
import operator


class NoValue(Exception):
    pass


class Member:
    """A member of an enumeration; members of equal value are one member."""

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls, self.name)


class EnumType:
    def __init__(self, name, members, canonical):
        self.name, self.members, self.canonical = name, members, canonical      # name -> Member, in order of definition


class Return(Exception):
    def __init__(self, v):
        self.v = v


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
       ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Pow: operator.pow}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
       ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Is: operator.is_, ast.IsNot: operator.is_not}
PURE = {'frozenset': frozenset, 'set': set, 'list': list, 'tuple': tuple, 'dict': dict, 'len': len, 'sum': sum, 'min': min, 'max': max, 'sorted': sorted,
        'range': range, 'zip': lambda *a: list(zip(*a)), 'enumerate': lambda *a: list(enumerate(*a)), 'reversed': lambda x: list(reversed(x)),
        'int': int, 'str': str, 'float': float, 'abs': abs, 'types.MappingProxyType': dict, 'MappingProxyType': dict, 'any': any, 'all': all,
        'itertools.accumulate': lambda *a, **k: list(itertools.accumulate(*a, **k)), 'itertools.chain': lambda *a: list(itertools.chain(*a)),
        'map': lambda f, *a: list(map(f, *a)), 'dict.fromkeys': dict.fromkeys, 'round': round}
METHODS = {dict: {'items', 'keys', 'values', 'get', 'copy', 'update', 'setdefault', 'pop'}, str: {'upper', 'lower', 'split', 'strip', 'replace', 'join', 'startswith', 'endswith', 'format', 'title', 'capitalize'},
           list: {'append', 'extend', 'index', 'copy', 'insert', 'count', 'reverse', 'sort'}, tuple: {'index', 'count'}, set: {'add', 'union', 'update', 'copy'}, frozenset: {'union', 'copy'}}


class Folder:
    """Values of the names of one module."""

    def __init__(self, project, module, fuel=200000):
        self.p, self.m = project, module
        self.env = {}
        self.classes = {}
        self.fuel = fuel
        self.where = {}

    def module_env(self):
        for s in self.m.tree.body:
            self.top(s)
        return self

    def top(self, s):
        if isinstance(s, ast.ClassDef):
            self.klass(s)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = s
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            try:
                self.stmt(s, self.env)
            except NoValue:
                pass

    def klass(self, c):
        bases = [ast.unparse(b).split('.')[-1] for b in c.bases]
        if any(b in ('Enum', 'IntEnum', 'StrEnum') for b in bases):
            members, by_value, env = {}, [], dict(self.env)
            for s in c.body:
                if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    try:
                        v = self.expr(s.value, env)
                    except NoValue:
                        continue
                    for t in s.targets:
                        if t.id.startswith('_'):
                            continue
                        m = next((m for m in by_value if m.value == v), None)
                        if m is None:
                            m = Member(c.name, t.id, v)
                            by_value.append(m)
                        members[t.id] = m
                        env[t.id] = v
            self.env[c.name] = EnumType(c.name, members, by_value)
            return
        ns = ClassScope(self.env)
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                dict.__setitem__(ns, s.name, s)
                continue
            if isinstance(s, ast.ClassDef) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            try:
                self.stmt(s, ns)
                for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                    if isinstance(t, ast.Name):
                        self.where.setdefault((c.name, t.id), '%s:%d' % (self.m.relpath, s.lineno))
            except NoValue:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        dict.pop(ns, n.id, None)
        self.classes[c.name] = ns

    # -- statements
    def stmt(self, s, env):
        self.burn()
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.expr(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.expr(ast.copy_location(retarget(s.target), s), env)
            v = self.expr(s.value, env)
            op = BIN.get(type(s.op))
            if op is None:
                raise NoValue(ast.unparse(s))
            self.bind(s.target, self.guard(op, cur, v), env)
        elif isinstance(s, ast.For):
            for x in self.items(self.expr(s.iter, env)):
                self.bind(s.target, x, env)
                for b in s.body:
                    self.stmt(b, env)
        elif isinstance(s, ast.If):
            for b in (s.body if self.expr(s.test, env) else s.orelse):
                self.stmt(b, env)
        elif isinstance(s, ast.Return):
            raise Return(self.expr(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.expr(s.value, env)
        elif isinstance(s, (ast.Pass, ast.Assert)):
            pass
        else:
            raise NoValue(type(s).__name__)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if len(vs) != len(t.elts):
                raise NoValue('unpacking')
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, env)
            self.guard(operator.setitem, b, self.expr(t.slice, env), v)
        else:
            raise NoValue(ast.unparse(t))

    def burn(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise NoValue('too long')

    def items(self, v):
        if isinstance(v, EnumType):
            return list(v.canonical)
        try:
            return list(v)
        except TypeError:
            raise NoValue('not iterable')

    def guard(self, f, *a, **k):
        try:
            return f(*a, **k)
        except NoValue:
            raise
        except Exception as e:
            raise NoValue('%s: %s' % (type(e).__name__, e))

    # -- expressions
    def expr(self, n, env):
        self.burn()
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id in ('True', 'False', 'None'):
                return {'True': True, 'False': False, 'None': None}[n.id]
            if n.id in PURE:
                return PURE[n.id]
            raise NoValue(n.id)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    out += self.items(self.expr(e.value, env))
                else:
                    out.append(self.expr(e, env))
            return {ast.List: list, ast.Tuple: tuple, ast.Set: lambda x: self.guard(set, x)}[type(n)](out)
        if isinstance(n, ast.Dict):
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    self.guard(d.update, self.expr(v, env))
                else:
                    self.guard(operator.setitem, d, self.expr(k, env), self.expr(v, env))
            return d
        if isinstance(n, ast.UnaryOp):
            v = self.expr(n.operand, env)
            return self.guard({ast.USub: operator.neg, ast.Not: operator.not_, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)], v)
        if isinstance(n, ast.BinOp):
            op = BIN.get(type(n.op))
            if op is None:
                raise NoValue(ast.unparse(n))
            return self.guard(op, self.expr(n.left, env), self.expr(n.right, env))
        if isinstance(n, ast.Compare):
            left = self.expr(n.left, env)
            for o, r in zip(n.ops, n.comparators):
                right = self.expr(r, env)
                if not self.guard(CMP[type(o)], left, right):
                    return False
                left = right
            return True
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = self.expr(x, env)
                if bool(v) != isinstance(n.op, ast.And):
                    return v
            return v
        if isinstance(n, ast.IfExp):
            return self.expr(n.body if self.expr(n.test, env) else n.orelse, env)
        if isinstance(n, ast.Attribute):
            dotted = ast.unparse(n)
            if dotted in PURE:
                return PURE[dotted]
            b = self.expr(n.value, env)
            if isinstance(b, EnumType):
                if n.attr in b.members:
                    return b.members[n.attr]
                if n.attr == '__members__':
                    return dict(b.members)
            if isinstance(b, Member) and n.attr in ('value', 'name', '_value_', '_name_'):
                return getattr(b, n.attr.strip('_'))
            if isinstance(b, ClassScope) and dict.__contains__(b, n.attr):
                return b[n.attr]
            for t, names in METHODS.items():
                if type(b) is t and n.attr in names:
                    return getattr(b, n.attr)
            raise NoValue(dotted)
        if isinstance(n, ast.Subscript):
            b = self.expr(n.value, env)
            if isinstance(n.slice, ast.Slice):
                i = slice(*[None if x is None else self.expr(x, env) for x in (n.slice.lower, n.slice.upper, n.slice.step)])
            else:
                i = self.expr(n.slice, env)
            if isinstance(b, EnumType):
                return self.guard(operator.getitem, b.members, i)
            return self.guard(operator.getitem, b, i)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self.comp(n, 0, Local(env), out)
            if isinstance(n, ast.DictComp):
                return self.guard(dict, out)
            return self.guard(set, out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.Lambda):
            return lambda *a: self.expr(n.body, Local(env, dict(zip([x.arg for x in n.args.args], a))))
        if isinstance(n, ast.JoinedStr):
            return ''.join(v.value if isinstance(v, ast.Constant) else str(self.expr(v.value, env)) for v in n.values)
        if isinstance(n, ast.Call):
            f = self.expr(n.func, env)
            args = []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args += self.items(self.expr(a.value, env))
                else:
                    args.append(self.expr(a, env))
            kw = {}
            for k in n.keywords:
                if k.arg is None:
                    kw.update(self.expr(k.value, env))
                else:
                    kw[k.arg] = self.expr(k.value, env)
            if isinstance(f, ast.FunctionDef):
                return self.call(f, args, kw)
            if isinstance(f, EnumType):
                m = next((m for m in f.canonical if args and m.value == args[0]), None)
                if m is None:
                    raise NoValue(ast.unparse(n))
                return m
            args = [list(a.canonical) if isinstance(a, EnumType) else a for a in args]
            if callable(f):
                return self.guard(f, *args, **kw)
        raise NoValue(type(n).__name__)

    def comp(self, n, i, env, out):
        if i == len(n.generators):
            out.append((self.expr(n.key, env), self.expr(n.value, env)) if isinstance(n, ast.DictComp) else self.expr(n.elt, env))
            return
        g = n.generators[i]
        for x in self.items(self.expr(g.iter, env)):
            self.bind(g.target, x, env)
            if all(self.expr(c, env) for c in g.ifs):
                self.comp(n, i + 1, env, out)

    def call(self, f, args, kw):
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = Local(self.env)
        for x, v in zip(names[len(names) - len(a.defaults):], a.defaults):
            loc[x] = self.expr(v, self.env)
        for x, v in zip(names, args):
            loc[x] = v
        loc.update(kw)
        try:
            for s in f.body:
                self.stmt(s, loc)
        except Return as r:
            return r.v
        return None


def retarget(t):
    return ast.parse(ast.unparse(t), mode='eval').body


class Local(dict):
    def __init__(self, outer, own=()):
        super().__init__(own)
        self.outer = outer

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.outer

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else self.outer[k]


class ClassScope(Local):
    pass


def fold_module(project, qual):
    m = project.modules[qual]
    return Folder(project, m).module_env()
