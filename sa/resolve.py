"""Flow-insensitive types and call resolution used by the whole-program rules."""
import ast
import builtins
import importlib
import symtable

from .loader import ClassInfo, FuncInfo, Module, dotted_of, mangle, walk_own

STD = ('builtins', 'collections', 'collections.abc', 'typing', 'enum', 'abc', 'argparse', 'dataclasses', 'threading', 'logging')
OPEN = object()


def ext_dir(dotted):
    """attribute names of an external base class, None when unknown"""
    mod, _, name = dotted.rpartition('.')
    mod = mod or 'builtins'
    if mod == 'typing':
        al = {'Generic': object, 'Protocol': object, 'NamedTuple': tuple}
        if name in al:
            return set(dir(al[name])) | ({'_fields', '_asdict', '_replace', '_make'} if name == 'NamedTuple' else set())
    if mod not in STD:
        return None
    try:
        o = getattr(importlib.import_module(mod), name)
        o = getattr(o, '__origin__', o)
        return set(dir(o))
    except (ImportError, AttributeError):
        return None


class Resolver:
    def __init__(self, project):
        self.p = project
        self._members = {}
        self.subs = {}
        for c in project.classes.values():
            for b in c.mro():
                self.subs.setdefault(b.qualname, []).append(c)
        self._env = {}

    # -- attributes
    @staticmethod
    def tuple_fields(c):
        """field names of a namedtuple(...) / NamedTuple base, or None"""
        for b in c.node.bases:
            if isinstance(b, ast.Call) and (dotted_of(b.func) or '').split('.')[-1] == 'namedtuple' and len(b.args) > 1:
                try:
                    v = ast.literal_eval(b.args[1])
                except ValueError:
                    return None
                return v.replace(',', ' ').split() if isinstance(v, str) else list(v)
        return None

    def own_members(self, c):
        out = set(c.methods) | set(c.setters) | set(c.attrs) | set(c.annots) | {mangle(c.name, a) for a in c.annots}
        for q in self.p.classes:
            if q.rpartition('.')[0] == c.qualname:
                out.add(self.p.classes[q].name)
        sl = c.attrs.get('__slots__')
        if sl is not None:
            for n in ast.walk(sl):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(mangle(c.name, n.value))
        for f in list(c.methods.values()) + list(c.setters.values()) + list(c.deleters.values()):
            if not f.params:
                continue
            me = f.params[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(mangle(c.name, n.attr))
        return out

    def members(self, c):
        """every attribute an instance can have, or None when that cannot be known"""
        if c.qualname in self._members:
            return self._members[c.qualname]
        self._members[c.qualname] = None
        out = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__annotations__', '__slots__'}
        for k in self.subs.get(c.qualname, [c]):
            for b in k.mro():
                out |= self.own_members(b)
                tf = self.tuple_fields(b)
                if tf is not None:
                    out |= set(tf) | {'_fields', '_asdict', '_replace', '_make'} | set(dir(tuple))
                elif any(isinstance(x, ast.Call) for x in b.node.bases):
                    return None
                if '__getattr__' in b.methods or '__getattribute__' in b.methods:
                    return None
        for b in c.ext_bases():
            d = ext_dir(b)
            if d is None:
                return None
            out |= d
        if c.is_enum:
            out |= {'name', 'value', '__members__', '_value_', '_name_'}
        if c.is_dataclass:
            out |= {'__dataclass_fields__', '__post_init__'}
        self._members[c.qualname] = out
        return out

    # -- types
    def ann_class(self, module, node, cls=None):
        """annotation -> ClassInfo (Optional stripped), None when unknown"""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            d = dotted_of(node.value)
            if d and d.split('.')[-1] == 'Optional':
                return self.ann_class(module, node.slice, cls)
            if d:
                node = node.value          # Generic class
                r = self.p.resolve(module, d)
                return r if isinstance(r, ClassInfo) else None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            parts = [node.left, node.right]
            rest = [x for x in parts if not (isinstance(x, ast.Constant) and x.value is None)]
            return self.ann_class(module, rest[0], cls) if len(rest) == 1 else None
        d = dotted_of(node)
        if d is None:
            return None
        if d == 'Self':
            return cls
        r = self.p.resolve(module, d)
        if r is None and cls is not None and d == cls.name:
            return cls
        return r if isinstance(r, ClassInfo) else None

    def env(self, f):
        """local name -> ClassInfo for names that only ever hold instances of it"""
        if f.qualname in self._env and self._env[f.qualname][0] is f:
            return self._env[f.qualname][1]
        env = {}
        self._env[f.qualname] = (f, env)
        if f.outer is not None:
            env.update(self.env(f.outer))
        a = f.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for x in allp:
            env.pop(x.arg, None)
            c = self.ann_class(f.module, x.annotation, f.cls)
            if c is not None:
                env[x.arg] = c
        if f.cls is not None and f.outer is None and not f.is_static and f.params:
            env[f.params[0]] = ('type', f.cls) if f.is_classmethod else f.cls
            if f.name == '__new__':
                env[f.params[0]] = ('type', f.cls)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env.pop(x.arg, None)
        assigned = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                assigned.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                assigned.setdefault(n.target.id, []).append(('ann', n.annotation))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                assigned.setdefault(n.id, []).append(None if not getattr(n, '_seen', False) else None)
        # a Name Store inside an Assign is counted twice (once with its value): compare counts
        stores = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
        for name, vals in assigned.items():
            real = [v for v in vals if v is not None]
            if len(real) != stores.get(name, 0) or name in [x.arg for x in allp]:
                env.pop(name, None)
                continue
            ts = set()
            for v in real:
                if isinstance(v, tuple):
                    ts.add(self.ann_class(f.module, v[1], f.cls))
                elif isinstance(v, ast.Constant) and v.value is None:
                    continue
                else:
                    ts.add(self.type_of(v, f, env))
            if len(ts) == 1 and isinstance(list(ts)[0], ClassInfo):
                env[name] = list(ts)[0]
            else:
                env.pop(name, None)
        # parameters that are reassigned: keep only when every value has the same type
        for x in allp:
            if x.arg in stores and x.arg in env:
                vals = [v for v in assigned.get(x.arg, []) if v is not None]
                ts = {self.type_of(v, f, {}) if not isinstance(v, tuple) else None for v in vals}
                if len(vals) != stores[x.arg] or ts != {env[x.arg]}:
                    env.pop(x.arg, None)
        return env

    def field_class(self, c, name):
        """class of an instance attribute when every assignment agrees"""
        ts = set()
        for b in c.mro():
            if name in b.annots and name not in b.methods:
                ts.add(self.ann_class(b.module, b.annots[name], b))
            for f in list(b.methods.values()) + list(b.setters.values()):
                if not f.params or f.is_static:
                    continue
                for n in walk_own(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0] and mangle(b.name, t.attr) == name:
                            if isinstance(n, ast.AnnAssign):
                                ts.add(self.ann_class(b.module, n.annotation, b))
                            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
                                continue
                            elif isinstance(n, ast.Assign):
                                k = ('fc', c.qualname, name)
                                if k in self._env:
                                    continue
                                self._env[k] = True
                                ts.add(self.type_of(n.value, f, self.env(f)))
                                del self._env[k]
                            else:
                                ts.add(None)
        ts = {t for t in ts}
        return list(ts)[0] if len(ts) == 1 else None

    def type_of(self, e, f, env=None):
        """-> ClassInfo (instance), ('type', ClassInfo), FuncInfo, Module or None"""
        env = self.env(f) if env is None else env
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if is_local(f, e.id):
                return None
            r = self.p.resolve_name(f.module, e.id)
            if isinstance(r, ClassInfo):
                return ('type', r)
            return r if isinstance(r, (FuncInfo, Module)) else None
        if isinstance(e, ast.Attribute):
            b = self.type_of(e.value, f, env)
            nm = mangle(f.cls.name if f.cls else None, e.attr)
            if isinstance(b, Module):
                r = self.p.member(b, e.attr)
                if isinstance(r, ClassInfo):
                    return ('type', r)
                return r if isinstance(r, (FuncInfo, Module)) else None
            if isinstance(b, ClassInfo):
                g = b.find(nm)
                if g is not None:
                    if g.is_property:
                        return self.ann_class(g.module, g.node.returns, g.cls)
                    return ('bound', g, b)
                return self.field_class(b, nm)
            if isinstance(b, tuple) and b[0] == 'type':
                g = b[1].find(nm)
                if g is not None:
                    return ('bound', g, b[1]) if g.is_classmethod else g
                q = self.p.classes.get(b[1].qualname + '.' + e.attr)
                return ('type', q) if q is not None else None
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and f.cls is not None and f.params:
                return ('super', f.cls)
            t = self.type_of(e.func, f, env)
            if isinstance(t, tuple) and t[0] == 'type':
                return t[1]
            g = t if isinstance(t, FuncInfo) else t[1] if isinstance(t, tuple) and t[0] == 'bound' else None
            if isinstance(g, FuncInfo) and not g.is_generator:
                c = self.ann_class(g.module, g.node.returns, g.cls)
                return c
            return None
        if isinstance(e, ast.IfExp):
            a, b = self.type_of(e.body, f, env), self.type_of(e.orelse, f, env)
            return a if a is b else None
        return None

    def callee(self, call, f):
        """-> (FuncInfo, bound?, ClassInfo constructed or None) or None"""
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f.cls is not None:
            nm = mangle(f.cls.name, fn.attr)
            for b in f.cls.mro()[1:]:
                if nm in b.methods:
                    return b.methods[nm], True, None
            return None
        t = self.type_of(fn, f)
        if isinstance(t, FuncInfo):
            if isinstance(fn, ast.Attribute) and isinstance(self.type_of(fn.value, f), ClassInfo):
                return t, not t.is_static, None
            return t, False, None
        if isinstance(t, tuple) and t[0] == 'bound':
            return t[1], not t[1].is_static, None
        if isinstance(t, tuple) and t[0] == 'type':
            g = t[1].find('__init__')
            return g, True, t[1]
        return None


def is_local(f, name):
    g = f
    while g is not None:
        a = g.node.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])]:
            return True
        for n in walk_own(g.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                return True
        g = g.outer
    return False


def bind_error(call, g, bound, ctor=None):
    """reason why the call does not fit the signature of g, or None"""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if g is None:
        if ctor is not None and not ctor.ext_bases() and not ctor.is_dataclass and (call.args or call.keywords) and ctor.find('__new__') is None:
            return 'the class takes no arguments'
        return None
    a = g.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos:
        pos = pos[1:]
    kwo = [x.arg for x in a.kwonlyargs]
    if len(call.args) > len(pos) and not a.vararg:
        return '%d positional arguments given, at most %d accepted' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg not in pos and k.arg not in kwo and not a.kwarg:
            return 'no parameter named %s' % k.arg
        if k.arg in given:
            return 'parameter %s given twice' % k.arg
        given.add(k.arg)
    npos_all = [x.arg for x in a.posonlyargs + a.args]
    req = npos_all[:len(npos_all) - len(a.defaults)]
    if bound and req:
        req = req[1:]
    miss = [r for r in req if r not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    if miss:
        return 'required parameter %s missing' % ', '.join(miss)
    return None


def undefined_names(module, project):
    """-> [(name, scope name, line)]"""
    try:
        top = symtable.symtable(module.src, module.relpath, 'exec')
    except SyntaxError:
        return
    bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    bound |= set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__class__', '__qualname__', '__module__'}
    if any(s not in project.modules for s in module.star):
        return
    for s in module.star:
        bound |= set(project.modules[s].functions) | set(project.modules[s].classes) | set(project.modules[s].globals) | set(project.modules[s].imports)

    def visit(t):
        if t.get_type() == 'function' or t.get_type() == 'class':
            for s in t.get_symbols():
                if s.is_global() and s.is_assigned():
                    bound.add(s.get_name())
        for c in t.get_children():
            visit(c)
    visit(top)

    def check(t):
        for s in t.get_symbols():
            if s.is_referenced() and s.get_name() not in bound and (s.is_global() or t.get_type() == 'module'):
                yield s.get_name(), t.get_name(), t.get_lineno()
        for c in t.get_children():
            yield from check(c)
    yield from check(top)
