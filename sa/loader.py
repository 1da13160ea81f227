"""Source model of the repository: modules, classes, functions, imports.

Everything here reads source text only (ast.parse); nothing of the repository is imported or run.
"""
import ast
import os

from .normal import canonical_names, normalise, respell

BUILTINS = set(dir(__import__('builtins')))


class AnalysisBroken(Exception):
    """An anchor the rule needs is gone or the source could not be analysed: no verdict."""


class Unproved(AnalysisBroken):
    """The entry point is there, but what it does is no longer something the rule can prove: reported as a violation."""


class FuncInfo:
    def __init__(self, module, cls, node, qualname, outer=None):
        self.module, self.cls, self.node, self.qualname, self.outer = module, cls, node, qualname, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = [deco_name(d) for d in getattr(node, 'decorator_list', [])]
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_property = any(d in ('property', 'cached_property', 'functools.cached_property')
                               for d in self.decorators)
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.is_deleter = any(d.endswith('.deleter') for d in self.decorators)
        self.is_cached = any(d in ('cache', 'functools.cache', 'lru_cache', 'functools.lru_cache', 'cached_property',
                                   'functools.cached_property')
                             for d in self.decorators)
        self.is_abstract = any(d.endswith('abstractmethod') for d in self.decorators)
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def loc(self, node=None):
        n = node or self.node
        return '%s:%d' % (self.module.relpath, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<fn %s>' % self.qualname


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return dotted_of(d) or ''


def dotted_of(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_of(n.value)
        return b + '.' + n.attr if b else None
    return None


def walk_own(node):
    """Nodes of a function body without those of nested functions, lambdas and classes."""
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        own = getattr(node, '_own', None)
        if own is None or own[0] != len(node.body):
            node._own = own = (len(node.body), list(walk_body(list(node.body))))
        return iter(own[1])
    return walk_body(list(ast.iter_child_nodes(node)))


def walk_body(todo):
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, qualname):
        self.module, self.node, self.qualname = module, node, qualname
        self.name = node.name
        self.bases = []          # resolved later: ClassInfo or dotted external name
        self.methods = {}        # name -> FuncInfo (last plain definition / getter)
        self.setters = {}
        self.deleters = {}
        self.attrs = {}          # class level assignments: name -> value node
        self.annots = {}         # class level annotations
        self.decorators = [deco_name(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split('.')[-1] == 'dataclass' for d in self.decorators)

    def mro(self):
        out, seen = [], set()

        def go(c):
            if isinstance(c, str):
                return
            if c.qualname in seen:
                return
            seen.add(c.qualname)
            out.append(c)
            for b in c.bases:
                go(b)
        go(self)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out

    def find(self, name, table='methods'):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    @property
    def is_enum(self):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for b in self.ext_bases())

    def __repr__(self):
        return '<class %s>' % self.qualname


class Module:
    def __init__(self, name, path, relpath, src, tree):
        self.name, self.path, self.relpath, self.src, self.tree = name, path, relpath, src, tree
        self.imports = {}    # local name -> dotted target
        self.star = []
        self.functions = {}
        self.classes = {}
        self.globals = {}    # name -> value node (last assignment)
        self.import_nodes = []

    def __repr__(self):
        return '<module %s>' % self.name


def mangle(clsname, name):
    if clsname and name.startswith('__') and not name.endswith('__'):
        return '_' + clsname.lstrip('_') + name
    return name


class Project:
    def __init__(self, root, files=None):
        self.root = root
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.class_by_name = {}
        rels = list(files or self.discover())
        self.trees = {rel: self.parse(rel) for rel in rels}
        names = canonical_names([t for _, t in self.trees.values()])
        for rel in rels:
            respell(self.trees[rel][1], names)
            self.load(rel)
        if not self.modules:
            raise AnalysisBroken('no source found under ' + root)
        for c in self.classes.values():
            self._bases(c)

    def discover(self):
        out = []
        for d, dirs, fs in os.walk(self.root):
            dirs[:] = sorted(x for x in dirs if not x.startswith('.') and x not in (
                '__pycache__', 'build', 'dist', 'venv', 'node_modules', 'tests'))
            for f in sorted(fs):
                if f.endswith('.py') and f != 'setup.py' and not f.startswith('test_') and f != 'conftest.py':
                    out.append(os.path.relpath(os.path.join(d, f), self.root))
        return out

    def parse(self, rel):
        try:
            src = open(os.path.join(self.root, rel), encoding='utf-8').read()
            return src, normalise(ast.parse(src))
        except (OSError, SyntaxError, ValueError) as e:
            raise AnalysisBroken('cannot parse %s: %s' % (rel, e))

    def load(self, rel):
        path = os.path.join(self.root, rel)
        src, tree = self.trees[rel]
        name = rel[:-3].replace(os.sep, '.')
        is_pkg = False
        if name.endswith('.__init__'):
            name, is_pkg = name[:-9], True
        elif name == '__init__':
            name = '__root__'
        m = Module(name, path, rel, src, tree)
        m.is_pkg = is_pkg
        self.modules[name] = m
        self._collect(m, tree.body, None, name)
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                m.import_nodes.append(n)
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                m.import_nodes.append(n)
                base = self.rel_base(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.star.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + '.' + a.name

    @staticmethod
    def rel_base(m, n):
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def _collect(self, m, body, cls, prefix, outer=None):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + '.' + n.name
                f = FuncInfo(m, cls, n, q, outer)
                if cls is not None and outer is None:
                    key = mangle(cls.name, n.name)
                    if f.is_setter:
                        cls.setters[key] = f
                        self.functions[q + '.setter'] = f
                        f.qualname = q + '.setter'
                    elif f.is_deleter:
                        cls.deleters[key] = f
                        f.qualname = q + '.deleter'
                        self.functions[f.qualname] = f
                    else:
                        cls.methods[key] = f
                        self.functions[q] = f
                elif outer is None:
                    m.functions[n.name] = f
                    self.functions[q] = f
                else:
                    self.functions[q] = f
                self._collect(m, n.body, cls, f.qualname + '.<locals>', f)
            elif isinstance(n, ast.ClassDef):
                q = prefix + '.' + n.name
                c = ClassInfo(m, n, q)
                if outer is None:
                    self.classes[q] = c
                    if cls is None:
                        m.classes[n.name] = c
                    self.class_by_name.setdefault(n.name, []).append(c)
                self._collect(m, n.body, c, q, None if outer is None else outer)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if cls is not None and outer is None:
                            cls.attrs[mangle(cls.name, t.id)] = n.value
                        elif outer is None:
                            m.globals[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if cls is not None and outer is None:
                    cls.annots[n.target.id] = n.annotation
                    if n.value is not None:
                        cls.attrs[n.target.id] = n.value
                elif outer is None and n.value is not None:
                    m.globals[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ('body', 'orelse', 'finalbody'):
                    self._collect(m, getattr(n, part, []) or [], cls, prefix, outer)
                for h in getattr(n, 'handlers', []) or []:
                    self._collect(m, h.body, cls, prefix, outer)

    def _bases(self, c):
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = dotted_of(b)
            if d is None:
                continue
            r = self.resolve(c.module, d)
            if isinstance(r, ClassInfo):
                if r is not c:
                    c.bases.append(r)
            else:
                c.bases.append(r if isinstance(r, str) else d)

    # -- name resolution -------------------------------------------------
    def resolve(self, module, dotted):
        """Dotted local name -> ClassInfo | FuncInfo | Module | ('global', module, name) | external dotted str | None."""
        head, _, rest = dotted.partition('.')
        obj = self.resolve_name(module, head)
        if obj is None:
            return None
        for part in (rest.split('.') if rest else []):
            obj = self.member(obj, part)
            if obj is None:
                return None
        return obj

    def resolve_name(self, module, name, seen=()):
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return module.functions[name]
        if name in module.globals and name not in module.imports:
            return ('global', module, name)
        if name in module.imports:
            return self.abs(module.imports[name])
        if name in module.globals:
            return ('global', module, name)
        for s in module.star:
            if s in self.modules and s not in seen:
                r = self.resolve_name(self.modules[s], name, seen + (s,))
                if r is not None:
                    return r
        if name in BUILTINS:
            return 'builtins.' + name
        return None

    def abs(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        head, _, tail = dotted.rpartition('.')
        if head:
            if head in self.modules:
                m = self.modules[head]
                r = self.resolve_name(m, tail)
                if r is not None and r != 'builtins.' + tail:
                    return r
                return None if self.is_internal(dotted) else dotted
            if self.is_internal(head):
                o = self.abs(head)
                if o is not None:
                    return self.member(o, tail)
                return None
        if self.is_internal(dotted) and not any(k.startswith(dotted + '.') for k in self.modules):
            return None
        return dotted

    def is_internal(self, dotted):
        top = dotted.split('.')[0]
        return any(k == top or k.startswith(top + '.') for k in self.modules)

    def member(self, obj, part):
        if isinstance(obj, Module):
            r = self.resolve_name(obj, part)
            if r is not None and r != 'builtins.' + part:
                return r
            return self.modules.get(obj.name + '.' + part)
        if isinstance(obj, ClassInfo):
            f = obj.find(part)
            if f is not None:
                return f
            a = obj.find_attr(part)
            if a is not None:
                return ('cattr', a[0], part)
            return None
        if isinstance(obj, str):
            return obj + '.' + part
        return None

    def func(self, qualname):
        f = self.functions.get(qualname)
        if f is None:
            raise AnalysisBroken('anchor function %s is gone' % qualname)
        return f

    def cls(self, qualname):
        c = self.classes.get(qualname)
        if c is None:
            raise AnalysisBroken('anchor class %s is gone' % qualname)
        return c
