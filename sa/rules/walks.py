"""X07: no loop changes the size of the collection it walks.

A may-alias analysis over access paths.  Every local name stands for a set of access paths (`self._x`, a parameter, a
fresh object), followed through the statements in order.  A loop walks the paths of its iterable directly unless it is
a copy (list, sorted, ...); a function summary says which paths of its arguments a call adds to, removes from, walks
and hands back.  A conflict is a change of a path the loop still walks that is not followed by leaving the loop."""
import ast

from ..loader import ClassInfo, FuncInfo, dotted_of, mangle
from ..resolve import Resolver
from . import prop

RESIZE = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'remove', 'pop', 'popleft', 'clear', 'add', 'discard', 'update', 'popitem',
          'setdefault', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__delitem__', 'add_node', 'remove_node',
          'add_edge', 'remove_edge', 'add_nodes_from', 'remove_nodes_from', 'add_edges_from', 'remove_edges_from', 'move_to_end'}
SHRINK = {'remove', 'discard', 'pop', 'popleft', 'popitem', 'clear', 'remove_node', 'remove_edge', '__delitem__'}
EDGES = {'add_edge', 'remove_edge', 'add_edges_from', 'remove_edges_from', 'add_weighted_edges_from'}
ORDER = {'sort', 'reverse', 'rotate'}
LIVE = {'keys', 'values', 'items', '__iter__', 'adj'}     # views of the thing itself
WRAP = {'iter', 'enumerate', 'reversed', 'zip', 'map', 'filter', 'chain', 'islice', 'cycle', 'takewhile', 'dropwhile', 'pairwise', 'accumulate'}


class Walks:
    def __init__(self, p, in_scope):
        self.p, self.r = p, Resolver(p)
        self.fs = [f for f in p.functions.values() if in_scope(f.module) and isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef))]
        self.by_name = {}
        for f in self.fs:
            if f.cls is not None:
                self.by_name.setdefault(f.name, []).append(f)
        self.sum = {f.qualname: Summary() for f in self.fs}
        self.calls = 0
        for _ in range(12):
            changed = False
            self.calls = 0
            self.found = []
            self.count = {}
            for f in self.fs:
                s = Body(self, f).run()
                if s != self.sum[f.qualname]:
                    self.sum[f.qualname] = s
                    changed = True
            if not changed:
                break

    def targets(self, f, call):
        """[(function, receiver expression or None)] a call may reach"""
        got = self.r.callee(call, f)
        fn = call.func
        if got is not None and got[0] is not None:
            g, bound, made = got
            if made is not None:
                return []
            if bound and isinstance(fn, ast.Attribute):
                t = self.r.type_of(fn.value, f)
                res = [g]
                if isinstance(t, ClassInfo):
                    for k in self.r.subs.get(t.qualname, [t]):
                        h = k.find(g.name)
                        if h is not None and h not in res:
                            res.append(h)
                recv = fn.value if not (isinstance(fn.value, ast.Call) and dotted_of(fn.value.func) == 'super') else ast.Name(id=f.params[0], ctx=ast.Load()) if f.params else None
                return [(h, recv) for h in res]
            return [(g, None)]
        return []


class Summary:
    def __init__(self):
        self.resizes, self.walks, self.returns, self.pairs = set(), set(), set(), set()
        self.shrinks = set()

    def __eq__(self, o):
        return (self.resizes, self.walks, self.returns, self.pairs, self.shrinks) == (o.resizes, o.walks, o.returns, o.pairs, o.shrinks)


FRESH = 'fresh'


class Body:
    """one pass over a function"""

    def __init__(self, w, f):
        self.w, self.f = w, f
        self.s = Summary()
        self.active = []                    # [(paths walked, loop node, key names, is a mapping)]
        self.params = set(f.params)
        a = f.node.args
        for x in (a.vararg, a.kwarg):
            if x:
                self.params.add(x.arg)
        self.n = 0

    def run(self):
        env = {x: {(x,)} for x in self.params}
        self.block(self.f.node.body, env)
        return self.s

    # -- access paths
    def paths(self, e, env):
        """access paths an expression may stand for; empty: a new object"""
        f = self.f
        if isinstance(e, ast.Name):
            if e.id in env:
                return set(env[e.id])
            return {('::' + e.id,)}
        if isinstance(e, ast.Attribute):
            nm = mangle(f.cls.name if f.cls else None, e.attr)
            t = self.w.r.type_of(e.value, f)
            base = self.paths(e.value, env)
            if isinstance(t, ClassInfo):
                g = t.find(nm)
                if g is not None and g.is_property:
                    return {r for q in self.w.sum.get(g.qualname, Summary()).returns for r in self.placed(q, {g.params[0]: base})}
            return {b + (nm,) for b in base if len(b) < 6}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            return {b + ('[%s]' % ast.unparse(e.slice),) for b in self.paths(e.value, env) if len(b) < 6}
        if isinstance(e, ast.IfExp):
            return self.paths(e.body, env) | self.paths(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.paths(v, env)
            return out
        if isinstance(e, ast.NamedExpr):
            return self.paths(e.value, env)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'cast' and len(e.args) == 2:
                return self.paths(e.args[1], env)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault') and e.args and not isinstance(self.w.r.type_of(e.func.value, f), ClassInfo):
                return {b + ('[%s]' % ast.unparse(e.args[0]),) for b in self.paths(e.func.value, env) if len(b) < 6}
            out = set()
            for g, recv in self.w.targets(f, e):
                if g.is_generator or g.qualname not in self.w.sum:
                    continue
                b = self.bind(g, recv, e, env)
                for q in self.w.sum[g.qualname].returns:
                    out |= self.placed(q, b)
            return out
        return set()

    def placed(self, q, b):
        """a path of the callee in terms of the caller"""
        if q[0].startswith('::'):
            return {q}
        return {x + q[1:] for x in b.get(q[0], ()) if len(x) + len(q) < 8}

    def bind(self, g, recv, call, env):
        ps = list(g.params)
        out = {}
        if recv is not None and ps and not g.is_static:
            out[ps.pop(0)] = self.paths(recv, env)
        elif g.cls is not None and g.is_classmethod and ps:
            ps.pop(0)
        for x, a in zip(ps, call.args):
            if isinstance(a, ast.Starred):
                break
            out[x] = self.paths(a, env)
        for k in call.keywords:
            if k.arg:
                out[k.arg] = self.paths(k.value, env)
        return out

    def live(self, e, env):
        """paths walked directly when going through e; a copy walks none"""
        f = self.f
        if isinstance(e, ast.Call):
            fn = e.func
            last = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
            if last in WRAP and (isinstance(fn, ast.Name) or dotted_of(fn) in ('itertools.' + last, 'itertools.chain')):
                out = set()
                for a in e.args:
                    out |= self.live(a, env)
                return out
            if last == 'from_iterable':
                return set()
            tg = self.w.targets(f, e)
            if tg:
                out = set()
                for g, recv in tg:
                    if g.qualname not in self.w.sum:
                        continue
                    b = self.bind(g, recv, e, env)
                    s = self.w.sum[g.qualname]
                    for q in (s.walks if g.is_generator else s.returns):
                        out |= self.placed(q, b)
                return self.inner(out, None)
            if isinstance(fn, ast.Attribute) and last in ('nodes', 'edges'):
                return self.view(fn, env)
            if isinstance(fn, ast.Attribute) and last in LIVE and not e.keywords:
                return self.live(fn.value, env)
            return set()
        if isinstance(e, ast.GeneratorExp):
            out = set()
            for g in e.generators:
                out |= self.live(g.iter, env)
            return out
        if isinstance(e, ast.Attribute) and e.attr in ('nodes', 'edges') and not isinstance(self.w.r.type_of(e.value, f), ClassInfo):
            return self.view(e, env)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.List, ast.Tuple, ast.Set, ast.Dict, ast.Constant)):
            return set()
        out = set()
        if isinstance(e, ast.IfExp):
            return self.live(e.body, env) | self.live(e.orelse, env)
        ps = self.paths(e, env)
        t = self.w.r.type_of(e, f)
        if isinstance(t, ClassInfo):
            g = t.find('__iter__')
            if g is not None and g.qualname in self.w.sum:
                s = self.w.sum[g.qualname]
                for q in (s.walks if g.is_generator else s.returns):
                    out |= self.placed(q, {g.params[0]: ps})
                return out
        return ps

    def view(self, e, env):
        """the nodes or the edges of a graph"""
        ps = self.paths(e.value, env)
        return {q + ('<edges>',) for q in ps} if e.attr == 'edges' else ps

    @staticmethod
    def inner(ps, _):
        return ps

    # -- changes
    def change(self, ps, node, index=None, shrink=False, table=False):
        if not ps:
            return
        for walked, loop, keys, mapping in self.active:
            hit = ps & walked
            if index is not None and (index in keys or not (mapping or table)):
                hit = set()
            if hit and not self.leaves(loop, node):
                self.report(loop, node, hit)
            if not self.leaves(loop, node) and index is None:
                for a in walked:
                    for b in ps:
                        if a != b and a[0] in self.params and b[0] in self.params and a[0] != b[0]:
                            self.s.pairs.add((a, b))
        if shrink:
            self.s.shrinks |= {q for q in ps if q[0] in self.params}
            own = self.own_walk()
            for walked, loop, keys, mapping in self.active:
                for a in walked:
                    if len(a) == 1 and a[0] in self.params and own & ps and a[0] != self.f.params[0] and not self.leaves(loop, node):
                        self.w.found.append((self.f, loop, node, a[0] + ' when it is the object itself'))
        if index is None:
            self.s.resizes |= {q for q in ps if q[0] in self.params or q[0].startswith('::')}

    def own_walk(self):
        """what going through the object itself walks"""
        f = self.f
        if f.cls is None or f.is_static or f.is_classmethod or not f.params or f.name.startswith('_'):
            return set()
        g = f.cls.find('__iter__')
        if g is None or g.qualname not in self.w.sum:
            return set()
        s = self.w.sum[g.qualname]
        return {(f.params[0],) + q[1:] for q in (s.walks if g.is_generator else s.returns) if q[0] == g.params[0]}

    def report(self, loop, node, hit):
        self.w.found.append((self.f, loop, node, '.'.join(sorted(hit)[0])))

    def leaves(self, loop, node):
        """the change is followed by leaving the loop"""
        if not isinstance(loop, (ast.For, ast.AsyncFor)):
            return False

        def find(block, here):
            for i, s in enumerate(block):
                if s is node or any(x is node for x in ast.walk(s)):
                    inner_loop = isinstance(s, (ast.For, ast.While, ast.AsyncFor))
                    sub = None
                    if s is not node:
                        for name in ('body', 'orelse', 'finalbody'):
                            b = getattr(s, name, None)
                            if isinstance(b, list) and any(x is node for y in b for x in ast.walk(y)):
                                sub = find(b, here and not inner_loop)
                        for h in getattr(s, 'handlers', []):
                            if any(x is node for x in ast.walk(h)):
                                sub = find(h.body, here and not inner_loop)
                    if isinstance(s, (ast.Return, ast.Raise)):
                        return True
                    if sub:
                        return True
                    for r in block[i + 1:]:
                        if isinstance(r, (ast.Return, ast.Raise)) or isinstance(r, ast.Break) and here:
                            return True
                        if isinstance(r, ast.Continue):
                            return False
                        if isinstance(r, ast.If) and r.orelse and all(always(b, here) for b in (r.body, r.orelse)):
                            return True
                    return False
            return False

        def always(block, here):
            return bool(block) and (isinstance(block[-1], (ast.Return, ast.Raise)) or isinstance(block[-1], ast.Break) and here or
                                    isinstance(block[-1], ast.If) and block[-1].orelse and always(block[-1].body, here) and always(block[-1].orelse, here))
        return find(loop.body, True)

    # -- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    @staticmethod
    def merge(*envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out.setdefault(k, set()).update(v)
        return out

    def set_env(self, env, new):
        env.clear()
        env.update(new)

    def bind_target(self, t, ps, env):
        if isinstance(t, ast.Name):
            if not ps:
                # a new object: what the name stood for before is an older one
                new, old = FRESH + ':' + t.id, FRESH + '*:' + t.id
                aged = lambda qs: {(old,) + q[1:] if q[0] == new else q for q in qs}
                for k in env:
                    env[k] = aged(env[k])
                self.active = [(aged(a), b, c, d) for a, b, c, d in self.active]
                ps = {(new,)}
            env[t.id] = set(ps)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind_target(x, (), env)
        elif isinstance(t, ast.Starred):
            self.bind_target(t.value, (), env)

    def stmt(self, s, env):
        f = self.f
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, env, s)
            self.w.count[self.f.qualname] = self.w.count.get(self.f.qualname, 0) + 1
            walked = self.live(s.iter, env)
            self.s.walks |= {q for q in walked if q[0] in self.params or q[0].startswith('::')}
            keys, mapping = self.keys_of(s.target, s.iter)
            before = dict(env)
            self.active.append((walked, s, keys, mapping))
            for _ in range(2):
                self.elements(s.target, s.iter, env)
                self.block(s.body, env)
                self.set_env(env, self.merge(before, env))
            self.active.pop()
            self.block(s.orelse, env)
            return
        if isinstance(s, ast.While):
            for _ in range(2):
                before = {k: set(v) for k, v in env.items()}
                self.expr(s.test, env, s)
                self.block(s.body, env)
                self.set_env(env, self.merge(before, env))
            self.block(s.orelse, env)
            return
        if isinstance(s, ast.If):
            self.expr(s.test, env, s)
            a, b = {k: set(v) for k, v in env.items()}, {k: set(v) for k, v in env.items()}
            self.block(s.body, a)
            self.block(s.orelse, b)
            self.set_env(env, self.merge(a, b))
            return
        if isinstance(s, ast.Try):
            before = {k: set(v) for k, v in env.items()}
            self.block(s.body, env)
            outs = []
            for h in s.handlers:
                x = self.merge(before, env)
                self.block(h.body, x)
                outs.append(x)
            self.block(s.orelse, env)
            self.set_env(env, self.merge(env, *outs))
            self.block(s.finalbody, env)
            return
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, env, s)
                if i.optional_vars is not None:
                    self.bind_target(i.optional_vars, (), env)
            self.block(s.body, env)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = s.value
            if v is None:
                return
            self.expr(v, env, s)
            ps = self.paths(v, env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.store(t, ps, v, env, s)
            return
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, env, s)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.change(self.paths(t.value, env), s, index=ast.unparse(t.slice))
            elif isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and isinstance(s.value, (
                    ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp, ast.Tuple)):
                self.change(self.paths(t, env), s)
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.expr(t.slice, env, s)
                    tt = self.w.r.type_of(t.value, f)
                    self.call_dunder(tt, '__delitem__', t.value, env, s) or self.change(self.paths(t.value, env), s, shrink=True)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.expr(s.value, env, s)
                out = self.paths(s.value, env)
                if isinstance(s.value, ast.Call):
                    out = out | self.live(s.value, env)
                self.s.returns |= {q for q in out if q[0] in self.params or q[0].startswith('::')}
            return
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, env, s)

    def store(self, t, ps, v, env, s):
        if isinstance(t, ast.Name):
            self.bind_target(t, ps, env)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [None] * len(t.elts)
            got = [self.paths(y, env) if y is not None else set() for y in vs]
            for x, y, q in zip(t.elts, vs, got):
                self.store(x, q, y, env, s)
            return
        if isinstance(t, ast.Subscript):
            self.expr(t.slice, env, s)
            if isinstance(t.slice, ast.Slice):
                return
            tt = self.w.r.type_of(t.value, self.f)
            if not self.call_dunder(tt, '__setitem__', t.value, env, s, ast.unparse(t.slice)):
                self.change(self.paths(t.value, env), s, index=ast.unparse(t.slice))
            return
        if isinstance(t, ast.Attribute):
            # the attribute now names another object; what is being walked stays the old one
            nm = mangle(self.f.cls.name if self.f.cls else None, t.attr)
            tt = self.w.r.type_of(t.value, self.f)
            g = tt.find(nm, 'setters') if isinstance(tt, ClassInfo) else None
            if g is not None:
                self.apply(g, {g.params[0]: self.paths(t.value, env), **({g.params[1]: ps} if len(g.params) > 1 else {})}, s)

    def call_dunder(self, tt, name, recv, env, s, index=None):
        if not isinstance(tt, ClassInfo):
            return False
        g = tt.find(name)
        if g is None or g.qualname not in self.w.sum:
            return False
        if index is None:
            self.apply(g, {g.params[0]: self.paths(recv, env)}, s)
        return True

    def apply(self, g, b, node):
        """effects of calling g with these arguments"""
        sm = self.w.sum.get(g.qualname)
        if sm is None:
            return
        self.w.calls += 1
        for q in sm.resizes:
            self.change(self.placed(q, b), node, shrink=q in sm.shrinks)
        for q in sm.walks:
            if not g.is_generator:
                self.s.walks |= set()
        for a, c in sm.pairs:
            pa, pc = self.placed(a, b), self.placed(c, b)
            for x in pa & pc:
                self.w.found.append((self.f, None, node, '.'.join(x)))
            for x in pa:
                for y in pc:
                    if x != y and x[0] in self.params and y[0] in self.params and x[0] != y[0]:
                        self.s.pairs.add((x, y))

    def keys_of(self, target, it):
        """(names that are keys of the thing walked, the thing is certainly a mapping)"""
        keys, mapping = set(), False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys', 'values'):
            mapping = True
            if it.func.attr == 'items' and isinstance(target, ast.Tuple) and target.elts:
                keys.add(ast.unparse(target.elts[0]))
        if isinstance(target, ast.Name):
            keys.add(target.id)
        t = self.w.r.type_of(it, self.f)
        if isinstance(t, ClassInfo) and any(x in ('dict', 'OrderedDict', 'SortedDict', 'defaultdict') for b in t.mro() for x in [
                (dotted_of(y.value if isinstance(y, ast.Subscript) else y) or '').split('.')[-1] for y in b.node.bases]):
            mapping = True
        return keys, mapping

    def elements(self, target, it, env):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                env[n.id] = {('elem:' + n.id,)}
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(target, ast.Tuple) and len(target.elts) == 2 \
                and isinstance(target.elts[1], ast.Name):
            k = ast.unparse(target.elts[0])
            env[target.elts[1].id] = {b + ('[%s]' % k,) for b in self.paths(it.func.value, env) if len(b) < 6} or {('elem:' + target.elts[1].id,)}

    # -- expressions
    def expr(self, e, env, stmt):
        if e is None or isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            env = dict(env)
            n = 0
            for g in e.generators:
                self.expr(g.iter, env, stmt)
                self.w.count[self.f.qualname] = self.w.count.get(self.f.qualname, 0) + 1
                walked = self.live(g.iter, env)
                self.s.walks |= {q for q in walked if q[0] in self.params or q[0].startswith('::')} if isinstance(e, ast.GeneratorExp) else set()
                keys, mapping = self.keys_of(g.target, g.iter)
                self.elements(g.target, g.iter, env)
                self.active.append((walked, e, keys, mapping))
                n += 1
                for c in g.ifs:
                    self.expr(c, env, stmt)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, env, stmt)
            for _ in range(n):
                self.active.pop()
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, env, stmt)
            self.bind_target(e.target, self.paths(e.value, env), env)
            return
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.expr(e.value, env, stmt)
                if isinstance(e, ast.YieldFrom):
                    self.s.walks |= {q for q in self.live(e.value, env) if q[0] in self.params}
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, env, stmt)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, env, stmt)
        if isinstance(e, ast.Call):
            tg = self.w.targets(self.f, e)
            for g, recv in tg:
                self.apply(g, self.bind(g, recv, e, env), stmt)
            fn = e.func
            if not tg and isinstance(fn, ast.Attribute):
                recv = fn.value
                if isinstance(recv, ast.Call) and dotted_of(recv.func) == 'super' and self.f.params:
                    recv = ast.Name(id=self.f.params[0], ctx=ast.Load())
                if fn.attr == 'setdefault' and e.args:
                    self.change(self.paths(recv, env), stmt, index=ast.unparse(e.args[0]), table=True)
                elif fn.attr in RESIZE or fn.attr in ORDER:
                    ps = self.paths(recv, env)
                    if fn.attr in EDGES:
                        ps = {q + ('<edges>',) for q in ps}
                    elif fn.attr in ('remove_node', 'remove_nodes_from', 'clear'):
                        ps = ps | {q + ('<edges>',) for q in ps}
                    self.change(ps, stmt, shrink=fn.attr in SHRINK)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            t = self.w.r.type_of(e.value, self.f)
            if isinstance(t, ClassInfo):
                g = t.find(mangle(self.f.cls.name if self.f.cls else None, e.attr))
                if g is not None and g.is_property:
                    self.apply(g, {g.params[0]: self.paths(e.value, env)}, stmt)


def walk_rule(ctx, rid, scope, least):
    """no loop of the functions in scope changes what it walks"""
    from .program import in_scope, short_q
    w = getattr(ctx.p, '_walks', None)
    if w is None:
        w = ctx.p._walks = Walks(ctx.p, in_scope)
    seen = set()
    for f, loop, node, path in w.found:
        k = (f.qualname, path)
        if k in seen or not scope(f):
            continue
        seen.add(k)
        ctx.bad(rid, '%s:%s' % (short_q(f.qualname), path),
                'the loop changes what it walks: %s' % path.replace('fresh:', '').replace('fresh*:', '').replace('elem:', '') if loop is not None else
                'the same collection %s is walked and changed by the called function' % path, f.loc(node))
    n = sum(k for q, k in w.count.items() if scope(ctx.p.functions[q]))
    for _ in range(max(0, n - len(seen))):
        ctx.ok(rid)
    ctx.analysed.update(f.qualname for f in w.fs if scope(f))
    ctx.floor(rid, least)


@prop('X07', 'Every loop and comprehension of the package is followed with the access paths its iterable may stand for (through local names, properties, '
      'helper functions and __iter__), and every operation in its body that adds to, removes from or reorders a collection, directly or in '
      'a called function, is compared with them; a change followed by leaving the loop is allowed.',
      assumptions=['two different parameters of a public operation name different collections unless a call in the package passes the same one'])
def x07(ctx):
    ctx.rule('walk', 'no loop adds to, removes from or reorders the collection it walks')
    walk_rule(ctx, 'walk', lambda f: True, 150)
