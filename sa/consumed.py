"""Iterators that are used up twice: a name bound to a generator expression (or to zip, map, filter, enumerate, reversed or a call of a generator
of the repository) gives its elements to the first use only; a second use on the same path finds nothing."""
import ast

ONCE = {'zip', 'map', 'filter', 'enumerate', 'reversed'}
KEEPS = {'next', 'isinstance', 'type', 'id', 'print', 'repr', 'str', 'islice', 'callable', 'hasattr', 'iter'}


def generators(p):
    """names of the functions and methods of the repository that are generators"""
    out = set()
    for f in p.functions.values():
        for n in own(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                out.add(f.qualname.rpartition('.')[2])
    plain = {f.qualname.rpartition('.')[2] for f in p.functions.values() if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f.node))}
    return out - plain


def own(fn):
    """the nodes of a function without those of functions inside it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += list(ast.iter_child_nodes(n))


def spent(v, gens):
    if isinstance(v, ast.GeneratorExp):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        if isinstance(f, ast.Name):
            return f.id in ONCE or f.id in gens
        return isinstance(f, ast.Attribute) and f.attr in gens
    return False


def uses(node, name, kept=False):
    """how often an expression uses the name up"""
    if isinstance(node, ast.Name):
        return int(node.id == name and isinstance(node.ctx, ast.Load))
    if isinstance(node, ast.Call) and (isinstance(node.func, ast.Name) and node.func.id in KEEPS or
                                       isinstance(node.func, ast.Attribute) and node.func.attr in KEEPS):
        return sum(uses(a, name) for a in node.args if not isinstance(a, ast.Name))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not) and isinstance(node.operand, ast.Name):
        return 0
    if isinstance(node, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
        return 0
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        return 0
    if isinstance(node, ast.IfExp):
        return uses(node.test, name) + max(uses(node.body, name), uses(node.orelse, name))
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        # the first iterable is taken once, everything else once per element
        first = uses(node.generators[0].iter, name)
        rest = sum(uses(n, name) for g in node.generators for n in list(g.ifs) + ([g.iter] if g is not node.generators[0] else []))
        rest += sum(uses(n, name) for n in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]))
        return first + 2 * rest
    if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
        return 0
    if isinstance(node, ast.expr) or isinstance(node, (ast.keyword, ast.comprehension, ast.withitem, ast.slice)):
        return sum(uses(n, name) for n in ast.iter_child_nodes(node))
    return sum(uses(n, name) for n in ast.iter_child_nodes(node) if isinstance(n, (ast.expr, ast.keyword, ast.withitem)))


class Flow:
    """most uses of a name since it was last bound to an iterator, over the ways through a block: None: not bound to one"""

    def __init__(self, name, gens):
        self.name, self.gens, self.worst = name, gens, None

    def use(self, st, n, at):
        if st is None or not n:
            return st
        if st + n > 1 and self.worst is None:
            self.worst = at
        return st + n

    @staticmethod
    def join(a, b):
        live = [x for x in (a, b) if x is not None]
        return max(live) if live else None

    def block(self, body, st):
        """-> the state after it, 'gone' where it does not end"""
        for s in body:
            st = self.stmt(s, st)
            if st == 'gone':
                return st
        return st

    def both(self, a, b):
        return b if a == 'gone' else a if b == 'gone' else self.join(a, b)

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return st
        if isinstance(s, ast.If):
            st = self.use(st, 0 if isinstance(s.test, ast.Name) else uses(s.test, self.name), s)
            return self.both(self.block(s.body, st), self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                st = self.use(st, uses(s.iter, self.name), s)
                if any(isinstance(n, ast.Name) and n.id == self.name for n in ast.walk(s.target)):
                    st = None
            out = st
            for _ in range(2):
                if isinstance(s, ast.While):
                    out = self.use(out, uses(s.test, self.name), s)
                b = self.block(s.body, out)
                if b == 'gone':
                    break
                out = self.join(out, b)
            return self.both(self.block(s.orelse, out), out) if s.orelse else out
        if isinstance(s, ast.Try):
            b = self.block(s.body, st)
            hs = [self.block(h.body, st if b == 'gone' else self.join(st, b)) for h in s.handlers]
            b = self.block(s.orelse, b) if b != 'gone' else b
            for h in hs:
                b = self.both(b, h)
            return self.block(s.finalbody, b if b != 'gone' else None) if s.finalbody else b
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.use(st, uses(i.context_expr, self.name), s)
            return self.block(s.body, st)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = s.value
            if v is not None:
                st = self.use(st, uses(v, self.name), s)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in targets:
                if isinstance(t, ast.Name) and t.id == self.name:
                    return 0 if v is not None and spent(v, self.gens) else None
                if any(isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, ast.Store) for n in ast.walk(t)):
                    return None
                st = self.use(st, uses(t, self.name), s)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for n in ast.iter_child_nodes(s):
                self.use(st, uses(n, self.name), s)
            return 'gone'
        if isinstance(s, (ast.Break, ast.Continue)):
            return 'gone'
        return self.use(st, uses(s, self.name), s)


def twice(fn, gens):
    """-> [(name, line)] of iterators a function may use up twice on one path"""
    names = set()
    for n in own(fn):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and spent(n.value, gens):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    names.add(t.id)
    out = []
    for name in sorted(names):
        fl = Flow(name, gens)
        fl.block(fn.body, None)
        if fl.worst is not None:
            out.append((name, fl.worst.lineno))
    return out


def check(ctx, repo_trees):
    """common rule of every property, over the functions its analysis went through"""
    gens = generators(ctx.p)
    raw = {}
    for q in sorted(ctx.analysed):
        f = ctx.p.functions.get(q)
        if f is None:
            continue
        rel = f.module.relpath
        if rel not in raw:
            raw[rel] = {n.lineno: n for n in ast.walk(ast.parse(repo_trees[rel][0])) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        fn = raw[rel].get(f.node.lineno)
        if fn is None:
            continue
        for name, line in twice(fn, gens):
            ctx.bad('consumed', '%s:%s' % (q, name), 'the iterator %s is used up and then used again (line %d)' % (name, line), f.loc())
        ctx.ok('consumed')
