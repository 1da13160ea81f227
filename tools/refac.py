"""Behaviour-preserving rewrites of the package, to see that the checks stay quiet.

usage: python3 tools/refac.py OUT TRANSFORM[,TRANSFORM] [qualified-function-substring ...]

Copies /repo's package to OUT with every function (or those whose
module.qualname contains one of the substrings) rewritten.  A development
tool: no check uses it.
"""
import ast, copy, pathlib, shutil, sys

import os
REPO = pathlib.Path(os.environ.get('SA_REPO', '/repo'))
N = [0]


def fresh(p='tmp'):
    N[0] += 1
    return f'{p}_{N[0]}'


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        o = inv.get(type(t.ops[0]))
        if o:
            return ast.Compare(t.left, [o()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Blocks(ast.NodeTransformer):
    """Statement-list rewriting inside functions, not descending into nested functions' scopes specially."""
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return self.done(out)

    def done(self, body):
        return body

    def stmt(self, s):
        return s

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node


class RetTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh('result')
            return [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
        return s


class IfSwap(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(neg(s.test), s.orelse, s.body)
        return s


class CondTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If):
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                pass
            t = fresh('cond')
            return [ast.Assign([name(t, ast.Store())], s.test), ast.If(name(t), s.body, s.orelse)]
        return s


class CompLoop(Blocks):
    """x = [comp] / return [comp] -> explicit loop."""
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and (isinstance(s, ast.Return) or len(s.targets) == 1):
            acc = fresh('acc')
            m = {}
            for g in v.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        m[n.id] = n.id + '_c'
            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(m.get(n.id, n.id), n.ctx)
            first = v.generators[0].iter
            v2 = R().visit(copy.deepcopy(v))
            v2.generators[0].iter = first
            if isinstance(v, ast.ListComp):
                init, leaf = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [v2.elt], []))
            elif isinstance(v, ast.SetComp):
                init, leaf = ast.Call(name('set'), [], []), ast.Expr(ast.Call(ast.Attribute(name(acc), 'add', ast.Load()), [v2.elt], []))
            else:
                init, leaf = ast.Dict([], []), ast.Assign([ast.Subscript(name(acc), v2.key, ast.Store())], v2.value)
            body = [leaf]
            for g in reversed(v2.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            fin = ast.Return(name(acc)) if isinstance(s, ast.Return) else ast.Assign(s.targets, name(acc))
            return [ast.Assign([name(acc, ast.Store())], init)] + body + [fin]
        return s


class Guard(Blocks):
    """loop body that is one if without else -> guard with continue."""
    def visit_For(self, n):
        n = self.generic_visit(n)
        b = n.body
        if isinstance(b[-1], ast.If) and not b[-1].orelse:
            i = b[-1]
            n.body = b[:-1] + [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return n


class Unguard(Blocks):
    def visit_For(self, n):
        n = self.generic_visit(n)
        out = n.body
        for k in range(len(out) - 1, -1, -1):
            s = out[k]
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue) and out[k + 1:]:
                rest = out[k + 1:]
                if len(s.body) == 1:
                    out = out[:k] + [ast.If(neg(s.test), rest, [])]
                else:
                    out = out[:k] + [ast.If(s.test, s.body[:-1], rest)]
        n.body = out
        return n


class Enum(Blocks):
    def visit_For(self, n):
        n = self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('enumerate', 'range', 'zip'):
            return n
        n.target = ast.Tuple([name(fresh('idx'), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(name('enumerate'), [n.iter], [])
        return n


class AndNest(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body
        return s


class OrSplit(Blocks):
    """if a or b: raise/return/continue -> two ifs."""
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and isinstance(s.body[-1], (ast.Raise, ast.Return, ast.Continue)):
            return [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
        return s


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        inv = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in inv:
            return ast.Compare(n.comparators[0], [inv[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in n.test.values]))
        return n


class IfExp(Blocks):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(v, ast.IfExp) and isinstance(s, ast.Assign):
            return ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
        if isinstance(v, ast.IfExp) and isinstance(s, ast.Return):
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        return s


class ToIfExp(Blocks):
    def done(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                s = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
            out.append(s)
        return out


class RetElse(Blocks):
    """if c: return a / rest  ->  if c: return a else: rest."""
    def done(self, body):
        for k in range(len(body) - 2, -1, -1):
            s = body[k]
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                return body[:k] + [ast.If(s.test, s.body, self.done(body[k + 1:]))]
        return body


class AugNum(Blocks):
    """x += 1 -> x = x + 1 where the operand is a number."""
    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
        return s


class ArgTemp(Blocks):
    """f(g(x)) statements: name the arguments that are calls."""
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
            pre = []
            c = s.value
            if any(isinstance(a, ast.Starred) for a in c.args) or any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(c)):
                return s
            f = c.func
            if isinstance(f, ast.Attribute) and not isinstance(f.value, (ast.Name, ast.Attribute)):
                return s
            for k, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.ListComp, ast.Attribute)):
                    t = fresh('arg')
                    pre.append(ast.Assign([name(t, ast.Store())], a))
                    c.args[k] = name(t)
            for kw in c.keywords:
                if kw.arg and isinstance(kw.value, (ast.Call, ast.BinOp, ast.Subscript, ast.ListComp, ast.Attribute)):
                    t = fresh('arg')
                    pre.append(ast.Assign([name(t, ast.Store())], kw.value))
                    kw.value = name(t)
            return pre + [s]
        return s


class Rename(ast.NodeTransformer):
    def __init__(self):
        self.top = True

    def visit_FunctionDef(self, f):
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        for x in (f.args.vararg, f.args.kwarg):
            if x:
                params.add(x.arg)
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        inner = {n for x in ast.walk(f) if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda)) for n in [a.arg for a in x.args.args + x.args.kwonlyargs] + ([x.name] if isinstance(x, ast.FunctionDef) else [])}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
        loc -= params | glob | inner
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_v'
            elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += '_v'
        return f


class Extract(ast.NodeTransformer):
    """method body -> _impl_<name> called by the original (same args)."""
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            if isinstance(s, ast.FunctionDef) and self.want(s) and not (s.name.startswith('__') and s.name.endswith('__') and s.name in ('__init__', '__new__', '__post_init__')) and \
                    all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') for d in s.decorator_list) and \
                    not s.args.vararg and not s.args.kwarg and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and \
                    not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(s)):
                kind = [d.id for d in s.decorator_list]
                h = copy.deepcopy(s)
                h.name = '_impl' + s.name if not s.name.startswith('__') else '_impl_' + s.name.strip('_')
                if kind == ['property']:
                    h.decorator_list = []
                doc = [b for b in s.body[:1] if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)]
                pos = [a.arg for a in s.args.posonlyargs + s.args.args]
                if kind == ['staticmethod']:
                    recv, args = name(c.name), pos
                else:
                    if not pos:
                        out.append(s)
                        continue
                    recv, args = name(pos[0]), pos[1:]
                h.args.defaults = []
                h.args.kw_defaults = [None for _ in h.args.kwonlyargs]
                h.args.kwonlyargs, kwo = [], h.args.kwonlyargs
                h.args.args += kwo
                h.args.kw_defaults = []
                call = ast.Call(ast.Attribute(recv, h.name, ast.Load()), [name(a) for a in args + [k.arg for k in kwo]], [])
                s.body = doc + [ast.Return(call)]
                out += [h, s]
            else:
                out.append(s)
        c.body = out
        return c


class NoDoc(Blocks):
    def visit_FunctionDef(self, f):
        if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1:
            f.body = f.body[1:]
        f.body.insert(0, ast.Assert(ast.Constant(True), None))
        f.body.insert(0, ast.Assign([name('unused_local', ast.Store())], ast.Constant(0)))
        return f


class LoopHelper(Blocks):
    """for x in it: BODY, with BODY free of control flow out -> nested helper def called per item (only when BODY assigns no outer local)."""
    def visit_FunctionDef(self, f):
        f = self.generic_visit(f)
        def go(body, depth):
            out = []
            for s in body:
                if isinstance(s, ast.For) and not s.orelse:
                    bad = any(isinstance(x, (ast.Return, ast.Break, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Nonlocal)) for b in s.body for x in ast.walk(b))
                    cont = any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b))
                    tn = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                    st = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
                    # names assigned in the body must not be used outside it
                    outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
                    cnt = lambda root, n: sum(isinstance(x, ast.Name) and x.id == n for x in ast.walk(root))
                    leak = any(cnt(f, n) != sum(cnt(b, n) for b in s.body) + cnt(s.target, n) for n in st | tn)
                    aug = any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for b in s.body for x in ast.walk(b))
                    selfname = 'super' in {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name)}
                    if not bad and not cont and not leak and not aug and not selfname:
                        h = fresh('step')
                        ordered = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
                        a = ast.arguments([], [ast.arg(n) for n in ordered], None, [], [], None, [])
                        d = ast.FunctionDef(h, a, s.body, [], None)
                        d.type_params = []
                        out.append(d)
                        out.append(ast.For(s.target, s.iter, [ast.Expr(ast.Call(name(h), [name(n) for n in ordered], []))], []))
                        continue
                for fld in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(s, fld, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        setattr(s, fld, go(getattr(s, fld), depth + 1))
                out.append(s)
            return out
        f.body = go(f.body, 0)
        return f


class IterTemp(Blocks):
    """for x in EXPR -> items = EXPR; for x in items."""
    def stmt(self, s):
        if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
            t = fresh('items')
            it = s.iter
            s.iter = name(t)
            return [ast.Assign([name(t, ast.Store())], it), s]
        return s


class ListIter(Blocks):
    """for x in EXPR -> for x in list(EXPR)."""
    def visit_For(self, n):
        n = self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'list')):
            n.iter = ast.Call(name('list'), [n.iter], [])
        return n


class SelfTemp(Blocks):
    """self.attr read twice or more, never stored in the function, without any call statement between is hard to see: only single statement."""
    def stmt(self, s):
        if isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AugAssign)) and s.value is not None:
            reads = {}
            for x in ast.walk(s.value):
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.IfExp, ast.BoolOp)):
                    return s
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    reads[x.attr] = reads.get(x.attr, 0) + 1
            funcs = {x.func.attr for x in ast.walk(s.value) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
            reads = {a for a in reads if a not in funcs}
            if not reads:
                return s
            m = {a: fresh('own') for a in reads}
            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    self.generic_visit(x)
                    if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in m:
                        return name(m[x.attr])
                    return x
            s.value = R().visit(s.value)
            return [ast.Assign([name(t, ast.Store())], ast.Attribute(name('self'), a, ast.Load())) for a, t in m.items()] + [s]
        return s


class FStr(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        parts, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.conversion != -1 or v.format_spec:
                    return n
                parts += '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(parts), 'format', ast.Load()), args, [])


class Swap(Blocks):
    """Swap adjacent assignments of independent simple values."""
    def done(self, body):
        out = list(body)
        k = 0
        def simple(s):
            if not isinstance(s, (ast.Assign, ast.AnnAssign)) or s.value is None:
                return None
            t = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(x, (ast.Call, ast.Subscript, ast.NamedExpr)) for x in ast.walk(s.value)):
                return None
            if not all(isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) for x in t):
                return None
            return {ast.unparse(x) for x in t}, {ast.unparse(x) for x in ast.walk(s.value) if isinstance(x, (ast.Name, ast.Attribute))}
        while k + 1 < len(out):
            a, b = simple(out[k]), simple(out[k + 1])
            if a and b and not a[0] & (b[0] | b[1]) and not b[0] & a[1] and not any(x.startswith('self.') and not x.startswith('self._') for x in a[0] | b[0]):
                out[k], out[k + 1] = out[k + 1], out[k]
                k += 2
            else:
                k += 1
        return out


class IsInst(ast.NodeTransformer):
    """len(x) == 0 <-> not x is not always the same; here: `if len(x) == 0` -> `if len(x) < 1`, `> 0` -> `>= 1`, `!= 0` -> `> 0`."""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == 'len' and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
            o = n.ops[0]
            if isinstance(o, ast.Eq):
                return ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)])
            if isinstance(o, ast.Gt):
                return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
            if isinstance(o, ast.NotEq):
                return ast.Compare(n.left, [ast.Gt()], [ast.Constant(0)])
        return n


class LoopComp(Blocks):
    """acc = []; for x in it: acc.append(e) -> acc = [e for x in it]"""
    def done(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and out and isinstance(out[-1], (ast.Assign, ast.AnnAssign)) and not s.orelse and len(s.body) == 1:
                t = out[-1].targets[0] if isinstance(out[-1], ast.Assign) else out[-1].target
                b, conds = s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    conds, b = [b.test], b.body[0]
                v = out[-1].value
                if isinstance(t, ast.Name) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and isinstance(b.value.func.value, ast.Name) \
                        and b.value.func.value.id == t.id and b.value.func.attr in ('append', 'add') and len(b.value.args) == 1:
                    if isinstance(v, ast.List) and not v.elts:
                        out[-1] = ast.Assign([t], ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, conds, 0)]))
                        continue
            out.append(s)
        return out


class IndexLoop(Blocks):
    """for x in self.attr / name (of a list) -> for i in range(len(y)): x = y[i]; applied to names assigned from list(...)/[...]/sorted only."""
    def visit_FunctionDef(self, f):
        f = self.generic_visit(f)
        lists = set()
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (isinstance(s.value, (ast.List, ast.ListComp)) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('sorted', 'list')):
                lists.add(s.targets[0].id)
        for s in ast.walk(f):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in lists:
                i = fresh('pos')
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(name(s.iter.id), name(i), ast.Load())))
                s.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(s.iter.id)], [])], [])
                s.target = name(i, ast.Store())
        return f


class WhileLoop(Blocks):
    """for x in it (no continue) -> it_ = list(it); k = 0; while k < len(it_): x = it_[k]; k += 1; body"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            a, k = fresh('all'), fresh('k')
            body = [ast.Assign([s.target], ast.Subscript(name(a), name(k), ast.Load())), ast.AugAssign(name(k, ast.Store()), ast.Add(), ast.Constant(1))] + s.body
            return [ast.Assign([name(a, ast.Store())], ast.Call(name('list'), [s.iter], [])), ast.Assign([name(k, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [ast.Call(name('len'), [name(a)], [])]), body, [])]
        return s


class AnyLoop(Blocks):
    """return any/all(gen) -> loop."""
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('any', 'all') and isinstance(s.value.args[0], ast.GeneratorExp):
            g = s.value.args[0]
            a = s.value.func.id == 'any'
            body = [ast.If(g.elt if a else neg(g.elt), [ast.Return(ast.Constant(a))], [])]
            for c in reversed(g.generators):
                for t in reversed(c.ifs):
                    body = [ast.If(t, body, [])]
                body = [ast.For(c.target, c.iter, body, [])]
            return body + [ast.Return(ast.Constant(not a))]
        return s


class SumLoop(Blocks):
    def stmt(self, s):
        v = getattr(s, 'value', None)
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'sum' and len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
            g, t = v.args[0], fresh('total')
            body = [ast.AugAssign(name(t, ast.Store()), ast.Add(), g.elt)]
            for c in reversed(g.generators):
                for q in reversed(c.ifs):
                    body = [ast.If(q, body, [])]
                body = [ast.For(c.target, c.iter, body, [])]
            s.value = name(t)
            return [ast.Assign([name(t, ast.Store())], ast.Constant(0))] + body + [s]
        return s


def fn_locals(f):
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.FunctionDef) and n is not f:
            out.add(n.name)
    return out


def comp_names(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Lambda):
            out |= {x.arg for x in n.args.args}
    return out


def own_method(c, f, h, ins, body):
    """-> (method of the class with these inputs, call of it)"""
    st = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
    cm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decorator_list)
    me = None if st or not f.args.args else f.args.args[0].arg
    if me in ins:
        ins = [me] + [i for i in ins if i != me]
        d = ast.FunctionDef(h, ast.arguments([], [ast.arg(i) for i in ins], None, [], [], None, []), body, [name('classmethod')] if cm else [], None)
        call = ast.Call(ast.Attribute(name(me), h, ast.Load()), [name(i) for i in ins[1:]], [])
    else:
        d = ast.FunctionDef(h, ast.arguments([], [ast.arg(i) for i in ins], None, [], [], None, []), body, [name('staticmethod')], None)
        call = ast.Call(ast.Attribute(name(c.name), h, ast.Load()), [name(i) for i in ins], [])
    d.type_params = []
    return d, call


class ExBlock:
    """top level for / if statements of a method become private static methods."""
    kinds = (ast.For, ast.If)

    def do_class(self, c, want, q):
        new, n = [], 0
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or want and not any(w in f'{q}.{f.name}' for w in want):
                new.append(f)
                continue
            if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) and x is not f for x in ast.walk(f)) or any(isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals') for x in ast.walk(f)):
                new.append(f)
                continue
            loc = fn_locals(f)
            comps = comp_names(f)
            helpers = []
            for k, s in enumerate(f.body):
                if not isinstance(s, self.kinds):
                    continue
                bad = any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)) and any(isinstance(x, ast.Return) for x in ast.walk(s))
                if bad or isinstance(s, ast.If) and any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s) if False):
                    continue
                used = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
                stored = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | {x.name for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
                before = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
                for b in f.body[:k]:
                    if isinstance(b, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        before |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - comp_names(b)
                after = {x.id for b in f.body[k + 1:] for x in ast.walk(b) if isinstance(x, ast.Name)}
                outs = sorted((stored & after) - (comp_names(s) - before))
                ins = sorted((used & loc) & before)
                if any(o not in before for o in outs):
                    continue
                if (used & loc) - before - stored:
                    continue
                n += 1
                h = '_part_%s_%d' % (f.name.strip('_'), n)
                body = [s] + ([ast.Return(ast.Tuple([name(o) for o in outs], ast.Load()) if len(outs) > 1 else name(outs[0]))] if outs else [])
                d, call = own_method(c, f, h, ins, body)
                helpers.append(d)
                f.body[k] = ast.Expr(call) if not outs else ast.Assign([ast.Tuple([name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else name(outs[0], ast.Store())], call)
            new += helpers + [f]
        c.body = new
        return n


class ExLoop(ExBlock):
    kinds = (ast.For,)


class ExIf(ExBlock):
    kinds = (ast.If,)


class ExCond(ExBlock):
    """conditions of if statements become private static methods."""
    def do_class(self, c, want, q):
        new, n = [], 0
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or want and not any(w in f'{q}.{f.name}' for w in want):
                new.append(f)
                continue
            if any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f for x in ast.walk(f)):
                new.append(f)
                continue
            loc = fn_locals(f)
            for s in list(ast.walk(f)):
                if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and not any(isinstance(x, (ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) or isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s.test)):
                    n += 1
                    h = '_cond_%s_%d' % (f.name.strip('_'), n)
                    ins = sorted({x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} & loc)
                    d, call = own_method(c, f, h, ins, [ast.Return(s.test)])
                    new.append(d)
                    s.test = call
            new.append(f)
        c.body = new
        return n


class ExExpr(ExBlock):
    """values of assignments that are calls or arithmetic become private static methods."""
    def do_class(self, c, want, q):
        new, n = [], 0
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or want and not any(w in f'{q}.{f.name}' for w in want):
                new.append(f)
                continue
            if any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not f for x in ast.walk(f)):
                new.append(f)
                continue
            loc = fn_locals(f)
            for s in list(ast.walk(f)):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp, ast.IfExp)) and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) or isinstance(x, ast.Name) and x.id in ('super', 'locals', '__class__') for x in ast.walk(s.value)):
                    n += 1
                    h = '_value_%s_%d' % (f.name.strip('_'), n)
                    ins = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & loc - (comp_names(s.value)))
                    d, call = own_method(c, f, h, ins, [ast.Return(s.value)])
                    new.append(d)
                    s.value = call
            new.append(f)
        c.body = new
        return n


T = {c.__name__.lower(): c for c in (RetTemp, IfSwap, CondTemp, CompLoop, Guard, Unguard, Enum, AndNest, OrSplit, Flip, DeMorgan, IfExp, ToIfExp, RetElse,
     AugNum, ArgTemp, Rename, Extract, NoDoc, LoopHelper, IterTemp, ListIter, SelfTemp, FStr, Swap, IsInst, LoopComp, IndexLoop, WhileLoop, AnyLoop, SumLoop, ExBlock, ExLoop, ExIf, ExCond, ExExpr)}


def apply(tree, mod, tnames, want):
    changed = []
    for tn in tnames:
        cls = T[tn]
        if issubclass(cls, ExBlock):
            def go2(body, q):
                for c in body:
                    if isinstance(c, ast.ClassDef):
                        k = cls().do_class(c, want, f'{q}.{c.name}')
                        changed.extend([q] * k)
            go2(tree.body, mod)
            continue
        if cls is Extract:
            def go(body, q):
                for c in body:
                    if isinstance(c, ast.ClassDef):
                        e = Extract()
                        e.want = lambda f, c=c: not want or any(w in f'{q}.{c.name}.{f.name}' for w in want)
                        e.visit_ClassDef(c)
            go(tree.body, mod)
            continue
        def walk(body, q):
            for k, s in enumerate(body):
                if isinstance(s, ast.ClassDef):
                    walk(s.body, f'{q}.{s.name}')
                elif isinstance(s, ast.FunctionDef):
                    nm = f'{q}.{s.name}'
                    if not want or any(w in nm for w in want):
                        b = ast.dump(s)
                        s2 = cls().visit(s)
                        body[k] = s2
                        if ast.dump(s2) != b:
                            changed.append(nm)
        walk(tree.body, mod)
    return changed


def main():
    out, tn = sys.argv[1:3]
    want = sys.argv[3:]
    assert out.startswith('/tmp/')
    shutil.rmtree(out, ignore_errors=True)
    pathlib.Path(out).mkdir(parents=True)
    shutil.copytree(REPO, out, dirs_exist_ok=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    ch = []
    for f in sorted(pathlib.Path(out, 'neural_graph_composer').rglob('*.py')):
        src = f.read_text()
        tree = ast.parse(src)
        mod = '.'.join(f.relative_to(out).with_suffix('').parts)
        c = apply(tree, mod, tn.split(','), want)
        if c or tn == 'extract':
            ast.fix_missing_locations(tree)
            f.write_text(ast.unparse(tree) + '\n')
        ch += c
    print(len(ch), 'functions changed')


if __name__ == '__main__':
    main()
