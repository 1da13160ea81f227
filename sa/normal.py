"""Counting loops written with `while` are read as the `for` loops they are.

    k = 0                          for k in range(0, E):
    while k < E:           ->          BODY
        BODY (.. k += 1 ..)

Only when this changes nothing: k starts from a known value right before the loop, is only counted up once per
iteration, on every way through it, and is neither read after it was counted up nor after the loop; E does not
change while the loop runs.
"""
import ast


def names(n, ctx=None):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


def own(body):
    """statements of a loop body, not those of loops inside (for continue), not nested functions"""
    todo = list(body)
    while todo:
        s = todo.pop()
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            todo += s.orelse
            continue
        for f in ('body', 'orelse', 'finalbody'):
            todo += [x for x in getattr(s, f, []) or [] if isinstance(x, ast.stmt)]
        for h in getattr(s, 'handlers', []) or []:
            todo += h.body


def is_inc(s, k):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == k and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1 and s.value.value is not True
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == k and \
            isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        if isinstance(a, ast.Constant):
            a, b = b, a
        return isinstance(a, ast.Name) and a.id == k and isinstance(b, ast.Constant) and b.value == 1
    return False


def steady(e, body):
    """the bound e keeps its value while body runs"""
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Name):
        return not any(x.id == e.id for s in body for x in names(s, (ast.Store, ast.Del)))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name):
        x = e.args[0].id
        if any(y.id == x for s in body for y in names(s, (ast.Store, ast.Del))):
            return False
        total = sum(1 for s in body for y in names(s) if y.id == x)
        read = 0
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == x:
                    read += 1
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == x:
                    read += 1
        return total == read
    return False


def counting(w, before, fn):
    """-> (name, start, bound, new body) when the while loop w counts"""
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not w.orelse):
        return None
    a, b, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, ast.Gt):
        a, b = b, a
    elif not isinstance(op, ast.Lt):
        return None
    if not isinstance(a, ast.Name) or not steady(b, w.body):
        return None
    k = a.id
    if not (isinstance(before, ast.Assign) and len(before.targets) == 1 and isinstance(before.targets[0], ast.Name) and before.targets[0].id == k
            and isinstance(before.value, ast.Constant) and type(before.value.value) is int):
        return None
    incs = [i for i, s in enumerate(w.body) if is_inc(s, k)]
    if len(incs) != 1 or sum(1 for s in w.body for x in names(s, (ast.Store, ast.Del)) if x.id == k) != 1:
        return None
    i = incs[0]
    if any(x.id == k for s in w.body[i + 1:] for x in names(s)):
        return None
    if any(isinstance(s, ast.Continue) for s in own(w.body[:i])):
        return None
    inside = {id(x) for x in names(w)} | {id(x) for x in names(before)}
    if any(x.id == k and id(x) not in inside for x in names(fn)):
        return None
    body = w.body[:i] + w.body[i + 1:]
    return k, before.value, b, body or [ast.copy_location(ast.Pass(), w)]


class Counting(ast.NodeTransformer):
    def __init__(self):
        self.fn = None

    def visit_FunctionDef(self, n):
        old, self.fn = self.fn, n
        self.generic_visit(n)
        for x in reversed(list(ast.walk(n))):        # inner loops first
            for f in ('body', 'orelse', 'finalbody'):
                block = getattr(x, f, None)
                if isinstance(block, list) and any(isinstance(s, ast.While) for s in block):
                    self.block(block, n)
        self.fn = old
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def block(self, block, fn):
        i = 1
        while i < len(block):
            s = block[i]
            if isinstance(s, ast.While):
                j = i - 1       # the counter may be set up a few plain assignments earlier
                while j > 0 and isinstance(block[j], ast.Assign) and not (
                        isinstance(s.test, ast.Compare) and any(isinstance(t, ast.Name) and t.id in {x.id for x in names(s.test)} and
                                                                isinstance(block[j].value, ast.Constant) for t in block[j].targets)):
                    j -= 1
                c = counting(s, block[j], fn)
                if c is not None:
                    k, start, bound, body = c
                    rng = ast.Call(ast.Name('range', ast.Load()), [bound] if start.value == 0 else [start, bound], [])
                    new = ast.For(ast.Name(k, ast.Store()), rng, body, [], None)
                    ast.copy_location(new, s)
                    for x in (rng, rng.func, new.target):
                        ast.copy_location(x, s)
                    ast.fix_missing_locations(new)
                    block[i] = new
                    del block[j]
                    continue
            i += 1


def indexed(n, fn):
    """for k in range(len(A)): T = A[k]; BODY, with k used nowhere else  ->  for T in A: BODY"""
    it = n.iter
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and not it.keywords and n.body):
        return
    a = it.args[1:] if len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and it.args[0].value == 0 else it.args
    if len(a) != 1 or not (isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == 'len' and len(a[0].args) == 1
                           and isinstance(a[0].args[0], ast.Name)) or not isinstance(n.target, ast.Name):
        return
    A, k, s = a[0].args[0].id, n.target.id, n.body[0]
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name)
            and s.value.value.id == A and isinstance(s.value.slice, ast.Name) and s.value.slice.id == k):
        return
    if sum(1 for x in names(fn) if x.id == k) != 2 or not isinstance(s.targets[0], (ast.Name, ast.Tuple)) or not steady(a[0], n.body):
        return
    if A in {x.id for x in names(s.targets[0])} or not made_list(A, fn):
        return
    n.iter, n.target = a[0].args[0], s.targets[0]
    n.body = n.body[1:] or [ast.copy_location(ast.Pass(), n)]


def made_list(A, fn):
    """A is a list or tuple made in this function (indexing and iterating give the same)"""
    vs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == A for t in x.targets)]
    return bool(vs) and len(vs) == sum(1 for x in names(fn, ast.Store) if x.id == A) and all(
        isinstance(v, (ast.List, ast.ListComp, ast.Tuple)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'tuple', 'sorted')
        for v in vs)


def normalise(tree):
    if any(isinstance(n, ast.While) for n in ast.walk(tree)):
        Counting().visit(tree)
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(f):
                if isinstance(n, ast.For):
                    indexed(n, f)
    return tree


def backing(cls):
    """[(private attribute, property)]: what the properties of a class hand out"""
    out = []
    for f in cls.body:
        if not isinstance(f, ast.FunctionDef) or not f.args.args or not any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decorator_list):
            continue
        me = f.args.args[0].arg
        rets = [n.value for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None]
        held = {x.attr for r in rets for x in ast.walk(r) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me}
        if rets and len(held) == 1:
            a = held.pop()
            if a.startswith('_') and not a.endswith('__'):
                out.append((a, f.name))
    return out


def canonical_names(trees):
    """{private attribute: '_' + property} for private attributes that stand behind exactly one property name and are not spelled after it;
    only where the new spelling is not used for anything else"""
    used, back, methods = set(), {}, set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute):
                used.add(n.attr)
            elif isinstance(n, ast.ClassDef):
                for a, p in backing(n):
                    back.setdefault(a, set()).add(p)
                methods |= {f.name for f in n.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))}
                methods |= {x.id for s in n.body if isinstance(s, (ast.Assign, ast.AnnAssign))
                            for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    out = {}
    for a, ps in back.items():
        if len(ps) == 1 and a not in methods:
            new = ('__' if a.startswith('__') else '_') + next(iter(ps)).lstrip('_')
            if a != new and a.lstrip('_') != new.lstrip('_') and new not in used and new not in methods and new not in out.values():
                out[a] = new
    return out


def respell(tree, names):
    """the attributes of the tree under their canonical names (also in __slots__ and getattr and its kin)"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr in names:
            n.attr = names[n.attr]
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in n.targets):
            for c in ast.walk(n.value):
                if isinstance(c, ast.Constant) and c.value in names:
                    c.value = names[c.value]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'setattr', 'hasattr', 'delattr') and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and n.args[1].value in names:
            n.args[1].value = names[n.args[1].value]
