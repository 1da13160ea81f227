"""Collections that only grow: what was read, built, converted or written is not taken out again. The collections are named by the
attribute that holds them; taking out means removing items, cutting the list or filtering it, directly or under a local name. The few
operations whose purpose is to take something out are decided by rules of their own."""
import ast

GROW = {'notes', '_notes', '_drum_events', 'pitch_bends', 'control_changes', '_control_changes', '_pitch_bends', 'instruments', 'lyrics', 'text_events',
        'key_signature_changes', 'time_signature_changes', '_tick_scales', 'tempo_signatures', 'tempo_signature', 'time_signatures',
        'key_signatures', 'all_classes', 'data_list', '_data_list', 'files', '_hash_to_index', '_index_to_hash', '_hash_to_notes', '_notes_to_hash',
        'hash_to_index', 'index_to_hash', 'hash_to_notes', 'notes_to_hash', 'train_mask', 'val_mask', 'test_mask'}
# operations that are there to take something out (P07, R05 and the sequence rules say what)
TAKES_OUT = {'adjust_times', 'remove_invalid_notes'}
OTHER = ('interval/', 'midi_sequence', 'sorted_dict', 'sorted_interval', 'ngc_shared', 'examples')
CALLS = {'pop', 'popitem', 'clear', 'remove', 'discard', 'popleft', 'difference_update', 'intersection_update'}
VIEWS = {'list', 'tuple', 'set', 'sorted', 'dict', 'copy', 'deepcopy', 'reversed'}


def holds(e, alias):
    """name of the collection the expression is, or None"""
    if isinstance(e, ast.Attribute):
        a = e.attr.split('__')[-1] if e.attr.startswith('_') and '__' in e.attr else e.attr
        return a if a in GROW else None
    if isinstance(e, ast.Name):
        return alias.get(e.id)
    return None


def taken_out(fn):
    """-> (collection, line)"""
    alias, once = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            once[n.id] = once.get(n.id, 0) + 1
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
            if isinstance(t, ast.Name) and isinstance(v, ast.Attribute) and once[t.id] == 1 and holds(v, {}):
                alias[t.id] = holds(v, {})
            # a list made here and put into the attribute
            if isinstance(v, ast.Name) and isinstance(t, ast.Attribute) and holds(t, {}) and once.get(v.id) == 1:
                alias[v.id] = holds(t, {})
    returned = {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CALLS:
            c = holds(n.func.value, alias)
            if c is None and isinstance(n.func.value, ast.Name) and n.func.value.id in returned and not n.args and n.func.attr in ('pop', 'popitem', 'clear'):
                c = n.func.value.id
            if c:
                yield c, n.lineno
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    c = holds(t.value, alias)
                    if c is None and isinstance(t.value, ast.Name) and t.value.id in returned and isinstance(t.slice, ast.Slice):
                        c = t.value.id
                    if c:
                        yield c, n.lineno
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and holds(n.targets[0], {}):
            same, v = ast.unparse(n.targets[0]), n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in VIEWS and len(v.args) == 1:
                v = v.args[0]
            if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and ast.unparse(v.value) == same and (v.slice.lower or v.slice.upper):
                yield holds(n.targets[0], {}), n.lineno
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(v.generators) == 1 and v.generators[0].ifs and \
                    ast.unparse(v.generators[0].iter) == same:
                yield holds(n.targets[0], {}), n.lineno


def check(ctx, repo_trees):
    """common rule of every property, over the functions its analysis went through"""
    raw = {}
    for q in sorted(ctx.analysed):
        f = ctx.p.functions.get(q)
        if f is None or f.node.name in TAKES_OUT or any(x in f.module.relpath for x in OTHER):
            continue
        rel = f.module.relpath
        if rel not in raw:
            raw[rel] = {n.lineno: n for n in ast.walk(ast.parse(repo_trees[rel][0])) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))}
        fn = raw[rel].get(f.node.lineno)
        if fn is None:
            continue
        for name, line in taken_out(fn):
            ctx.bad('kept', '%s:%s' % (q, name), 'something is taken out of %s again (line %d)' % (name, line), f.loc())
        ctx.ok('kept')
