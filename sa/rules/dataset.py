"""Rules about the dataset: D01..D07."""
from . import prop
from ..cases import taken_by
from ..lib import *
from ..loader import Unproved
from ..terms import binop, lenarg
from ..loader import AnalysisBroken, dotted_of, mangle
from .builder import elementwise, NAMES
from .containers import plain_copy

D = PKG + 'midi_dataset.MidiDataset'
B = PKG + 'midi_graph_builder.MidiGraphBuilder'
RD = PKG + 'midi_reader.MidiReader.read'
BUILD, GRAPHS = B + '.build', B + '.graphs'
FILL_OPAQUE = (RD, BUILD, GRAPHS, PKG + 'midi.midi_sequences.MidiNoteSequences.num_instruments')


def me(ctx, f):
    return mk('param', f.params[0])


def reaches(ctx, f, seen=None):
    """does a method of the dataset (or one it calls on self) build graphs"""
    import ast
    seen = set() if seen is None else seen
    if f.qualname in seen:
        return False
    seen.add(f.qualname)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in ('build', 'graphs') and not (isinstance(n.func.value, ast.Name) and n.func.value.id in f.params[:1]):
                return True
            if isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0] if f.params else False:
                g = f.cls.find(n.func.attr) if f.cls else None
                if g is not None and reaches(ctx, g, seen):
                    return True
    return False


def fill_methods(ctx):
    """methods of the dataset called by process() that build the graphs"""
    import ast
    pr = ctx.p.func(D + '.process')
    out, todo, seen = [], [pr], set()
    while todo:
        f = todo.pop()
        if f.qualname in seen:
            continue
        seen.add(f.qualname)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.params[0]:
                nm = n.func.attr
                if nm.startswith('__') and not nm.endswith('__'):
                    nm = '_%s%s' % (f.cls.name.lstrip('_'), nm)
                g = f.cls.find(nm)
                if g is None or not reaches(ctx, g):
                    continue
                if not saves(ctx, g):
                    if g not in out:
                        out.append(g)
                else:
                    todo.append(g)
    if not out:
        raise Unproved('process() calls no method that builds graphs')
    return out


def saves(ctx, f, seen=None):
    """the method (or one of the class it calls) saves a file"""
    seen = set() if seen is None else seen
    if f.qualname in seen:
        return False
    seen.add(f.qualname)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            d = dotted_of(n.func)
            r = ctx.p.resolve(f.module, d) if d else None
            if d and (r == 'torch.save' or d == 'torch.save'):
                return True
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.params and n.func.value.id == f.params[0]:
                g = f.cls.find(mangle(f.cls.name, n.func.attr))
                if g is not None and saves(ctx, g, seen):
                    return True
    return False


def process_paths(ctx):
    fills = [f.qualname for f in fill_methods(ctx)]
    ps = ctx.run(D + '.process', opaque=tuple(fills) + (D + '.load_processed',))
    return [p for p in ps if p.kind == 'return'], fills


def fill_runs(ctx):
    """-> [(fill method, variant or None, paths)]"""
    out = []
    for f in fill_methods(ctx):
        ps = ctx.run(f.qualname, opaque=FILL_OPAQUE)
        out.append((f, ps))
    return out


def variant_of(ctx, f, fc=None):
    """value of is_per_instrument a fill method builds with"""
    vs = set()
    for p in ctx.run(f.qualname, opaque=FILL_OPAQUE):
        for e, ch in walk(p.events):
            if kind(e) == 'fcall' and args(e)[0].a[0] == BUILD:
                v = fc_arg(args(e)[0], 'is_per_instrument')
                if v is not None and v.op == 'param' and fc is not None:
                    v = fc_arg(fc, v.a[0])
                vs.add(v)
    if len(vs) == 1:
        v = vs.pop()
        return v.a[0] if v is not None and is_const(v) and isinstance(v.a[0], bool) else None
    return None


def saved_files(ctx, p, fills):
    """-> [(variant, save event index, path, object, fill index)] of one path of process()"""
    out = []
    last = None
    for i, e in enumerate(p.events):
        if kind(e) == 'fcall' and args(e)[0].a[0] in fills:
            last = (i, e)
        if kind(e) == 'call' and is_call(e, 'torch.save'):
            c = dargs(e)[0]
            a = call_args(c)
            v = variant_of(ctx, ctx.p.func(args(last[1])[0].a[0]), args(last[1])[0]) if last else None
            out.append((v, i, a.get(1, a.get('f')), a.get(0, a.get('obj')), last[0] if last else None, e))
    return out


def is_call(e, name):
    c = args(e)[0]
    return c.op in ('call', 'res') and (c if c.op == 'call' else c.a[0]).a[0] == name


def call_args(c):
    c = c.a[0] if c.op == 'res' else c
    d = dict(enumerate(c.a[1]))
    for k, v in (c.a[2] if len(c.a) > 2 else ()):
        d[k] = v
    return d


def joined(t, me_):
    """os.path.join(self.processed_dir, name) -> name"""
    if t is not None and t.op == 'call' and t.a[0] == 'os.path.join' and len(t.a[1]) == 2 and is_attr(t.a[1][0], 'processed_dir'):
        return t.a[1][1]
    if t is not None and t.op == 'bin' and t.a[0] == '/':
        b = t.a[1]
        if b.op == 'call' and b.a[0] == 'pathlib.Path' and is_attr(b.a[1][0], 'processed_dir'):
            return t.a[2]
    if t is not None and t.op == 'item' and is_attr(t.a[0], 'processed_paths') and num(t.a[1]):
        return mk('pathno', t.a[1].a[0])
    return None


def listed_names(ctx):
    f = ctx.p.func(D + '.processed_file_names')
    vs = {p.dvalue for p in ctx.run(f.qualname) if p.kind == 'return'}
    if len(vs) != 1:
        return None, f
    v = vs.pop()
    return (list(v.a) if v.op in ('list', 'tuple') else None), f


def resolve(n, names):
    if n is not None and n.op == 'pathno' and names and -len(names) <= n.a[0] < len(names):
        return names[n.a[0]]
    return n


# ------------------------------------------------------------------ D01
@prop('D01', 'The file names written by process(), listed by processed_file_names, looked for by processed_file_exists() and opened by load_processed() are computed as '
      'symbolic terms over the configuration and compared, per dataset variant.',
      assumptions=['the processed directory and the options of a dataset do not change after construction'])
def d01(ctx):
    R, R2, R3, R4 = 'D01.listed', 'D01.written', 'D01.loaded', 'D01.exists'
    ctx.rule(R, 'the listed processed file names are two distinct names')
    ctx.rule(R2, 'unless the files exist, process writes each listed name exactly once, in the processed directory, one per variant')
    ctx.rule(R3, 'loading opens the file written for the variant of the dataset')
    ctx.rule(R4, 'the dataset counts as processed only when every listed file exists')
    names, nf = listed_names(ctx)
    if not ctx.need(names is not None and len(names) == 2 and names[0] is not names[1], R, 'processed_file_names', 'the listed names are not two distinct names', nf.loc()):
        return
    ps, fills = process_paths(ctx)
    pf = ctx.p.func(D + '.process')
    by_variant = {}
    for p in ps:
        sv = saved_files(ctx, p, fills)
        exists = all(holds(p.guards, lambda a, q: q and a.op == 'truthy' and a.a[0].op == 'call' and a.a[0].a[0] == 'os.path.exists' and
                           resolve(joined(a.a[0].a[1][0], None), names) is n) for n in names)
        if not sv:
            ctx.need(exists, R2, 'process:none', 'process writes nothing although a processed file may be missing', pf.loc())
            continue
        got = [resolve(joined(x[2], None), names) for x in sv]
        ctx.need(sorted(g.id if g is not None else -1 for g in got) == sorted(n.id for n in names), R2, 'process', 'process writes %s' % [short(g) if g is not None else '?' for g in got], pf.loc())
        for x, g in zip(sv, got):
            by_variant.setdefault(x[0], set()).add(g)
        ctx.need({x[0] for x in sv} == {True, False}, R2, 'process:variants', 'the files written do not hold one variant each', pf.loc())
    lf = ctx.p.func(D + '.load_processed')
    for p in ctx.run(D + '.load_processed'):
        if p.kind != 'return':
            continue
        ld = [dargs(e)[0] for e in p.events if kind(e) == 'call' and is_call(e, 'torch.load')]
        if not ctx.need(len(ld) == 1, R3, 'load_processed:once', '%d files are loaded' % len(ld), lf.loc()):
            continue
        a = call_args(ld[0])
        g = resolve(joined(a.get(0, a.get('f')), None), names)
        flag = lambda want: holds(p.guards, lambda x, q: x.op == 'truthy' and q == want and is_flag(ctx, x.a[0]))
        for want in (True, False):
            if flag(want):
                ctx.need(g is not None and by_variant.get(want) == {g}, R3, 'load_processed:%s' % ('per-instrument' if want else 'merged'),
                         'loads %s, but that variant is written to %s' % (short(g) if g is not None else '?', [short(x) if x is not None else '?' for x in by_variant.get(want, ())]), lf.loc())
        ctx.need(flag(True) or flag(False), R3, 'load_processed:variant', 'a file is loaded without regard to the dataset variant', lf.loc())
    ef = ctx.p.func(D + '.processed_file_exists')
    for p in ctx.run(D + '.processed_file_exists'):
        if p.kind != 'return':
            continue
        v = p.value
        if is_const(v, False):
            gone = lambda a, q: not q and a.op == 'truthy' and exist_test(a.a[0]) is not None and (
                is_attr(exist_test(a.a[0]), 'processed_dir') or resolve(joined(exist_test(a.a[0]), None), names) in names)
            ctx.need(holds(p.guards, gone), R4, 'processed_file_exists:denied', 'the dataset counts as unprocessed although every file may be there', ef.loc())
            continue
        for n in names:
            pred = lambda a, q: q and a.op == 'truthy' and exist_test(a.a[0]) is not None and resolve(joined(exist_test(a.a[0]), None), names) is n
            okk = holds(p.guards, pred) or (v.op == 'bool' and False) or implied(v, pred)
            ctx.need(okk, R4, 'processed_file_exists', 'the dataset counts as processed although %s may be missing' % short(n), ef.loc())
    ctx.floor(R2, 3)
    ctx.floor(R3, 4)
    ctx.floor(R4, 3)


def exist_test(t):
    if t.op == 'call' and t.a[0] in ('os.path.exists', 'os.path.isfile'):
        return t.a[1][0]
    return None


def implied(v, pred):
    """the value being true implies the literal"""
    if v.op == 'truthof' or v.op == 'cond':
        return holds(v.a[0], pred) if isinstance(v.a[0], (frozenset, tuple)) else False
    return False


def is_flag(ctx, t):
    """attribute that holds the per_instrument_graph option"""
    return t.op == 'attr' and option_attrs(ctx).get(t.a[1]) == 'per_instrument_graph'


def option_attrs(ctx):
    """attribute name -> constructor option it holds"""
    if not hasattr(ctx, '_opts'):
        ps = ctx.run(D + '.__init__', opaque=(D + '.load_processed', D + '.processed_file_exists'))
        res = None
        for p in ps:
            if p.kind != 'return':
                continue
            cur = {}
            for e, ch in walk(p.events):
                if kind(e) == 'setattr' and args(e)[0].op == 'param' and args(e)[2].op == 'param':
                    cur[args(e)[1]] = args(e)[2].a[0]
                elif kind(e) == 'setattr' and args(e)[0].op == 'param':
                    cur.pop(args(e)[1], None)
            res = cur if res is None else {k: v for k, v in res.items() if cur.get(k) == v}
        ctx._opts = res or {}
    return ctx._opts


# ------------------------------------------------------------------ D02
@prop('D02', 'The tuple process() saves is compared, component by component, with what load_processed() does with the components: collated data, slices and each lookup '
      'table (by dictionary key) must come back in the attribute of the same meaning.',
      assumptions=['torch.save / torch.load reproduce the saved object'])
def d02(ctx):
    R, R2 = 'D02.saved', 'D02.loaded'
    ctx.rule(R, 'each saved tuple holds the collated data, the slices and a dictionary of the four tables of the builder')
    ctx.rule(R2, 'each component is loaded into the attribute of the same meaning')
    ps, fills = process_paths(ctx)
    pf = ctx.p.func(D + '.process')
    layout = set()
    for p in ps:
        for v, i, path, obj, fi, e in saved_files(ctx, p, fills):
            if obj is None or obj.op not in ('tuple', 'list'):
                ctx.bad(R, 'process:tuple', 'what is saved is %s' % (short(obj) if obj is not None else '?'), eloc(e))
                continue
            lay = []
            for x in obj.a:
                if x.op == 'item' and x.a[0].op == 'mres' and x.a[0].a[1] == 'collate' and num(x.a[1]):
                    lay.append({0: 'data', 1: 'slices'}.get(x.a[1].a[0]))
                elif x.op == 'dictlit':
                    ent = {}
                    for k, t in x.a[0]:
                        src = t
                        while src.op == 'copyof' or (src.op == 'call' and src.a[0] == 'dict' and len(src.a[1]) == 1):
                            src = src.a[1] if src.op == 'copyof' else src.a[1][0]
                        if src.op == 'attr' and src.a[1].lstrip('_') in NAMES and is_const(k):
                            ent[k.a[0]] = src.a[1].lstrip('_')
                    lay.append(tuple(sorted(ent.items())))
                else:
                    lay.append(None)
            ok = sorted(x for x in lay if isinstance(x, str)) == ['data', 'slices'] and len(lay) == 3
            tabs = [dict(x) for x in lay if isinstance(x, tuple)]
            ok = ok and len(tabs) == 1 and sorted(tabs[0].values()) == sorted(NAMES)
            ctx.need(ok, R, 'process:%s' % ('per-instrument' if v else 'merged'), 'the saved tuple holds %s' % lay, eloc(e))
            if ok:
                layout.add(tuple(lay))
    ctx.need(len(layout) == 1, R, 'process:layout', 'the two variants are saved in different layouts', pf.loc())
    ctx.floor(R, 3)
    if len(layout) != 1:
        return
    lay = list(layout)[0]
    lf = ctx.p.func(D + '.load_processed')
    for p in ctx.run(D + '.load_processed'):
        if p.kind != 'return':
            continue
        got = {}
        for e in p.events:
            if kind(e) == 'setattr' and args(e)[0].op == 'param':
                got[args(e)[1]] = dargs(e)[2]
        def comp(t):
            """component of the loaded tuple -> its meaning"""
            if t.op == 'item' and num(t.a[1]) and t.a[0].op in ('call', 'res') and (t.a[0] if t.a[0].op == 'call' else t.a[0].a[0]).a[0] == 'torch.load':
                i = t.a[1].a[0]
                return lay[i] if -3 <= i < 3 else None
            if t.op in ('item', 'mcall'):
                d = comp(t.a[0])
                k = t.a[1] if t.op == 'item' else (t.a[2][0] if t.a[1] == 'get' and t.a[2] else None)
                if isinstance(d, tuple) and k is not None and is_const(k):
                    return dict(d).get(k.a[0])
            return None
        want = {'slices': 'slices'}
        want.update({'_' + n: n for n in NAMES})
        for a, m in want.items():
            ctx.need(a in got and comp(strip1(got[a])) == m, R2, 'load_processed:' + a, '%s is loaded from %s' % (a, short(got[a]) if a in got else 'nothing'), lf.loc())
        d = got.get('data', got.get('_data'))
        ctx.need(d is not None and comp(strip1(d)) == 'data', R2, 'load_processed:data', 'the data is loaded from %s' % (short(d) if d is not None else 'nothing'), lf.loc())
        held = {x for x in ('data', '_data', 'slices') + tuple('_' + n for n in NAMES)}
        loaded = lambda t: t.op == 'call' and t.a[0] == 'torch.load' or t.op == 'attr' and t.a[0].op == 'param' and t.a[1] in held
        for e, ch in walk(p.events):
            if kind(e) in ('setattr', 'store', 'delitem', 'delattr') or kind(e) == 'mut' and args(e)[1] in (
                    'pop', 'popitem', 'clear', 'update', 'append', 'remove', 'insert', 'sort', 'reverse', 'setdefault', '__setattr__', '__setitem__', 'super.__setattr__'):
                o = p.engine.deref(p.st, args(e)[0])
                if o.op != 'param' and mentions(o, loaded):
                    ctx.bad(R2, 'load_processed:after', 'what was loaded is changed: %s of %s' % (kind(e), short(o)), eloc(e))
    ctx.floor(R2, 6)
    R3 = 'D02.opened'
    ctx.rule(R3, 'creating a dataset loads the processed data, after the last time its tables are reset, whenever the processed files exist')
    LOAD, EX = D + '.load_processed', D + '.processed_file_exists'
    f = ctx.p.func(D + '.__init__')
    for p in ctx.run(D + '.__init__', opaque=(LOAD, EX)):
        if p.kind != 'return':
            continue
        sup = [i for i, e in enumerate(p.events) if kind(e) == 'mut' and args(e)[1] == 'super.__init__']
        ld = [i for i, e in enumerate(p.events) if kind(e) == 'fcall' and args(e)[0].a[0] == LOAD and sup and i > sup[0]]
        absent = holds(p.guards, lambda a, q: not q and a.op == 'truthy' and a.a[0].op == 'fcall' and a.a[0].a[0] == EX)
        if not ld:
            ctx.need(absent, R3, 'init:load', 'a new dataset is not loaded although its processed files may exist', f.loc())
            continue
        late = [e for e in p.events[ld[0] + 1:] if kind(e) == 'setattr' and args(e)[0].op == 'param' and (args(e)[1] in ('slices', 'data', '_data') or args(e)[1].lstrip('_') in NAMES)]
        ctx.need(not late, R3, 'init:reset', '%s is reset after the data has been loaded' % (args(late[0])[1] if late else ''), f.loc())
    fresh = [p for p in ps]
    for p in fresh:
        if saved_files(ctx, p, fills):
            k = [e for e in p.events if kind(e) == 'fcall' and args(e)[0].a[0] == LOAD]
            ls = [i for i, e in enumerate(p.events) if kind(e) == 'call' and is_call(e, 'torch.save')]
            early = [i for i, e in enumerate(p.events) if kind(e) == 'fcall' and args(e)[0].a[0] == LOAD and i < max(ls)]
            ctx.need(not early, R3, 'process:load', 'data is loaded before it is saved', pf.loc())
    ctx.floor(R3, 3)


def strip1(t):
    while t.op == 'copyof' or (t.op == 'call' and t.a[0] == 'dict' and len(t.a[1]) == 1):
        t = t.a[1] if t.op == 'copyof' else t.a[1][0]
    return t


# ------------------------------------------------------------------ D03
@prop('D03', 'On every path of process() the event order is checked: one graph building pass per variant, each followed by a collation of the list that very pass filled and by '
      'lookup tables copied after the pass, both saved before the next pass starts on an emptied list.',
      assumptions=['a building pass changes the dataset only through the attributes it assigns'])
def d03(ctx):
    R, R2, R3 = 'D03.data', 'D03.tables', 'D03.reset'
    ctx.rule(R, 'what is saved after a building pass is the collation of the list filled by that pass')
    ctx.rule(R2, 'the saved tables are read from the builder after that pass')
    ctx.rule(R3, 'the list is emptied between the passes')
    ps, fills = process_paths(ctx)
    pf = ctx.p.func(D + '.process')
    lists = {}
    for f, fps in fill_runs(ctx):
        for a in data_lists(fps):
            lists.setdefault(f.qualname, set()).add(a)
    for p in ps:
        sv = saved_files(ctx, p, fills)
        if not sv:
            continue
        for v, i, path, obj, fi, e in sv:
            w = 'per-instrument' if v else 'merged'
            ctx.need(v is not None, R, 'process:variant', 'it is open whether a saved file holds graphs built one per instrument or from all instruments together', eloc(e))
            if fi is None:
                ctx.bad(R, 'process:' + w, 'a file is saved before any graph is built', eloc(e))
                continue
            fc = args(p.events[fi])[0]
            src = [t.a[2][0] for t in subterms(obj) if t.op == 'mres' and t.a[1] == 'collate' and t.a[2]]
            src += [t.a[1][0] for t in subterms(obj) if t.op == 'call' and t.a[0].endswith('collate') and t.a[1]]
            names = lists.get(fc.a[0], set())
            ok = bool(src) and all(s.op == 'attr' and len(s.a) > 2 and s.a[2] == fc.a[2] + 1 and s.a[1] in names for s in src)
            ctx.need(ok, R, 'process:' + w, 'the %s file is saved with %s' % (w, [short(s) for s in src]), eloc(e))
            # collate must happen after the pass as well: a collation result is identified by its argument version
            cps = [j for j, x in enumerate(p.events) if kind(x) == 'copy' and mentions(obj, lambda t: t is args(x)[0])]
            direct = [t for t in subterms(obj) if t.op == 'attr' and t.a[1].lstrip('_') in NAMES]
            ctx.need((cps and all(fi < j < i for j in cps)) or (not cps and bool(direct)), R2, 'process:' + w, 'the tables saved with the %s file are read before its graphs are built' % w, eloc(e))
        fl = [j for j, x in enumerate(p.events) if kind(x) == 'fcall' and args(x)[0].a[0] in fills]
        ctx.need(len(fl) == 2, R3, 'process:passes', '%d building passes' % len(fl), pf.loc())
        for a, b in zip(fl, fl[1:]):
            names = lists.get(args(p.events[b])[0].a[0], set())
            st = [x for x in p.events[a + 1:b] if kind(x) in ('setattr', 'delattr') and args(x)[1] in names or kind(x) == 'mut' and args(x)[1] == 'clear' and args(x)[0].op == 'attr' and args(x)[0].a[1] in names]
            last = st[-1] if st else None
            ok = last is not None and (kind(last) == 'mut' or kind(last) == 'setattr' and (args(last)[2] is NONE or dargs(last)[2].op == 'list' and not dargs(last)[2].a or
                                                                                          (dargs(last)[2].op == 'call' and dargs(last)[2].a[0] == 'list' and not dargs(last)[2].a[1])))
            own = starts_empty(ctx, args(p.events[b])[0].a[0], names)
            ctx.need(ok or own, R3, 'process:reset', 'the graphs of the first pass are still in the list when the second pass starts', pf.loc())
    ctx.floor(R, 2)
    ctx.floor(R2, 2)
    ctx.floor(R3, 2)


def starts_empty(ctx, q, names):
    """a building pass begins by assigning an empty list whatever was there before"""
    for p in ctx.run(q, opaque=FILL_OPAQUE):
        if p.kind != 'return':
            continue
        ok = False
        for e in p.events:
            if kind(e) == 'setattr' and args(e)[1] in names and args(e)[2].op == 'new':
                ok = True
            if kind(e) == 'loop':
                break
        if not ok:
            return False
    return True


def data_lists(fps):
    """attributes of the dataset that a building pass appends graphs to"""
    out = set()
    for p in fps:
        objs = {}
        for e, ch in walk(p.events):
            if kind(e) == 'setattr' and args(e)[0].op == 'param' and args(e)[2].op == 'new':
                objs[args(e)[2]] = args(e)[1]
        for e, ch in walk(p.events):
            if kind(e) == 'mut' and ch and args(e)[1] in ('append', 'extend'):
                t = args(e)[0]
                if t.op == 'attr' and t.a[0].op == 'param':
                    out.add(t.a[1])
                elif t in objs:
                    out.add(objs[t])
    return out


# ------------------------------------------------------------------ graphs of a pass
def graph_iterations(p, f):
    """-> [(events, guards, graph term, absent)] one per way a graph that was built is treated"""
    out = []
    for L, ch in loops(p.events):
        if L.a[0].op == 'fcall' and L.a[0].a[0] == GRAPHS or L.a[0].op == 'gencall' and L.a[0].a[0] == GRAPHS:
            for lp in L.a[3]:
                out.append((L, lp, list(lp.a[1]), set(lp.a[0]), mk('elem', L.a[0], L.a[2]), ch))
    for L, ch in loops(p.events):
        for lp in L.a[3]:
            nx = [t for e in lp.a[1] for a in args(e) for t in subterms(a) if t.op == 'call' and t.a[0] == 'next' or t.op == 'next']
            nx += [t for a, _ in lp.a[0] for t in subterms(a) if t.op == 'call' and t.a[0] == 'next' or t.op == 'next']
            nx = [t for t in dict.fromkeys(nx) if mentions(t, lambda s: s.op in ('fcall', 'gencall') and s.a[0] == GRAPHS)]
            called = any(kind(e) == 'fcall' and args(e)[0].a[0] == GRAPHS for e in lp.a[1])
            if nx and called and not any(kind(e) == 'loop' and e.a[1][0].a[0].op == 'fcall' and e.a[1][0].a[0].a[0] == GRAPHS for e in lp.a[1]):
                out.append((L, lp, list(lp.a[1]), set(lp.a[0]), nx[0], ch))
    return out


def is_absent(guards, g):
    return holds(guards, lambda a, q: q and a.op == 'isnone' and a.a[0] is g or (a.op == 'truthy' and not q and a.a[0] is g))


@prop('D04', 'For every way a graph reaches the dataset the three masks are checked: fresh all-false tensors of one entry per node, each set true on one of three adjacent slices of '
      'one random permutation of the nodes, the slice lengths being int(ratio * nodes).',
      assumptions=['a permutation of n visits every index 0..n-1 once', 'train ratio + validation ratio <= 1 (checked by D07)'])
def d04(ctx):
    R, R2 = 'D04.masks', 'D04.partition'
    ctx.rule(R, 'with masks requested, the graph gets three masks, each a fresh all-false tensor with one entry per node of that graph')
    ctx.rule(R2, 'the masks are set on three adjacent slices of one permutation that together cover it; the first two have the configured sizes')
    opts = option_attrs(ctx)
    split = {a for a, o in opts.items() if o == 'do_split_mask'}
    for f, ps in fill_runs(ctx):
        seen = 0
        for p in ps:
            if p.kind != 'return':
                continue
            for L, lp, evs, guards, g, ch in graph_iterations(p, f):
                stored = [e for e in evs if kind(e) == 'mut' and args(e)[1] == 'append' and args(e)[2] and mentions(args(e)[2][0], lambda t: t is g)]
                if not stored:
                    continue
                off = holds(guards | conj(p.guards), lambda a, q: not q and a.op == 'truthy' and a.a[0].op == 'attr' and a.a[0].a[1] in split)
                ms = {}
                for e in evs:
                    if kind(e) == 'setattr' and args(e)[0] is g and args(e)[1].endswith('_mask'):
                        ms[args(e)[1]] = (args(e)[2], e)
                if off and not ms:
                    ctx.ok(R)
                    continue
                seen += 1
                asked = holds(guards | conj(p.guards), lambda a, q: q and a.op == 'truthy' and a.a[0].op == 'attr' and a.a[0].a[1] in split)
                ctx.need(asked, R, f.name + ':unasked', 'a graph gets masks without masks being requested', f.loc())
                if not ctx.need(set(ms) == {'train_mask', 'val_mask', 'test_mask'}, R, f.name + ':masks', 'a graph gets the masks %s' % sorted(ms), f.loc()):
                    continue
                objs = [ms[k][0] for k in ('train_mask', 'val_mask', 'test_mask')]
                if not ctx.need(len(set(objs)) == 3, R, f.name + ':shared', 'two masks are the same tensor', f.loc()):
                    continue
                sl, okm = {}, True
                for k in ms:
                    m = ms[k][0]
                    n = mask_size(m)
                    okn = n is not None and nodes_of(n, g)
                    okm = ctx.need(okn, R, f.name + ':' + k, '%s is %s' % (k, short(m)), f.loc()) and okm
                    st = [e for e in evs if kind(e) in ('store', 'mut') and (args(e)[0] is m or (args(e)[0].op == 'attr' and args(e)[0].a[0] is g and args(e)[0].a[1] == k))]
                    if not ctx.need(len(st) == 1 and kind(st[0]) == 'store' and is_const(args(st[0])[2], True), R2, f.name + ':' + k + ':set', '%s is not set on exactly one part' % k, f.loc()):
                        okm = False
                        continue
                    sl[k] = part_of(args(st[0])[1])
                if len(sl) != 3 or not okm:
                    continue
                if not ctx.need(all(s is not None for s in sl.values()) and len({s[0] for s in sl.values()}) == 1, R2, f.name + ':permutation', 'the parts are not slices of one permutation', f.loc()):
                    continue
                perm = sl['train_mask'][0]
                c = perm.a[0] if perm.op == 'res' else perm
                okp = c.op == 'call' and c.a[0] in ('numpy.random.permutation', 'torch.randperm') and nodes_of(c.a[1][0], g)
                ctx.need(okp, R2, f.name + ':permuted', 'the parts are slices of %s' % short(perm), f.loc())
                (_, a0, a1), (_, b0, b1), (_, c0, c1) = sl['train_mask'], sl['val_mask'], sl['test_mask']
                adj = zero(a0) and a1 is b0 and b1 is c0 and (is_const(c1, None) or nodes_of(c1, g))
                ctx.need(adj, R2, f.name + ':cover', 'the parts are [%s:%s], [%s:%s], [%s:%s]' % tuple(short(x, 40) for x in (a0, a1, b0, b1, c0, c1)), f.loc())
                if adj:
                    ctx.need(sized(a1, 'train_ratio', g, opts), R2, f.name + ':train-size', 'the train part has %s nodes' % short(a1), f.loc())
                    ctx.need(sized(binop('-', b1, b0), 'val_ratio', g, opts), R2, f.name + ':val-size', 'the validation part has %s nodes' % short(binop('-', b1, b0)), f.loc())
        ctx.need(seen > 0, R, f.name, 'no graph of this pass gets masks', f.loc())
    ctx.floor(R, 8)
    ctx.floor(R2, 8)


def zero(t):
    return is_const(t, None) or is_const(t, 0)


def mask_size(m):
    c = m.a[0] if m.op == 'res' else m
    if c.op == 'mcall' and c.a[1] in ('bool',):
        c = c.a[0]
        c = c.a[0] if c.op == 'res' else c
    if c.op == 'call' and c.a[0] in ('torch.zeros',) and c.a[1]:
        dt = call_args(c).get('dtype')
        if m.op == 'mcall' or (dt is not None and dt.op == 'ext' and dt.a[0] == 'torch.bool'):
            n = c.a[1][0]
            return n.a[0] if n.op in ('tuple', 'list') and len(n.a) == 1 else n
    return None


def nodes_of(n, g):
    """n is the number of nodes of g"""
    if n.op == 'mcall' and n.a[1] == 'size' and n.a[2] and is_const(n.a[2][0], 0):
        x = n.a[0]
    elif n.op == 'item' and is_attr(n.a[0], 'shape') and is_const(n.a[1], 0):
        x = n.a[0].a[0]
    elif lenarg(n) is not None:
        x = lenarg(n)
    elif is_attr(n, 'num_nodes'):
        return n.a[0] is g
    else:
        return False
    return x.op == 'attr' and x.a[0] is g and x.a[1] in ('x', 'y', 'node_hash')


def part_of(k):
    """index built from a slice of a permutation -> (perm, lo, hi)"""
    while k.op == 'call' and k.a[0] in ('torch.tensor', 'torch.from_numpy', 'torch.LongTensor', 'torch.as_tensor', 'list') and k.a[1] or k.op == 'res':
        k = k.a[1][0] if k.op == 'call' else k.a[0]
        if k.op == 'call' and k.a[0] in ('numpy.random.permutation', 'torch.randperm'):
            break
    if k.op == 'item' and k.a[1].op == 'slice' and is_const(k.a[1].a[2], None):
        return k.a[0], k.a[1].a[0], k.a[1].a[1]
    return None


def sized(t, opt, g, opts):
    """t == int(ratio * number of nodes)"""
    if t.op == 'call' and t.a[0] == 'int' and len(t.a[1]) == 1:
        m = t.a[1][0]
        ratio = [s for s in subterms(m) if s.op == 'attr' and opts.get(s.a[1]) == opt]
        size = [s for s in subterms(m) if nodes_of(s, g)]
        return any(m is binop('*', r, n) or m is binop('*', n, r) for r in ratio for n in size)
    return False


# ------------------------------------------------------------------ D05
@prop('D05', 'Every iteration path of both building passes is checked: each raw file is read and built once, each graph handed out by the builder is offered to the pre-filter, and '
      'appended exactly once to the data list, passed through the pre-transform, unless the filter rejected it.',
      assumptions=['a merged build hands out at most one graph (checked by G08)', 'only the two kinds of read errors the passes name skip a file'])
def d05(ctx):
    R, R2, R3 = 'D05.files', 'D05.filter', 'D05.store'
    ctx.rule(R, 'every raw file is read once and built once; only the named read errors skip it')
    ctx.rule(R2, 'a graph is left out exactly when a pre-filter is given and rejects it')
    ctx.rule(R3, 'a graph that is kept is appended once, as returned by the pre-transform when one is given')
    allowed = {'KeyError', 'FileNotFoundError', 'StopIteration'}
    for f, ps in fill_runs(ctx):
        lists = data_lists(ps)
        for p in ps:
            if p.kind != 'return':
                continue
            fl = [L for L, ch in loops(p.events) if L.a[0].op == 'attr' and L.a[0].a[1] in ('raw_paths',) and not ch]
            if not ctx.need(len(fl) == 1, R, f.name + ':loop', '%d loops over the raw files' % len(fl), f.loc()):
                continue
            F = fl[0]
            el = mk('elem', F.a[0], F.a[2])
            for lp in F.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                exc = [a for a, q in conj(lp.a[0]) if a.op == 'exc']
                if exc:
                    names = {n.split('.')[-1] for a in exc for n in exc_names(a)}
                    ctx.need(names and names <= allowed, R, f.name + ':errors', 'a file is skipped on %s' % sorted(names), F_loc(F))
                    ctx.need(normal(lp), R, f.name + ':error-stop', 'an error in one file ends the pass', F_loc(F))
                    continue
                if not normal(lp):
                    ctx.bad(R, f.name + ':stop', 'the pass ends early', F_loc(F))
                    continue
                rd = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == RD]
                bd = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == BUILD]
                gr = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == GRAPHS]
                ok = len(rd) == 1 and len(bd) == 1 and len(gr) == 1 and any(v is el for _, v in args(rd[0])[0].a[1]) and \
                    any(v is args(rd[0])[0] for _, v in args(bd[0])[0].a[1])
                ctx.need(ok, R, f.name + ':read-build', 'a raw file is read %d times, built %d times and its graphs taken %d times' % (len(rd), len(bd), len(gr)), F_loc(F))
            its = graph_iterations(p, f)
            ctx.need(bool(its), R3, f.name + ':none', 'no graph is taken from the builder', f.loc())
            for L, lp, evs, guards, g, ch in its:
                if g.op != 'elem':
                    ctx.need(has_default(g) or caught(guards), R, f.name + ':no graph', 'the pass fails on a file no graph was built from', F_loc(L))
                if out_kind(lp) == 'raise' or any(a.op == 'exc' for a, q in guards):
                    continue
                if L.a[0].op in ('fcall', 'gencall') and not normal(lp):
                    ctx.bad(R3, f.name + ':stop', 'not all graphs of a file are taken', F_loc(L))
                    continue
                ap = [e for e in evs if kind(e) == 'mut' and (args(e)[0].op == 'new' or args(e)[0].op == 'attr' and args(e)[0].a[1] in lists) and args(e)[1] in ('append', 'extend', 'insert')
                      and (args(e)[0].op == 'attr' or is_list_of(p, args(e)[0], lists))]
                allg = guards | conj(p.guards)
                nofilter = holds(allg, lambda a, q: q and a.op == 'isnone' and is_attr(a.a[0], 'pre_filter') or (not q and a.op == 'truthy' and is_attr(a.a[0], 'pre_filter')))
                acc = lambda want: holds(allg, lambda a, q: q == want and a.op == 'truthy' and a.a[0].op in ('mres', 'mcall') and a.a[0].a[1] == 'pre_filter' and a.a[0].a[2] == (g,))
                if not ap:
                    ctx.need(acc(False) or is_absent(allg, g), R2, f.name + ':dropped', 'a graph is left out when %s' % glits_of(guards), F_loc(L))
                    continue
                ctx.need(g.op == 'elem' or not has_default(g) or caught(guards) or holds(allg, lambda a, q: a.op in ('isnone', 'truthy') and a.a[0] is g and q == (a.op == 'truthy')), R3,
                         f.name + ':nothing', 'what is stored may be no graph: the file may have none', F_loc(L))
                ctx.need(nofilter or acc(True), R2, f.name + ':kept', 'a graph is stored without asking the pre-filter', F_loc(L))
                if not ctx.need(len(ap) == 1 and args(ap[0])[1] == 'append', R3, f.name + ':once', 'a graph is stored %d times' % len(ap), F_loc(L)):
                    continue
                v = args(ap[0])[2][0]
                for e in evs:
                    b = spoilt(e, (g, v))
                    ctx.need(b is None, R3, f.name + ':changed', b or '', eloc(e))
                notr = holds(allg, lambda a, q: q and a.op == 'isnone' and is_attr(a.a[0], 'pre_transform') or (not q and a.op == 'truthy' and is_attr(a.a[0], 'pre_transform')))
                ok = v is g if notr else (v.op in ('mres', 'mcall') and v.a[1] == 'pre_transform' and v.a[2] == (g,))
                ctx.need(ok, R3, f.name + ':transform', 'what is stored is %s' % short(v), F_loc(L))
    ctx.floor(R, 4)
    ctx.floor(R2, 4)
    ctx.floor(R3, 4)


CONTENT = ('x', 'y', 'edge_index', 'edge_attr', 'weight', 'num_nodes', 'pos', 'label', 'node_hash', 'attr')


def spoilt(e, graphs):
    """why this event changes the nodes or edges of a graph between the builder and the store, or None"""
    if kind(e) not in ('setattr', 'store', 'delitem', 'delattr', 'mut') or not isinstance(args(e)[0], T):
        return None
    t, name = args(e)[0], args(e)[1]
    name = name.a[0] if isinstance(name, T) and name.op == 'const' else name
    inside = False
    while isinstance(t, T) and t not in graphs:
        if t.op == 'attr' and t.a[1] in CONTENT or t.op == 'item' and t.a[1].op == 'const' and t.a[1].a[0] in CONTENT:
            inside = True
        elif not inside:
            if t.op not in ('item', 'mcall', 'mres', 'cur'):
                return None
        t = t.a[0] if t.op in ('attr', 'item', 'mcall', 'mres', 'cur', 'elem') else None
    if t is None or not isinstance(t, T):
        return None
    if kind(e) == 'mut':
        return 'the %s of a graph is changed in place' % name if inside and isinstance(name, str) and name.endswith('_') else None
    if inside or isinstance(name, str) and name in CONTENT:
        return 'what a graph holds is changed before it is stored (%s)' % (name if isinstance(name, str) else 'items')
    return None


def has_default(g):
    """next(.., default): the iterator may be exhausted"""
    return g.op == 'next' and len(g.a) > 2 or g.op == 'call' and (bool(g.a[2]) or len(g.a[1]) > 1 and g.a[1][0].op == 'map')


def caught(guards):
    return any(a.op == 'exc' and 'StopIteration' in exc_names(a) for a, q in guards)


def is_list_of(p, obj, lists):
    for e, ch in walk(p.events):
        if kind(e) == 'setattr' and args(e)[0].op == 'param' and args(e)[1] in lists and args(e)[2] is obj:
            return True
    return False


def exc_names(a):
    for x in a.a:
        if isinstance(x, str) and ':' not in x and '/' not in x:
            yield x
        elif isinstance(x, T) and x.op in ('ext', 'const', 'cls'):
            yield str(x.a[0])
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                yield y if isinstance(y, str) else str(y.a[0])


def glits_of(gs):
    return ' & '.join(sorted(show_lit(l)[:60] for l in gs))[:200]


def F_loc(L):
    return L.a[5] if len(L.a) > 5 and isinstance(L.a[5], str) else ''


# ------------------------------------------------------------------ D06
@prop('D06', 'The options a building pass hands to the graph builder are collected and each must occur in both processed file names.',
      assumptions=['options that create_tensor ignores do not change the graphs'])
def d06(ctx):
    R = 'D06.named'
    ctx.rule(R, 'every dataset option handed to the graph builder occurs in the processed file names')
    names, nf = listed_names(ctx)
    opts = option_attrs(ctx)
    used = {}
    for f, ps in fill_runs(ctx):
        for p in ps:
            for e, ch in walk(p.events):
                if kind(e) == 'fcall' and args(e)[0].a[0] == BUILD:
                    for k, v in args(e)[0].a[1]:
                        for t in subterms(v):
                            if t.op == 'attr' and t.a[0].op == 'param' and t.a[1] in opts and k not in ('self', 'midi_seqs'):
                                used.setdefault(opts[t.a[1]], (t.a[1], k, f))
    ignored = {k for k in ('velocity_num_buckets',) if unused_in_tensor(ctx, k)}
    if not ctx.need(names is not None, R, 'processed_file_names', 'the processed file names could not be determined', nf.loc()):
        return
    for o, (a, k, f) in sorted(used.items()):
        if k in ignored:
            ctx.notes.append('%s has no effect on the tensors and needs no place in the name' % k)
            continue
        for n in names:
            ctx.need(names_option(n, a), R, o, 'the name %s does not depend on the option %s, which changes the graphs' % (short(n), o), nf.loc())
    ctx.floor(R, 6)


def names_option(n, a):
    if n.op == 'fstr':
        return any(names_option(x, a) for x in (n.a[0] if len(n.a) == 1 and isinstance(n.a[0], tuple) else n.a) if isinstance(x, T))
    if n.op == 'attr':
        return n.a[1] == a and n.a[0].op == 'param'
    if n.op == 'call' and n.a[0] in ('str', 'repr', 'format', 'int'):
        return bool(n.a[1]) and names_option(n.a[1][0], a)
    if n.op in ('mcall',) and n.a[1] in ('format', 'join'):
        return any(names_option(x, a) for x in n.a[2]) or any(names_option(x, a) for _, x in n.a[3])
    if n.op in ('bin', 'lin', 'concat', 'tuple', 'list'):
        return mentions(n, lambda t: t.op == 'attr' and t.a[1] == a)
    return False


def unused_in_tensor(ctx, k):
    for p in ctx.run(B + '.create_tensor'):
        if p.kind == 'return' and (mentions(p.dvalue, lambda t: t is mk('param', k)) or any(
                mentions(a, lambda t: t is mk('param', k)) for e, ch in walk(p.events) for a in dargs(e) if isinstance(a, (T, tuple)))):
            return False
    return True


# ------------------------------------------------------------------ D07
TYPES = {'root': ('str',), 'default_node_attr': ('str',), 'default_webserver': ('str',), 'default_midi_loc': ('str',), 'train_ratio': ('float', 'int'),
         'val_ratio': ('float', 'int'), 'per_instrument_graph': ('bool',), 'per_graph_slit': ('bool',), 'feature_vec_size': ('int',), 'velocity_num_buckets': ('int',),
         'tolerance': ('float',), 'filter_single_notes': ('bool',), 'include_velocity': ('bool',), 'midi_files': ('list',)}
OPTIONAL = ('feature_vec_size', 'velocity_num_buckets', 'midi_files')
CALLABLE = ('transform', 'pre_transform', 'pre_filter')
BOUNDS = {'train_ratio': (0, 1), 'val_ratio': (0, 1), 'feature_vec_size': (1, 128), 'velocity_num_buckets': (1, None)}


@prop('D07', 'Every path of the constructor that reaches the download/process machinery (the base class constructor), or any other file system effect, is checked to have passed '
      'the type test of every option and the range test of every bounded one.',
      assumptions=['the base class constructor is the only entry to downloading and processing'])
def d07(ctx):
    R, R2 = 'D07.type', 'D07.range'
    ctx.rule(R, 'before the first effect every option has been checked to have its documented type')
    ctx.rule(R2, 'before the first effect every bounded option has been checked to be in range')
    f = ctx.p.func(D + '.__init__')
    ps = ctx.run(D + '.__init__', opaque=(D + '.load_processed', D + '.processed_file_exists', D + '.process', D + '.download'))
    n = 0
    for p in ps:
        first = None
        for e, ch in walk(p.events):
            if effect(e):
                first = e
                break
        if first is None:
            continue
        n += 1
        g = set(first.a[2]) if not isinstance(first.a[2], dict) else set(first.a[2].items())
        for name, tys in TYPES.items():
            x = mk('param', name)
            ok = holds(g, lambda a, q: (q and a.op == 'isinst' and a.a[0] is x and {k.a[0].split('.')[-1] for k in a.a[1]} <= set(tys)) or
                       (name in OPTIONAL and q and a.op == 'isnone' and a.a[0] is x))
            ctx.need(ok, R, '__init__:' + name, '%s may have another type than %s when the dataset is processed' % (name, '/'.join(tys)), eloc(first))
        for name in CALLABLE:
            x = mk('param', name)
            ok = holds(g, lambda a, q: q and (a.op == 'isnone' and a.a[0] is x or a.op in ('callable', 'truthy') and mentions(a, lambda t: t is x) and 'callable' in repr(key_of(a))))
            ctx.need(ok, R, '__init__:' + name, '%s may be something that cannot be called when the dataset is processed' % name, eloc(first))
        mf = mk('param', 'midi_files')
        ok = holds(g, lambda a, q: (q and a.op == 'isnone' and a.a[0] is mf) or (a.op == 'any' and not q and mentions(a, lambda t: t is mf) and all_str(a, mf)) or
                   (a.op == 'truthy' and not q and a.a[0] is mf))
        ctx.need(ok, R, '__init__:midi_files:items', 'midi_files may hold something else than strings', eloc(first))
        for name, (lo, hi) in BOUNDS.items():
            x = mk('param', name)
            none = lambda a, q: name in OPTIONAL and q and a.op == 'isnone' and a.a[0] is x
            if lo is not None:
                ctx.need(holds(g, lambda a, q: none(a, q) or lower(a, q, x, lo)), R2, '__init__:%s:low' % name, '%s may be below %s' % (name, lo), eloc(first))
            if hi is not None:
                ctx.need(holds(g, lambda a, q: none(a, q) or upper(a, q, x, hi)), R2, '__init__:%s:high' % name, '%s may be above %s' % (name, hi), eloc(first))
        s = binop('+', mk('param', 'train_ratio'), mk('param', 'val_ratio'))
        ctx.need(holds(g, lambda a, q: upper(a, q, s, 1)), R2, '__init__:sum', 'the ratios may add up to more than 1', eloc(first))
        loc = mk('param', 'default_midi_loc')
        isdir = holds(g, lambda a, q: q and a.op == 'truthy' and mentions(a, lambda t: t is loc) and any(
            t.op == 'mcall' and t.a[1] == 'is_dir' or t.op == 'call' and t.a[0] == 'os.path.isdir' for t in subterms(a)))
        ctx.need(isdir, R2, '__init__:default_midi_loc:dir', 'the search directory may not be a directory', eloc(first))
    ctx.need(n > 0, R, '__init__', 'the constructor never reaches the processing machinery', f.loc())
    # settings inside the range are taken
    plain = {'root': 'r', 'default_node_attr': 'attr', 'default_webserver': '', 'default_midi_loc': '.', 'train_ratio': 0.5, 'val_ratio': 0.25, 'per_instrument_graph': True,
             'per_graph_slit': False, 'feature_vec_size': 12, 'velocity_num_buckets': 8, 'tolerance': 0.5, 'filter_single_notes': False, 'include_velocity': False,
             'midi_files': None, 'transform': None, 'pre_transform': None, 'pre_filter': None}
    for more in [{'train_ratio': a, 'val_ratio': b} for a, b in ((0, 0), (0.0, 1.0), (1.0, 0.0), (1, 0), (0.5, 0.5), (0.7, 0.1))] + \
            [{'feature_vec_size': x} for x in (None, 1, 2, 127, 128)] + [{'velocity_num_buckets': x} for x in (None, 1, 100)] + \
            [{x: y} for x in ('per_instrument_graph', 'per_graph_slit', 'filter_single_notes', 'include_velocity') for y in (True, False)] + [{'midi_files': []}]:
        given = dict(plain, **more)
        bad = [p for p in ps if p.kind == 'raise' and taken_by(p, given) is True]
        ctx.need(not bad and any(p.kind == 'return' and taken_by(p, given) is not False for p in ps), R2, '__init__:accepts',
                 'a dataset with %s is refused' % ', '.join('%s=%s' % x for x in more.items()), f.loc())
    ctx.floor(R, 16)
    ctx.floor(R2, 8)


def key_of(a):
    return show(a)


def all_str(a, mf):
    return any(t.op == 'isinst' and {k.a[0].split('.')[-1] for k in t.a[1]} == {'str'} for t in subterms(a))


def lower(a, q, x, lo):
    """literal implies x >= lo"""
    return a.op == 'lt' and ((a.a[0] is x and num(a.a[1]) and a.a[1].a[0] >= lo and not q) or (num(a.a[0]) and a.a[1] is x and q and a.a[0].a[0] >= lo - (1 if isinstance(lo, int) and lo else 0) and a.a[0].a[0] >= lo - 1 and lo >= 1))


def upper(a, q, x, hi):
    return a.op == 'lt' and ((num(a.a[0]) and a.a[1] is x and a.a[0].a[0] <= hi and not q) or (a.a[0] is x and num(a.a[1]) and q and a.a[1].a[0] <= hi + (1 if hi > 1 else 0)))


FS = ('os.makedirs', 'os.mkdir', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'open', 'torch.save')


def effect(e):
    k = kind(e)
    if k == 'mut' and args(e)[1] in ('super.__init__', 'mkdir', 'unlink', 'write_text', 'write_bytes', 'touch', 'rename', 'rmdir'):
        return True
    if k == 'call':
        c = args(e)[0]
        c = c.a[0] if c.op == 'res' else c
        return c.op == 'call' and (c.a[0] in FS or c.a[0].startswith('shutil.') or 'download_url' in c.a[0])
    if k == 'fcall':
        return args(e)[0].a[0] in (D + '.process', D + '.download')
    return False


# ------------------------------------------------------------------ D08
def takes(t, opts, name):
    """t is the dataset option of that name"""
    return t is not None and t.op == 'attr' and t.a[0].op == 'param' and opts.get(t.a[1]) == name


@prop('D08', 'In both building passes the arguments of every build and graphs call are compared with the attributes the constructor stores its options in; the base class must get '
      'the transforms and the filter under their own roles, and the raw file list must be the given files, or every .mid file of the search directory.',
      assumptions=['attributes holding options are only written by the constructor'])
def d08(ctx):
    R, R2, R3 = 'D08.build', 'D08.base', 'D08.files'
    ctx.rule(R, 'every option of a build has the value of the dataset option of the same meaning, in both variants')
    ctx.rule(R2, 'root, transform, pre-transform and pre-filter go to the base class under their own roles')
    ctx.rule(R3, 'the raw files are the given ones, or every .mid file of the search directory')
    opts = option_attrs(ctx)
    init = ctx.p.func(D + '.__init__')
    bp = [x for x in ctx.p.func(BUILD).params if x not in ('self', 'midi_seqs')]
    pairs = {}
    for k in bp:
        for o in init.params:
            if o == k or 'is_' + o == k:
                pairs[k] = o
    for f, ps in fill_runs(ctx):
        ctx.need(any(kind(e) == 'fcall' and args(e)[0].a[0] == BUILD for p in ps for e, ch in walk(p.events)), R, f.name + ':build', 'no graph is built', f.loc())
        for p in ps:
            for e, ch in walk(p.events):
                if kind(e) != 'fcall':
                    continue
                c = args(e)[0]
                if c.a[0] == BUILD:
                    for k, o in sorted(pairs.items()):
                        v = fc_arg(c, k)
                        ctx.need(takes(v, opts, o), R, '%s:%s' % (f.name, k), 'the graphs are built with %s=%s, not with the option %s of the dataset' % (k, short(v) if v is not None else 'default', o), eloc(e))
                    for k in set(bp) - set(pairs):
                        v = fc_arg(c, k)
                        ctx.need(v is None or is_const(v) or v.op in ('enum', 'param', 'cattr', 'attr'), R, '%s:%s' % (f.name, k), '%s is %s' % (k, short(v)), eloc(e))
                if c.a[0] == GRAPHS:
                    for k, o in (('skip_label', 'remove_label'), ('is_sanity_check', 'do_sanity_check')):
                        v = fc_arg(c, k)
                        ctx.need(takes(v, opts, o), R, '%s:%s' % (f.name, k), 'graphs are handed out with %s=%s, not with the option %s' % (k, short(v) if v is not None else 'default', o), eloc(e))
    ctx.floor(R, 12)
    n = 0
    for p in ctx.run(D + '.__init__', opaque=(D + '.load_processed', D + '.processed_file_exists')):
        sup = [e for e in p.events if kind(e) == 'mut' and args(e)[1] == 'super.__init__']
        if p.kind != 'return' and not sup:
            continue
        if not ctx.need(len(sup) == 1, R2, 'init:base', 'the base class constructor runs %d times' % len(sup), init.loc()):
            continue
        n += 1
        a = args(sup[0])
        want = ['root', 'transform', 'pre_transform', 'pre_filter']
        got = dict(zip(want, a[2]))
        got.update({k: v for k, v in a[3]})
        for k in want:
            v = got.get(k)
            ok = v is not None and (v is mk('param', k) or (k == 'root' and mentions(v, lambda t: t is mk('param', 'root')) and not mentions(v, lambda t: t.op == 'param' and t.a[0] != 'root')))
            ctx.need(ok, R2, 'init:' + k, 'the base class gets %s as %s' % (short(v) if v is not None else 'nothing', k), eloc(sup[0]))
        # the given files are the list of files
        mf = mk('param', 'midi_files')
        given = holds(p.guards, lambda a_, q: a_.op == 'isnone' and a_.a[0] is mf and not q)
        st = [e for e in p.events if kind(e) == 'setattr' and args(e)[1] == 'files' and args(e)[0].op == 'param']
        v = dargs(st[-1])[2] if st else None
        while v is not None and (v.op == 'copyof' or (v.op == 'call' and v.a[0] == 'list' and len(v.a[1]) == 1) or (v.op == 'map' and not v.a[1] and len(v.a[2]) == 1 and not list(v.a[2])[0][0] and list(v.a[2])[0][1].op == 'elem')):
            v = v.a[1] if v.op == 'copyof' else v.a[1][0] if v.op == 'call' else v.a[0]
        if given:
            ctx.need(v is mf, R3, 'init:files', 'the given files are kept as %s' % (short(v) if v is not None else 'nothing'), init.loc())
        else:
            ctx.need(v is not None and (is_const(v, None) or v.op in ('list', 'tuple') and not v.a), R3, 'init:none', 'without given files the list of files is %s' % (short(v) if v is not None else '?'), init.loc())
    ctx.floor(R2, 4)
    rf = ctx.p.func(D + '.raw_file_names')
    files = lambda t: is_attr(t, 'files') and t.a[0].op == 'param'
    for p in ctx.run(D + '.raw_file_names'):
        if p.kind != 'return':
            continue
        v = p.dvalue
        while v.op == 'copyof' or (v.op == 'call' and v.a[0] in ('list', 'tuple') and len(v.a[1]) == 1):
            v = v.a[1] if v.op == 'copyof' else v.a[1][0]
        some = holds(p.guards, lambda a, q: (a.op == 'truthy' and files(a.a[0]) and q) or (a.op == 'lt' and is_const(a.a[0], 0) and files(lenarg(a.a[1]) or NONE) and q))
        none = holds(p.guards, lambda a, q: (a.op == 'truthy' and files(a.a[0]) and not q) or (a.op == 'isnone' and files(a.a[0]) and q) or
                     (a.op == 'lt' and is_const(a.a[0], 0) and files(lenarg(a.a[1]) or NONE) and not q))
        if files(v):
            ctx.need(some, R3, 'raw_file_names:given', 'the raw files are the given files even when none are given', rf.loc())
            continue
        ok = none and v.op == 'map' and mentions(v.a[0], lambda t: t.op == 'call' and t.a[0] in ('os.listdir', 'os.scandir') or t.op == 'mcall' and t.a[1] in ('glob', 'iterdir'))
        if ok:
            where = [o for t in subterms(v.a[0]) if t.op == 'attr' and t.a[0].op == 'param' for o in [t.a[1]]]
            ok = bool(where) and all(from_option(ctx, a, 'default_midi_loc') for a in where)
            ctx.need(ok, R3, 'raw_file_names:where', 'files are searched in %s' % where, rf.loc())
            for g, x in v.a[2]:
                extra = [l for l in g if not mid_test(l)]
                ctx.need(not extra and (x.op == 'elem' or x.op == 'attr' and x.a[1] == 'name'), R3, 'raw_file_names:which', 'a file is left out, or named otherwise, when %s' % [show_lit(l) for l in extra][:1], rf.loc())
                only = any(is_mid(a) and q for a, q in g) or '.mid' in str(v.a[0])
                ctx.need(only, R3, 'raw_file_names:mid', 'files that are not .mid files are listed', rf.loc())
        else:
            ctx.bad(R3, 'raw_file_names', 'the raw files are %s' % short(v), rf.loc())
    ctx.floor(R3, 5)


def is_mid(a):
    return (a.op == 'truthy' and a.a[0].op == 'mcall' and a.a[0].a[1] == 'endswith' and a.a[0].a[2] and (
        is_const(a.a[0].a[2][0], '.mid') or (a.a[0].a[2][0].op == 'tuple' and mk('const', '.mid') in a.a[0].a[2][0].a))) or (
        a.op == 'eq' and is_const(a.a[1], '.mid') or a.op == 'in' and mentions(a.a[1], lambda t: is_const(t, '.mid')))


def mid_test(l):
    """literal that says that an entry is a .mid file"""
    a, q = l
    if is_mid(a):
        return q
    return q and a.op == 'truthy' and (a.a[0].op == 'call' and a.a[0].a[0] == 'os.path.isfile' or a.a[0].op == 'mcall' and a.a[0].a[1] == 'is_file')


def from_option(ctx, attr, option):
    """the constructor computes the attribute from that option alone"""
    for p in ctx.run(D + '.__init__', opaque=(D + '.load_processed', D + '.processed_file_exists')):
        if p.kind != 'return':
            continue
        st = [e for e in p.events if kind(e) == 'setattr' and args(e)[1] == attr and args(e)[0].op == 'param']
        if not st:
            return False
        v = dargs(st[-1])[2]
        if not mentions(v, lambda t: t is mk('param', option)) or mentions(v, lambda t: t.op == 'param' and t.a[0] not in (option, 'self')):
            return False
    return True


# ------------------------------------------------------------------ D09
@prop('D09', 'Every path of download() over a list of given files is checked: each file that exists is copied exactly once into the raw directory under its own name, the same name '
      'replaces its entry in the list of files, and a missing file raises; without given files, each listed name is downloaded into the raw directory.',
      assumptions=['the given files have distinct names', 'shutil.copy and download_url put the file where they are told'])
def d09(ctx):
    R, R2 = 'D09.copy', 'D09.fetch'
    ctx.rule(R, 'each given file is copied into the raw directory under the name it is looked up by; a missing one raises')
    ctx.rule(R2, 'without given files each listed file is fetched into the raw directory')
    f = ctx.p.func(D + '.download')
    copies = ('shutil.copy', 'shutil.copy2', 'shutil.copyfile')
    for p in ctx.run(D + '.download'):
        if p.kind != 'return':
            continue
        for L, ch in loops(p.events):
            if ch:
                continue
            evs = [e for lp in L.a[3] for e, _ in walk(lp.a[1])]
            cp = any(kind(e) == 'call' and any(is_call(e, c) for c in copies) for e in evs)
            dl = any(kind(e) == 'call' and is_call(e, 'torch_geometric.data.download_url') for e in evs)
            if not (cp or dl):
                continue
            el = mk('elem', L.a[0], L.a[2])
            given = is_attr(L.a[0], 'files')
            # the list of names may also be built anew and replace the old one
            anew = [args(e)[2] for e in p.events if kind(e) == 'setattr' and args(e)[1] == 'files']
            anew = anew[0] if len(anew) == 1 and anew[0].op == 'new' and [q for q in p.st.cont.get(anew[0], ()) if q[0] != 'lit' or q[1]] == [('loop', L)] else None
            if cp:
                ctx.need(given and not L.a[1], R, 'download:files', 'the files copied are %s' % short(L.a[0]), F_loc(L))
            elif given:
                on = holds(p.guards, lambda a, q: a.op == 'truthy' and q and is_attr(a.a[0], '_offline'))
                ctx.need(not on, R2, 'download:offline', 'given files are fetched from the network instead of being copied', F_loc(L))
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                ctx.need(normal(lp), R if cp else R2, 'download:stop', 'the remaining files are left out when %s' % glits_of(lp.a[0])[:200], F_loc(L))
                if not normal(lp):
                    continue
                if cp:
                    there = lambda a, q: a.op == 'truthy' and mentions(a.a[0], lambda t: t is el) and not mentions(a.a[0], lambda t: is_attr(t, 'raw_dir')) and (
                        (a.a[0].op == 'mcall' and a.a[0].a[1] in ('exists', 'is_file')) or (a.a[0].op == 'call' and a.a[0].a[0] in ('os.path.exists', 'os.path.isfile')))
                    nofile = holds(lp.a[0], lambda a, q: there(a, q) and not q and (a.a[0].a[1] == 'is_file' or a.a[0].a[0] == 'os.path.isfile'))
                    ctx.need(holds(lp.a[0], lambda a, q: there(a, q) and q), R, 'download:missing', 'a missing file is passed over', F_loc(L))
                    added = [args(e)[2][0] for e in lp.a[1] if kind(e) == 'mut' and args(e)[1] == 'append' and anew is not None and same_obj(args(e)[0], anew)]
                    if anew is not None:
                        ctx.need(len(added) == 1 and (not nofile or added[0] is el), R, 'download:entries', 'a file has %d entries in the new list of files' % len(added), F_loc(L))
                    if nofile:
                        continue
                    c = [dargs(e)[0] for e in lp.a[1] if kind(e) == 'call' and any(is_call(e, x) for x in copies)]
                    samef = holds(lp.a[0], lambda a, q: a.op == 'exc' and 'SameFileError' in str(a.a))
                    st = [e for e in lp.a[1] if kind(e) == 'store' and is_attr(args(e)[0], 'files')]
                    name = dargs(st[0])[2] if len(st) == 1 else added[0] if len(added) == 1 and not st else None
                    ctx.need(name is not None and name.op == 'attr' and name.a[1] == 'name' and mentions(name, lambda t: t is el) or (
                        name is not None and name.op == 'call' and name.a[0] == 'os.path.basename' and mentions(name, lambda t: t is el)), R, 'download:name',
                        'the entry of a copied file becomes %s' % (short(name) if name is not None else 'nothing'), F_loc(L))
                    if st:
                        ctx.need(args(st[0])[1].op == 'idx' and args(st[0])[1].a[0] is L.a[0], R, 'download:entry', 'the entry changed is not the one of the file', F_loc(L))
                    if samef and not c:
                        continue
                    if not ctx.need(len(c) == 1, R, 'download:copy', 'a given file is copied %d times' % len(c), F_loc(L)):
                        continue
                    a = call_args(c[0])
                    src, dst = a.get(0, a.get('src')), a.get(1, a.get('dst'))
                    ctx.need(mentions(src, lambda t: t is el) and not mentions(src, lambda t: is_attr(t, 'raw_dir')), R, 'download:source', 'the file copied is %s' % short(src), F_loc(L))
                    ok = raw_target(dst, name)
                    ctx.need(ok, R, 'download:target', 'the file is copied to %s' % short(dst), F_loc(L))
                else:
                    if not given and holds(lp.a[0], lambda a, q: not q and mid_test((a, True))):
                        continue
                    c = [dargs(e)[0] for e in lp.a[1] if kind(e) == 'call' and is_call(e, 'torch_geometric.data.download_url')]
                    if ctx.need(len(c) == 1, R2, 'download:fetch', 'a listed file is fetched %d times' % len(c), F_loc(L)):
                        a = call_args(c[0])
                        url, folder = a.get(0, a.get('url')), a.get(1, a.get('folder', a.get('root')))
                        ctx.need(mentions(url, lambda t: t is el) and is_attr(folder, 'raw_dir'), R2, 'download:where', 'a file is fetched from %s to %s' % (short(url), short(folder)), F_loc(L))
    R3 = 'D09.given'
    ctx.rule(R3, 'the files given to the constructor are the ones download() copies')
    need = {}
    for p in ctx.run(D + '.download'):
        if p.kind == 'return' and any(not ch and any(kind(e) == 'call' and any(is_call(e, c) for c in copies) for lp in L.a[3] for e, _ in walk(lp.a[1])) for L, ch in loops(p.events)):
            for a, q in all_lits(p.guards):
                t = a.a[0] if a.op in ('truthy', 'isnone') else None
                if a.op in ('truthy', 'isnone') and t.op == 'attr' and t.a[0].op == 'param' and not is_attr(t, 'files'):
                    need[(t.a[1], a.op)] = q
                elif not mentions(a, lambda x: is_attr(x, 'files')):
                    ctx.need(False, R3, 'download:when', 'given files are only copied when %s%s' % ('' if q else 'not ', short(a)), f)
    g = ctx.p.func(D + '.__init__')
    gave = mk('param', 'midi_files')
    for p in ctx.run(g.qualname, opaque=(D + '.load_processed', D + '.processed_file_exists')):
        if p.kind != 'return':
            continue
        none = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is gave and q)
        some = holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is gave and not q)
        sup = [i for i, e in enumerate(p.events) if kind(e) == 'mut' and args(e)[1] == 'super.__init__']
        before = p.events[:sup[0]] if sup else p.events
        last = {}
        for e in before:
            if kind(e) == 'setattr' and args(e)[0].op == 'param':
                last[args(e)[1]] = dargs(e)[2]
        after = [e for e in (p.events[sup[0]:] if sup else []) if kind(e) == 'setattr' and args(e)[0].op == 'param' and args(e)[1] in {'files'} | {k[0] for k in need}]
        loc = g
        ctx.need(not after, R3, 'init:late', 'the list of files is changed after the raw files were prepared', loc)
        v = last.get('files')
        if some:
            raw = [args(e)[2] for e in before if kind(e) == 'setattr' and args(e)[0].op == 'param' and args(e)[1] == 'files']
            ctx.need(not raw or raw[-1] is not gave, R3, 'init:own', "the files kept are the caller's own list, which download() changes", loc)
            ctx.need(v is not None and plain_copy(v) is gave, R3, 'init:files', 'the files kept are %s' % (short(v) if v is not None else 'none'), loc)
            for (nm, op), q in need.items():
                w = last.get(nm)
                if not ctx.need(w is not None and w.op == 'const', R3, 'init:flag', '%s is not set when files are given' % nm, loc):
                    continue
                is_on = bool(w.a[0]) if op == 'truthy' else w.a[0] is None
                ctx.need(is_on == q, R3, 'init:flag', '%s says that no files were given' % nm, loc)
        elif none:
            ctx.need(v is not None and not mentions(v, lambda t: t.op == 'param') or v is gave, R3, 'init:nofiles', 'without given files the list of files is %s' % (short(v) if v is not None else 'unset'), loc)
        else:
            ctx.need(v is not None and (v is gave or plain_copy(v) is gave), R3, 'init:files', 'the files kept are %s' % (short(v) if v is not None else 'none'), loc)
    ctx.floor(R, 6)
    ctx.floor(R2, 2)
    ctx.floor(R3, 3)


def raw_target(dst, name):
    if is_attr(dst, 'raw_dir'):
        return True
    if dst.op == 'call' and dst.a[0] == 'os.path.join' and len(dst.a[1]) == 2:
        return is_attr(dst.a[1][0], 'raw_dir') and (dst.a[1][1] is name)
    if dst.op == 'bin' and dst.a[0] == '/':
        return mentions(dst.a[1], lambda t: is_attr(t, 'raw_dir')) and dst.a[2] is name
    return False
