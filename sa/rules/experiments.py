"""The shared experiment driver: checkpoints and metrics (E01, E02)."""
import fnmatch
import os.path

from . import prop
from ..lib import *
from ..terms import T, mk, const, num, binop

EXP = 'ngc_shared.Experiments'
SELF = mk('param', 'self')


def parts(t):
    """a path as a tuple of terms, joined with separators"""
    if t.op == 'call' and t.a[0] in ('str', 'pathlib.Path', 'os.fspath', 'pathlib.PurePath') and len(t.a[1]) == 1:
        return parts(t.a[1][0])
    if t.op == 'call' and t.a[0] == 'os.path.join':
        return tuple(x for y in t.a[1] for x in parts(y))
    if t.op == 'bin' and t.a[0] == '/':
        return parts(t.a[1]) + parts(t.a[2])
    if t.op in ('mcall', 'mres') and t.a[1] == 'joinpath':
        return parts(t.a[0]) + tuple(x for y in t.a[2] for x in parts(y))
    return (t,)


def pieces(t):
    """a string as constants and terms"""
    return t.a if t.op == 'fstr' else (t,)


def torch_calls(p, name):
    """(arguments by name, guards on the way) of every torch.save or torch.load on a path"""
    out = []
    for e, ch in walk(p.events):
        if e.a[0] != 'call':
            continue
        t = dargs(e)[0]
        while t.op == 'res':
            t = t.a[0]
        if t.op == 'call' and t.a[0] == 'torch.' + name:
            d = dict(zip(('obj', 'f') if name == 'save' else ('f',), t.a[1]))
            d.update(dict(t.a[2]))
            out.append((d, ch, e, t))
    return out


def entries(p, t):
    """{key: value} of a dictionary, however it was put together"""
    if t.op == 'dictlit':
        return {k.a[0]: v for k, v in t.a[0] if k.op == 'const'}
    if t.op == 'call' and t.a[0] == 'dict' and not t.a[1]:
        return dict(t.a[2])
    if t.op == 'new' and t in p.st.cont:
        d = {}
        for part in p.st.cont[t]:
            if part[0] == 'lit' or part[0] == 'dict':
                for kv in part[1]:
                    if isinstance(kv, tuple) and len(kv) == 2 and kv[0].op == 'const':
                        d[kv[0].a[0]] = kv[1]
            elif part[0] in ('store', 'setitem') and part[1].op == 'const':
                d[part[1].a[0]] = part[2]
            else:
                return None
        return d
    if t.op == 'content':
        d = {}
        for part in t.a[1]:
            if part[0] == 'store' and part[1].op == 'const':
                d[part[1].a[0]] = part[2]
            elif part[0] == 'lit' and all(isinstance(kv, tuple) for kv in part[1]):
                d.update({k.a[0]: v for k, v in part[1]})
            else:
                return None
        return d
    return None


def sval(t, env):
    """value of a string expression of a sample file name"""
    if t in env:
        return env[t]
    if t.op == 'const':
        return t.a[0]
    if t.op == 'arg':
        return env.get('arg')
    try:
        if t.op == 'call':
            xs = [sval(x, env) for x in t.a[1]]
            f = {'int': int, 'float': float, 'str': str, 'os.path.basename': os.path.basename, 'os.path.splitext': os.path.splitext, 'os.path.dirname': os.path.dirname,
                 'len': len, 'os.path.split': os.path.split, 'tuple': tuple, 'list': list}.get(t.a[0])
            return f(*xs) if f else None
        if t.op in ('mcall', 'mres'):
            b = sval(t.a[0], env)
            if isinstance(b, str) and t.a[1] in ('split', 'rsplit', 'replace', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix', 'rpartition', 'partition', 'zfill', 'lower'):
                return getattr(b, t.a[1])(*[sval(x, env) for x in t.a[2]], **{k: sval(v, env) for k, v in (t.a[3] if t.op == 'mcall' and len(t.a) > 3 else ())})
            return None
        if t.op == 'item':
            b = sval(t.a[0], env)
            i = t.a[1]
            if i.op == 'slice':
                return b[slice(*[None if x is NONE else sval(x, env) for x in i.a])]
            return b[sval(i, env)]
        if t.op in ('tuple', 'list'):
            return tuple(sval(x, env) for x in t.a)
        if t.op == 'lin' and not t.a[1]:
            return t.a[0]
        if t.op == 'lin' and len(t.a[1]) == 1:
            return t.a[0] + t.a[1][0][1] * sval(t.a[1][0][0], env)
        if t.op == 'attr' and t.a[1] in ('stem', 'name', 'suffix') and isinstance(sval(t.a[0], env), str):
            b = os.path.basename(sval(t.a[0], env))
            return {'name': b, 'stem': os.path.splitext(b)[0], 'suffix': os.path.splitext(b)[1]}[t.a[1]]
    except (TypeError, ValueError, IndexError, KeyError, AttributeError):
        return None
    return None


def the_latest(p, t, names):
    """(listing, True) if the term picks the file of the highest epoch from a listing of files"""
    key = None
    pick = None
    if t.op == 'item' and num(t.a[1]) and t.a[1].a[0] in (-1, 0):
        pick, src = t.a[1].a[0], t.a[0]
    elif t.op == 'item' and any(t.a[1] is binop('-', mk('call', 'len', (x,), ()), const(1)) for x in (t.a[0], t.a[0].a[0])):
        pick, src = -1, t.a[0]
    elif t.op == 'call' and t.a[0] == 'max' and len(t.a[1]) == 1:
        pick, src, key = -1, t.a[1][0], dict(t.a[2]).get('key', NONE)
    elif t.op in ('mcall', 'mres') and t.a[1] == 'pop' and t.a[2] in ((), (const(-1),)):
        pick, src = -1, t.a[0]
    else:
        return None, False
    rev = False
    if src.op == 'content':
        for part in src.a[1]:
            if part[0] == 'order':
                key, rev = part[1][1], part[1][2] is const(True)
            elif part[0] in ('copy', 'extend'):
                src2 = part[1]
        src = src2
    while src.op in ('sorted', 'copyof') or src.op == 'call' and src.a[0] in ('list',):
        if src.op == 'sorted':
            key, rev, src = src.a[1], src.a[2] is const(True), src.a[0]
        else:
            src = src.a[1] if src.op == 'copyof' else src.a[1][0]
    if key is None:
        for e, ch in walk(p.events):
            if e.a[0] == 'mut' and dargs(e)[0] is src and dargs(e)[1] == 'sort' and not ch:
                kw = dict(dargs(e)[3])
                key, rev = kw.get('key', NONE), kw.get('reverse') is const(True)
    if key is None:
        return src, False
    got = []
    for n in names:
        v = n if key is NONE or key.op == 'arg' else sval(key, {'arg': n})
        if v is None:
            return src, False
        got.append(v)
    order = [i for _, i in sorted(zip(got, range(len(got))), reverse=rev)]
    try:
        return src, order[pick] == len(names) - 1
    except (IndexError, TypeError):
        return src, False


@prop('E01', 'Matching of the save and load sides of checkpoints in the symbolic paths of the experiment driver: the entries and the location that '
      'saving uses are found, and loading must restore each entry to where it came from.',
      technique='producer/consumer matching over symbolic paths',
      assumptions=['torch.save and torch.load are inverse', 'the caller passes the state of its optimiser and the same model name and directory'])
def check_e01(ctx):
    ctx.rule('saved', 'a checkpoint holds the epoch, the state of the model and the state of the optimiser, in a file of its own epoch')
    ctx.rule('restored', 'loading gives every entry back to where it came from and continues after the saved epoch')
    ctx.rule('latest', 'loading reads the checkpoint of the highest epoch from the place where saving puts it')
    S = ctx.p.functions.get(EXP + '.save_checkpoint')
    L = ctx.p.functions.get(EXP + '.load_checkpoint')
    if S is None or L is None:
        raise AnalysisBroken('the checkpoint methods of Experiments are gone')
    epoch, opt = mk('param', S.params[1]), mk('param', S.params[2])
    keys, where = {}, None
    for p in ctx.run(S.qualname):
        if p.kind != 'return':
            continue
        calls = torch_calls(p, 'save')
        if not ctx.need(len(calls) == 1 and not calls[0][1], 'saved', 'save_checkpoint', 'a checkpoint is not saved exactly once', S.loc()):
            continue
        d = entries(p, calls[0][0]['obj']) or {}
        got = {}
        for k, v in d.items():
            if v is epoch:
                got['epoch'] = k
            elif v is opt:
                got['optimizer'] = k
            elif v.op in ('mcall', 'mres') and v.a[0] is mk('attr', SELF, 'model') and v.a[1] == 'state_dict':
                got['model'] = k
        for n in ('epoch', 'model', 'optimizer'):
            ctx.need(n in got, 'saved', 'save_checkpoint: %s' % n, 'the checkpoint does not hold the %s' % n, S.loc())
        ctx.need(not keys or keys == got, 'saved', 'save_checkpoint: names', 'entries have different names on different paths', S.loc())
        keys = got
        path = parts(calls[0][0]['f'])
        where = path
        name = pieces(path[-1])
        ctx.need(epoch in name or any(mentions(x, lambda y: y is epoch) for x in name), 'saved', 'save_checkpoint: file', 'checkpoints of different epochs go to one file', S.loc())
    if where is None or len(keys) < 3:
        return
    out_dir, model = [mk('param', n) for n in S.params[3:5]] if len(S.params) >= 5 else (None, None)
    ctx.need(where[:-1] == (out_dir, model), 'saved', 'save_checkpoint: directory', 'the checkpoint goes to %s' % ', '.join(short(x, 30) for x in where[:-1]), S.loc())
    # sample names of two epochs
    name = pieces(where[-1])
    names = ['/'.join(['out', 'some_model', ''.join(str(n) if x is epoch else x.a[0] if x.op == 'const' else '?' for x in name)]) for n in (2, 9, 10, 100)]
    mtype, cdir = mk('param', L.params[1]), mk('param', L.params[2])
    model_t, opt_t = mk('attr', SELF, 'model'), mk('attr', SELF, 'optimizer')
    done = 0
    for p in ctx.run(L.qualname):
        sets = {dargs(e)[1]: (dargs(e)[2], ch) for e, ch in walk(p.events) if e.a[0] == 'setattr' and dargs(e)[0] is SELF}
        muts = [(dargs(e), ch) for e, ch in walk(p.events) if e.a[0] == 'mut' and dargs(e)[0] in (model_t, opt_t) and dargs(e)[1] == 'load_state_dict']
        if p.kind != 'return':
            ctx.bad('restored', 'load_checkpoint', 'it raises %s' % short(p.value, 60), L.loc())
            continue
        if not muts:
            # nothing was found to load
            ctx.need(not sets and absent(p, cdir, mtype), 'restored', 'load_checkpoint: nothing to load', 'a checkpoint is left unread when %s' % short(' & '.join(
                show_lit(g) for g in p.guards.items()), 100), L.loc())
            continue
        done += 1
        loads = [c for c in torch_calls(p, 'load')]
        ck = None
        for owner, n in ((model_t, 'model'), (opt_t, 'optimizer')):
            got = [a for a, ch in muts if a[0] is owner]
            a = got[0][2][0] if len(got) == 1 and got[0][2] else None
            ok = a is not None and a.op == 'item' and a.a[1] is const(keys[n]) and a.a[0].op in ('call', 'res') and (ck is None or ck is a.a[0])
            ctx.need(ok, 'restored', 'load_checkpoint: %s' % n, 'the %s gets %s' % (n, short(a, 80) if a is not None else 'nothing'), L.loc())
            ck = a.a[0] if ok else ck
        if ck is None:
            continue
        src = next((c for c in loads if c[3] is ck or ck.op == 'res' and ck.a[0] is c[3]), None)
        nxt = binop('+', mk('item', ck, const(keys['epoch'])), const(1))
        for n in ('start_epoch', 'current_epoch'):
            v = sets.get(n, (None, ()))
            ctx.need(v[0] is nxt and not v[1], 'restored', 'load_checkpoint: %s' % n, 'training continues at %s' % (short(v[0], 60) if v[0] is not None else 'the old epoch'), L.loc())
        if not ctx.need(src is not None, 'latest', 'load_checkpoint', 'what is restored is not a file that was read', L.loc()):
            continue
        lst, last = the_latest(p, src[0]['f'], names)
        ctx.need(last, 'latest', 'load_checkpoint: order', 'the file read is %s, which is not the one of the highest epoch' % short(src[0]['f'], 80), L.loc())
        while lst is not None and lst.op == 'res':
            lst = lst.a[0]
        ok = False
        if lst is not None and lst.op == 'call' and lst.a[0] in ('glob.glob', 'glob.iglob'):
            g = parts(lst.a[1][0])
            pat = g[-1].a[0] if g[-1].op == 'const' else ''
            ok = g[:-1] == (cdir, mtype) and all(fnmatch.fnmatch(os.path.basename(n), pat) for n in names)
        elif lst is not None:
            ok = mentions(lst, lambda x: x is cdir) and mentions(lst, lambda x: x is mtype)
        ctx.need(ok, 'latest', 'load_checkpoint: place', 'files are looked for in %s' % (short(lst, 80) if lst is not None else '?'), L.loc())
    # where both sides look when the caller does not say
    d1, d2 = default_of(S, 3), default_of(L, 2)
    ctx.need(d1 == d2, 'latest', 'default directory', 'checkpoints are saved in %s and loaded from %s' % (d1, d2), L.loc())
    ctx.need(done > 0, 'restored', 'load_checkpoint', 'no path restores a checkpoint', L.loc())
    ctx.floor('saved', 5)
    ctx.floor('restored', 6)
    ctx.floor('latest', 3)


def absent(p, cdir, mtype):
    """the path only does nothing because there is no directory or no file"""
    for a, v in p.guards.items():
        if a.op == 'truthy' and not v:
            t = a.a[0]
            if t.op == 'call' and t.a[0] in ('os.path.exists', 'os.path.isdir', 'glob.glob') and mentions(t, lambda x: x is mtype):
                return True
            if t.op in ('content', 'new', 'map', 'sorted') or mentions(t, lambda x: x.op == 'call' and x.a[0] in ('glob.glob', 'os.listdir')):
                return True
        if a.op == 'eq' and v and const(0) in a.a:
            return True
    return False


def default_of(f, i):
    import ast
    a = f.node.args
    names = f.params
    d = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    v = d[i] if i < len(d) else None
    return ast.literal_eval(v) if isinstance(v, ast.Constant) else (ast.unparse(v) if v is not None else None)


@prop('E02', 'Matching of what the experiment driver records, saves and loads: the list each metric is appended to, the entries and files written, and the '
      'entries read back into the lists.',
      technique='producer/consumer matching over symbolic paths',
      assumptions=['torch.save and torch.load are inverse', 'the metric lists are saved and loaded by the same driver class'])
def check_e02(ctx):
    ctx.rule('recorded', 'every metric that is given is appended once to the list of its own name')
    ctx.rule('saved', 'every list is saved under its own name with its own values')
    ctx.rule('loaded', 'every list that is saved is loaded back from the same file and name')
    ctx.rule('cleared', 'clearing empties every list')
    c = ctx.p.cls(EXP)
    lists = [n for n, v in inits(ctx).items() if v]
    files = {}
    for n, f in sorted(c.methods.items()):
        if not n.startswith('update_'):
            continue
        params = f.params[1:]
        target = {}
        for p in ctx.run(f.qualname):
            if p.kind != 'return':
                ctx.bad('recorded', n, 'it raises', f.loc())
                continue
            seen = {}
            for e, ch in walk(p.events):
                a = dargs(e)
                if e.a[0] == 'mut' and a[0].op == 'attr' and a[0].a[0] is SELF and a[0].a[1] in lists:
                    ctx.need(a[1] == 'append' and not ch and len(a[2]) == 1 and a[2][0].op == 'param', 'recorded', '%s: %s' % (n, a[0].a[1]),
                             'the list is changed by %s(%s)' % (a[1], ', '.join(short(x, 40) for x in a[2])), f.loc())
                    if a[2] and a[2][0].op == 'param':
                        seen.setdefault(a[2][0].a[0], []).append(a[0].a[1])
                elif e.a[0] == 'setattr' and a[0] is SELF and a[1] in lists:
                    ctx.bad('recorded', '%s: %s' % (n, a[1]), 'the list is replaced', f.loc())
            for q in params:
                none = p.guards.get(mk('isnone', mk('param', q)))
                got = seen.get(q, [])
                if none:
                    ctx.need(not got, 'recorded', '%s: %s' % (n, q), 'a missing value is recorded', f.loc())
                    continue
                ctx.need(len(got) == 1 and own_name(q, got[0]), 'recorded', '%s: %s' % (n, q), 'the value is recorded in %s' % (', '.join(got) or 'no list'), f.loc())
                if got:
                    target[q] = got[0]
            saves = torch_calls(p, 'save')
            due = is_due(p)
            if due is not None:
                ctx.need(len(saves) == (1 if due else 0), 'saved', n, 'metrics are saved %d times when they are%s due' % (len(saves), '' if due else ' not'), f.loc())
            for d, ch, e, t in saves:
                ents = entries(p, d['obj'])
                if not ctx.need(ents is not None, 'saved', n, 'what is saved is not a dictionary of lists', f.loc()):
                    continue
                for k, v in ents.items():
                    ctx.need(v is mk('attr', SELF, k) or plain(v) is mk('attr', SELF, k), 'saved', '%s: %s' % (n, k), 'under this name goes %s' % short(v, 60), f.loc())
                for q, l in target.items():
                    ctx.need(l in ents, 'saved', '%s: %s' % (n, l), 'the list is not saved', f.loc())
                key = file_key(d['f'], mk('attr', SELF, 'model_type'))
                ctx.need(key is not None, 'saved', '%s: file' % n, 'the file is %s' % short(d['f'], 80), f.loc())
                others = [m for k, (m, _) in files.items() if k == key and m != n]
                ctx.need(not others, 'saved', '%s: file' % n, 'the file is also written by %s' % (others[0] if others else ''), f.loc())
                if key is not None:
                    files[key] = (n, set(ents))
        ctx.need(len(set(target.values())) == len(target), 'recorded', n, 'two metrics go to one list', f.loc())
    L = c.find('load_checkpoint')
    if L is None:
        raise AnalysisBroken('Experiments.load_checkpoint is gone')
    mtype = mk('param', L.params[1])
    read = set()
    for p in ctx.run(L.qualname):
        sets = [(dargs(e)[1], dargs(e)[2], ch) for e, ch in walk(p.events) if e.a[0] == 'setattr' and dargs(e)[0] is SELF and dargs(e)[1] in lists]
        loads = torch_calls(p, 'load')
        for l, v, ch in sets:
            v = plain(v)
            src = next((d for d, _, _, t in loads if v.op == 'item' and (v.a[0] is t or v.a[0].op == 'res' and v.a[0].a[0] is t)), None)
            key = file_key(src['f'], mtype) if src else None
            ok = v.op == 'item' and v.a[1] is const(l) and key is not None
            if ctx.need(ok, 'loaded', 'load_checkpoint: %s' % l, 'the list becomes %s' % short(v, 80), L.loc()):
                ctx.need(key in files and l in files[key][1], 'loaded', 'load_checkpoint: %s' % l, 'it is read from a file that does not hold it', L.loc())
        # every file that is there is read completely
        if not torch_calls(p, 'load'):
            continue
        got = {l for l, _, _ in sets}
        for a, v in all_lits(p.guards):
            if a.op == 'in' and name_key(a.a[0], mtype) in files:
                ctx.need(listing_ok(p, a.a[1], mtype, name_key(a.a[0], mtype)), 'loaded', 'load_checkpoint: files', 'file names are compared with %s' % short(a.a[1], 80), L.loc())
        for key, (n, ents) in sorted(files.items()):
            if holds(p.guards, lambda a, v: not v and missing(a, key, mtype)):
                continue
            read.add(key)
            for l in sorted(ents):
                ctx.need(l in got, 'loaded', 'load_checkpoint: %s' % l, 'the list is saved and not loaded', L.loc())
    for key, (n, ents) in sorted(files.items()):
        ctx.need(key in read, 'loaded', 'load_checkpoint: %s' % key, 'the file written by %s is never read' % n, L.loc())
    C = c.find('clear_metric')
    if C is not None:
        for p in ctx.run(C.qualname):
            for l in lists:
                last = None
                for e, ch in walk(p.events):
                    a = dargs(e)
                    if not ch and e.a[0] == 'setattr' and a[0] is SELF and a[1] == l:
                        last = a[2]
                    elif not ch and e.a[0] == 'mut' and a[0] is mk('attr', SELF, l) and a[1] == 'clear':
                        last = mk('list')
                ctx.need(last is not None and (last.op in ('list', 'new') and not (last.op == 'list' and last.a)), 'cleared', 'clear_metric: %s' % l, 'the list keeps its values', C.loc())
    ctx.floor('recorded', 15)
    ctx.floor('saved', 15)
    ctx.floor('loaded', 15)
    ctx.floor('cleared', 10)


def missing(a, key, mtype):
    """if the atom does not hold, there is no file of metrics to be read"""
    if a.op == 'in':
        return name_key(a.a[0], mtype) == key
    if a.op == 'truthy' and a.a[0].op == 'call' and a.a[0].a[0] in ('os.path.exists', 'os.path.isfile'):
        return file_key(a.a[0].a[1][0], mtype) == key
    return a is mk('truthy', mk('attr', SELF, 'save_metrics'))


def plain(t):
    while t.op == 'copyof' or t.op == 'call' and t.a[0] == 'list' and len(t.a[1]) == 1:
        t = t.a[1] if t.op == 'copyof' else t.a[1][0]
    return t


def inits(ctx):
    out = {}
    for p in ctx.run(EXP + '.__init__'):
        if p.kind == 'return':
            for e, ch in walk(p.events):
                if e.a[0] == 'setattr' and dargs(e)[0] is SELF:
                    v = dargs(e)[2]
                    out[dargs(e)[1]] = v.op == 'list' and not v.a or v.op == 'new' and v.a[0] == 'list'
    return out


def own_name(q, l):
    """train_f1 -> train_f1s, loss_avg -> train_losses"""
    return l.startswith(q) or set(q.split('_')) & {'loss'} and 'loss' in l


def is_due(p):
    """are metrics to be saved on this path? None if unknown"""
    sm, rate = mk('attr', SELF, 'save_metrics'), mk('attr', SELF, 'metrics_rate')
    if p.guards.get(mk('truthy', sm)) is False or p.guards.get(mk('truthy', rate)) is False:
        return False
    for a, v in p.guards.items():
        if a.op == 'eq' and const(0) in a.a or a.op == 'truthy':
            m = next((x for x in a.a if isinstance(x, T) and x.op == 'bin' and x.a[0] == '%'), None)
            if m is not None and m.a[1] is mk('attr', SELF, 'current_epoch') and m.a[2] is rate:
                return v if a.op == 'eq' else not v
    if any(a.op == 'or' for a in p.guards):
        return False
    return None


def name_key(t, who):
    ps = pieces(t)
    if len(ps) == 2 and ps[0] is who and ps[1].op == 'const':
        return ps[1].a[0]
    if t.op == 'bin' and t.a[0] == '+' and t.a[1] is who and t.a[2].op == 'const':
        return t.a[2].a[0]
    return None


def file_key(t, who):
    """suffix of a file named after the model in the directory of metrics"""
    ps = parts(t)
    if len(ps) != 2 or ps[0] is not mk('attr', SELF, 'metrics_dir'):
        return None
    return name_key(ps[1], who)


def listing_ok(p, t, mtype, key):
    """the names compared are base names of the files in the directory of metrics, and the file of that name is among them"""
    found = []

    def look(x):
        if x.op == 'call' and x.a[0] in ('glob.glob', 'glob.iglob'):
            found.append(x)
        return False
    d = deep(p, t)
    mentions(d, look)
    if not mentions(d, lambda x: x is mk('attr', SELF, 'metrics_dir')):
        return False
    base = mentions(d, lambda x: x.op == 'call' and x.a[0] == 'os.path.basename' or x.op == 'attr' and x.a[1] == 'name')
    if not found:
        return mentions(d, lambda x: x.op == 'call' and x.a[0] in ('os.listdir', 'os.scandir'))
    for g in found:
        ps = parts(g.a[1][0])
        pat = ''.join('mymodel' if x is mtype else x.a[0] if x.op == 'const' else '\0' for x in pieces(ps[-1]))
        if ps[:-1] != (mk('attr', SELF, 'metrics_dir'),) or not fnmatch.fnmatch('mymodel' + key, pat):
            return False
    return base


def deep(p, t):
    """content of a local container"""
    if t.op == 'new' and t in p.st.cont:
        xs = []

        def flat(x):
            if isinstance(x, T):
                xs.append(x)
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    flat(y)
        flat(p.st.cont[t])
        return mk('tuple', *xs)
    return t
