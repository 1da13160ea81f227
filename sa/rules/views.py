"""Views of a MIDI object over all of its instruments (P06)."""
from . import prop
from ..cases import Cases
from ..lib import *
from ..terms import T, mk, const, num

PM = PKG + 'custom_pretty_midi.CustomPrettyMIDI'
ME = mk('param', 'self')
INS = mk('attr', ME, 'instruments')
# parameters of the views of one instrument, with their defaults
FORMAL = {'get_piano_roll': (('fs', 100), ('times', None), ('pedal_threshold', 64)),
          'get_pitch_class_histogram': (('use_duration', False), ('use_velocity', False), ('normalize', False)),
          'get_pitch_class_transition_matrix': (('normalize', False), ('time_thresh', 0.05)),
          'get_onsets': (), 'get_end_time': (), 'remove_invalid_notes': ()}


def one(t, name):
    """a view of the element of a loop over the instruments"""
    return t.op in ('mres', 'mcall') and t.a[1] == name and t.a[0].op == 'elem' and t.a[0].a[0] is INS


def options(p, t):
    """the options a view of one instrument was taken with: parameter -> term"""
    name = t.a[1]
    pos, kw = list(t.a[2]), {}
    if t.op == 'mcall':
        kw = dict(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], (tuple, frozenset)) else {}
    else:
        for e, _ in walk(p.events):
            if e.a[0] == 'mut' and args(e)[0] is t.a[0] and args(e)[1] == name and tuple(args(e)[2]) == tuple(t.a[2]) and len(args(e)) > 3:
                kw = dict(args(e)[3])
    out = {}
    for i, (n, d) in enumerate(FORMAL[name]):
        out[n] = pos[i] if i < len(pos) else kw.get(n, const(d) if d is not None else NONE)
    return out


def whole(m, value):
    """a map over every instrument giving a value that satisfies the predicate"""
    while m.op == 'call' and m.a[0] in ('list', 'tuple', 'iter') and len(m.a[1]) == 1:
        m = m.a[1][0]
    return m.op == 'map' and m.a[0] is INS and len(m.a[2]) == 1 and all(not conj(g) and value(v) for g, v in m.a[2])


def sources(t):
    """the lists a list of numbers is made of: {name} or None"""
    while t.op == 'call' and t.a[0] in ('list', 'tuple', 'iter', 'sorted', 'set') and len(t.a[1]) == 1 or t.op == 'copyof' or t.op == 'sorted':
        t = t.a[1] if t.op == 'copyof' else t.a[0] if t.op == 'sorted' else t.a[1][0]
    if t.op == 'list':
        return set() if not t.a or all(num(x) and x.a[0] == 0 for x in t.a) else None
    if t.op in ('+', 'bin') and (t.op == '+' or t.a[0] == '+'):
        out = set()
        for x in (y for y in t.a if isinstance(y, T)):
            s = sources(x)
            if s is None:
                return None
            out |= s
        return out
    if t.op == 'map' and len(t.a[2]) == 1:
        g, v = next(iter(t.a[2]))
        if conj(g):
            return None
        b = t.a[0]
        el = mk('elem', b, t.a[3])
        if b is INS:
            return {'instruments'} if one(v, 'get_end_time') else None
        if b.op == 'attr' and b.a[0] is ME and v is mk('attr', el, 'time'):
            return {b.a[1]}
        return sources(b) if v is el else None
    if t.op == 'mcall' and t.a[1] == 'tolist' and not t.a[2] or t.op == 'item':
        x = t.a[0] if t.op == 'mcall' else t
        ok = x.op == 'item' and x.a[1] is const(0) and x.a[0].op == 'fcall' and x.a[0].a[0] == PM + '.get_tempo_changes'
        return {'tempo'} if ok else None
    if t.op == 'content':
        out = set()
        for p in t.a[1]:
            if p[0] == 'order':
                continue
            if p[0] == 'lit':
                s = sources(mk('list', *p[1])) if all(isinstance(x, T) for x in p[1]) else None
            elif p[0] in ('copy', 'extend'):
                s = sources(p[1])
            elif p[0] == 'loop':
                s = passes(p[1], t.a[0])
            else:
                s = None
            if s is None:
                return None
            out |= s
        return out
    return None


def passes(L, obj):
    """the lists a loop that appends goes over"""
    el = mk('elem', L.a[0], L.a[2])
    out = set()
    for lp in L.a[3]:
        if not normal(lp) or conj(lp.a[0]):
            return None
        for e in lp.a[1]:
            if e.a[0] == 'loop':
                s = passes(e.a[1][0], obj)
                if s is None:
                    return None
                out |= s
            elif e.a[0] == 'mut' and args(e)[1] in ('append', 'extend'):
                v = dargs(e)[2][0]
                if args(e)[1] == 'extend':
                    s = sources(v)
                else:
                    s = {L.a[0].a[1]} if L.a[0].op == 'attr' and L.a[0].a[0] is ME and v is mk('attr', el, 'time') else \
                        {'instruments'} if one(v, 'get_end_time') else None
                if s is None:
                    return None
                out |= s
    return out


@prop('P06', 'Every path of the aggregated views is enumerated: the lists, arrays and sums they are made of have to go over every instrument (and every list of '
      'events), each view of an instrument being taken with the options given; normalisation is evaluated for empty and non-empty sums.',
      technique='path-sensitive abstract interpretation with term matching',
      assumptions=('the views of one instrument are those of pretty_midi', 'numpy adds, sorts and slices as documented'))
def p06(ctx):
    ctx.rule('end', 'the end is the latest of all instruments, signatures, lyrics and tempo changes')
    ctx.rule('onsets', 'the onsets of every instrument are given in ascending order')
    ctx.rule('roll', 'the piano roll is the sum of the rolls of every instrument, as wide as the widest')
    ctx.rule('sums', 'the pitch class statistics are sums over every instrument, with the options given')
    ctx.rule('scaled', 'a normalised statistic sums to one, and is all zero when it is empty')
    ctx.rule('chroma', 'each of the twelve rows is the sum of the rows of its pitch class')
    ctx.rule('invalid', 'invalid notes are removed from every instrument')
    f = ctx.p.func(PM + '.get_end_time')
    want = {'instruments', 'time_signature_changes', 'key_signature_changes', 'lyrics', 'tempo'}
    for p in ctx.returns(f.qualname, opaque=(PM + '.get_tempo_changes',)):
        v = p.dvalue
        if num(v):
            ok = v.a[0] == 0 and holds(p.guards, lambda a, q: a.op == 'truthy' and not q and sources(a.a[0]) is not None or
                                       a.op == 'eq' and q and any(x.op == 'call' and x.a[0] == 'len' and sources(x.a[1][0]) is not None for x in a.a))
            ctx.need(ok, 'end', 'nothing', 'the end is %s although there may be events' % short(v), f.loc())
            continue
        s = None
        if v.op == 'call' and v.a[0] in ('max', 'numpy.max', 'numpy.amax') and len(v.a[1]) == 1:
            s = sources(v.a[1][0])
        ctx.need(s is not None, 'end', 'latest', 'the end is %s' % short(v, 100), f.loc())
        for n in sorted(want):
            ctx.need(s is None or n in s, 'end', n, 'the end does not regard %s' % n, f.loc())
    onsets(ctx)
    roll(ctx)
    for n, opts in (('get_pitch_class_histogram', ('use_duration', 'use_velocity')), ('get_pitch_class_transition_matrix', ('normalize', 'time_thresh'))):
        sums(ctx, n, opts)
    chroma(ctx)
    f = ctx.p.func(PM + '.remove_invalid_notes')
    for p in ctx.returns(f.qualname):
        ls = [L for L, ch in loops(p.events) if not ch and L.a[0] is INS]
        n = [[e for e in lp.a[1] if e.a[0] == 'mut' and args(e)[1] == 'remove_invalid_notes' and args(e)[0] is mk('elem', INS, L.a[2])]
             for L in ls for lp in L.a[3]]
        ctx.need(len(ls) == 1 and all(len(x) == 1 for x in n) and n and all(normal(lp) for L in ls for lp in L.a[3]), 'invalid', 'remove_invalid_notes',
                 'not every instrument is asked once to remove its invalid notes', f.loc())
    ctx.floor('end', 6)
    ctx.floor('onsets', 1)
    ctx.floor('roll', 3)
    ctx.floor('sums', 4)
    ctx.floor('scaled', 6)
    ctx.floor('chroma', 13)
    ctx.floor('invalid', 1)


def gathered(t):
    """an array of the onsets of every instrument"""
    if t.op == 'call' and t.a[0] in ('numpy.concatenate', 'numpy.hstack') and t.a[1]:
        t = t.a[1][0]
        if t.op == 'call' and t.a[0] in ('list', 'tuple') and len(t.a[1]) == 1:
            t = t.a[1][0]
        if t.op == 'content' and len(t.a[1]) == 2 and t.a[1][0][0] == 'lit' and t.a[1][1][0] in ('copy', 'extend'):
            t = t.a[1][1][1]
        if t.op in ('+', 'bin'):
            t = [x for x in t.a if isinstance(x, T)][-1]
        return whole(t, lambda v: one(v, 'get_onsets'))
    if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray') and len(t.a[1]) == 1:
        return gathered(t.a[1][0])
    if t.op == 'content' and len(t.a[1]) == 1 and t.a[1][0][0] == 'loop':
        L = t.a[1][0][1]
        return L.a[0] is INS and all(
            normal(lp) and not conj(lp.a[0]) and [one(dargs(e)[2][0], 'get_onsets') for e in lp.a[1] if e.a[0] == 'mut' and args(e)[1] == 'extend'] == [True] and
            not any(e.a[0] == 'mut' and args(e)[1] == 'append' for e in lp.a[1]) for lp in L.a[3])
    if t.op == 'lo':
        L, var = t.a
        start = dict(L.a[4]).get(var)
        if L.a[0] is not INS or start is None or mentions(start, lambda x: x.op in ('param', 'attr', 'const')):
            return False
        for lp in L.a[3]:
            v = dict(lp.a[3]).get(var)
            if not normal(lp) or conj(lp.a[0]) or v is None:
                return False
            parts = [x for x in (v.a[1] if v.op == 'call' else v.a) if isinstance(x, T)]
            if v.op == 'call' and v.a[0] in ('numpy.concatenate', 'numpy.hstack') and len(parts) == 1 and parts[0].op in ('tuple', 'list'):
                parts = list(parts[0].a)
            elif not (v.op == 'call' and v.a[0] == 'numpy.append' or v.op in ('+', 'bin')):
                return False
            if len(parts) != 2 or sum(x is var for x in parts) != 1 or sum(one(x, 'get_onsets') or x.op == 'mcall' and x.a[1] == 'tolist' and one(x.a[0], 'get_onsets') for x in parts) != 1:
                return False
        return True
    return False


def onsets(ctx):
    f = ctx.p.func(PM + '.get_onsets')
    for p in ctx.returns(f.qualname):
        v = p.dvalue
        if p.guards.get(mk('truthy', INS)) is False:
            ctx.need(v.op in ('call', 'res') and not mentions(v, lambda x: x is INS), 'onsets', 'none', 'without instruments the onsets are %s' % short(v, 60), f.loc())
            continue
        ok = v.op == 'call' and v.a[0] in ('numpy.sort',) and len(v.a[1]) == 1 and not v.a[2] and gathered(v.a[1][0])
        if v.op == 'call' and v.a[0] in ('numpy.array', 'numpy.asarray') and v.a[1][0].op == 'sorted':
            s = v.a[1][0]
            ok = s.a[1] in (None, NONE) and s.a[2] in (False, None, const(False)) and gathered(s.a[0])
        if not ok and v.op == 'lo' or v.op == 'call' and gathered(v):
            ok = any(e.a[0] == 'mut' and args(e)[1] == 'sort' and not args(e)[2] and not args(e)[3] and dargs(e)[0] is v for e in p.events) and gathered(v)
        ctx.need(ok, 'onsets', 'get_onsets', 'the onsets are %s' % short(v, 100), f.loc())


def width(t, r):
    """the number of columns of the roll r"""
    return t.op == 'item' and t.a[0] is mk('attr', r, 'shape') and t.a[1] in (const(1), const(-1))


def roll(ctx):
    f = ctx.p.func(PM + '.get_piano_roll')
    P = [mk('param', n) for n in ('fs', 'times', 'pedal_threshold')]
    for p in ctx.returns(f.qualname):
        v = p.dvalue
        made = v.a[0] if v.op == 'res' else v
        shape = made.a[1][0] if made.op == 'call' and made.a[0] == 'numpy.zeros' and made.a[1] else None
        if not ctx.need(shape is not None and shape.op == 'tuple' and len(shape.a) == 2 and shape.a[0] is const(128), 'roll', 'array',
                        'the roll is %s' % short(v, 80), f.loc()):
            continue
        if p.guards.get(mk('truthy', INS)) is False:
            ctx.need(shape.a[1] is const(0), 'roll', 'no instruments', 'without instruments the roll has width %s' % short(shape.a[1]), f.loc())
            continue
        w = shape.a[1]
        m = w.a[1][0] if w.op == 'call' and w.a[0] in ('max', 'numpy.max', 'numpy.amax') and w.a[1] else None
        ctx.need(m is not None and whole(m, lambda x: x.op == 'item' and x.a[0].op == 'attr' and one(x.a[0].a[0], 'get_piano_roll') and width(x, x.a[0].a[0])), 'roll', 'width',
                 'the roll is as wide as %s' % short(w, 80), f.loc())
        ls = [L for L, ch in loops(p.events) if not ch and any(e.a[0] == 'store' and args(e)[0] is v for lp in L.a[3] for e in lp.a[1])]
        outside = [e for e in p.events if e.a[0] == 'store' and args(e)[0] is v]
        if not ctx.need(len(ls) == 1 and ls[0].a[0] is INS and not outside, 'roll', 'sum', 'the rolls are not added in one pass over the instruments', f.loc()):
            continue
        for lp in ls[0].a[3]:
            st = [e for e in lp.a[1] if e.a[0] == 'store' and args(e)[0] is v]
            ok = normal(lp) and not conj(lp.a[0]) and len(st) == 1
            r = None
            if ok:
                at, x = args(st[0])[1], dargs(st[0])[2]
                ops = [y for y in x.a if isinstance(y, T)] if x.op in ('bin', '+') and (x.op == '+' or x.a[0] == '+') else []
                rs = [y for y in ops if one(y, 'get_piano_roll')]
                r = rs[0] if len(rs) == 1 else None
                old = [y for y in ops if y.op == 'item' and y.a[0] is v and y.a[1] is at]
                ok = len(ops) == 2 and r is not None and len(old) == 1 and columns(at, r)
            ctx.need(ok, 'roll', 'added', 'a roll is not added to its own columns', f.loc())
            if r is not None:
                o = options(p, r)
                ctx.need([o['fs'], o['times'], o['pedal_threshold']] == P, 'roll', 'options', 'the roll of an instrument is taken with %s' % {k: short(x, 30) for k, x in o.items()}, f.loc())


def columns(at, r):
    """[:, :width of r]"""
    full = lambda s: s.op == 'slice' and all(x in (NONE, None) for x in s.a)
    part = lambda s: s.op == 'slice' and s.a[0] in (NONE, None, const(0)) and isinstance(s.a[1], T) and width(s.a[1], r) and s.a[2] in (NONE, None, const(1))
    return at.op == 'tuple' and len(at.a) == 2 and full(at.a[0]) and part(at.a[1])


def total_of(t, name):
    """t = the sum of the views of every instrument; -> that view"""
    if t.op == 'res':
        t = t.a[0]
    if t.op == 'call' and t.a[0] in ('sum', 'numpy.sum') and t.a[1]:
        m = t.a[1][0]
        start = t.a[1][1] if len(t.a[1]) > 1 else None
        if t.a[0] == 'sum' and start is not None and not zeros(start):
            return None
        if t.a[0] == 'numpy.sum' and dict(t.a[2]).get('axis') is not const(0):
            return None
        return next((v for g, v in m.a[2]), None) if whole(m, lambda v: one(v, name)) else None
    if t.op == 'lo' and t.a[0].a[0] is INS:
        L, var = t.a
        got = None
        for lp in L.a[3]:
            v = dict(lp.a[3]).get(var)
            ops = [y for y in v.a if isinstance(y, T)] if v is not None and v.op in ('bin', '+') else []
            mine = [y for y in ops if one(y, name)]
            if not normal(lp) or conj(lp.a[0]) or len(ops) != 2 or len(mine) != 1 or not any(y is var for y in ops):
                return None
            got = mine[0]
        return got if zeros(dict(L.a[4]).get(var)) else None
    return None


def zeros(t):
    t = t.a[0] if t is not None and t.op == 'res' else t
    return t is not None and (t.op == 'call' and t.a[0] == 'numpy.zeros' or num(t) and t.a[0] == 0)


def sums(ctx, n, opts):
    f = ctx.p.func(PM + '.' + n)
    norm = mk('param', 'normalize')
    ps = ctx.returns(f.qualname)
    short_name = n[len('get_pitch_class_'):]
    for flag in (False, True):
        for total in (0.0, 2.0, 8.0):
            seen = 0
            for p in ps:
                tops = [t for t in list(subterms(p.dvalue)) if total_of(t, n) is not None]
                B = tops[0] if tops else None

                def leaf(x):
                    if x is B:
                        return 0.0 if total == 0 else total / 4
                    if x is norm or x is mk('truthy', norm):
                        return flag
                    y = x.a[0] if x.op == 'res' else x
                    if B is not None and (y.op in ('mcall', 'mres') and y.a[1] == 'sum' and y.a[0] is B and not y.a[2] or
                                          y.op == 'call' and y.a[0] in ('numpy.sum',) and y.a[1] == (B,) and not y.a[2]):
                        return total
                    if x.op == 'truthy' and x.a[0] is not norm and leaf(x.a[0]) is not None:
                        return bool(leaf(x.a[0]))
                    if x.op == 'eq':
                        a, b = (leaf(z) if not num(z) else z.a[0] for z in (x.a if len(x.a) == 2 else list(x.a[0]) if isinstance(x.a[0], frozenset) and len(x.a[0]) == 2 else (x, x)))
                        return None if a is None or b is None else int(a == b)
                    return None
                case = Cases(leaf)
                if case.lits([l for l in p.guards.items()]) is False:
                    continue
                seen += 1
                if not ctx.need(B is not None, 'sums', short_name, 'the result is %s' % short(p.dvalue, 80), f.loc()):
                    continue
                o = options(p, total_of(B, n))
                for k in FORMAL[n]:
                    want = mk('param', k[0]) if k[0] in opts else const(k[1])
                    ctx.need(o[k[0]] is want, 'sums', short_name + ': ' + k[0], 'an instrument is asked with %s = %s' % (k[0], short(o[k[0]], 30)), f.loc())
                got = case.value(p.dvalue)
                whole_ = leaf(B)
                want = whole_ / (total or 1.0) if flag else whole_
                ctx.need(got is not None and abs(got - want) < 1e-9, 'scaled', short_name,
                         'with normalize=%s an entry %s of a sum %s becomes %s' % (flag, whole_, total, got), f.loc())
            ctx.need(seen > 0, 'scaled', short_name + ': none', 'no path for normalize=%s' % flag, f.loc())


def chroma(ctx):
    f = ctx.p.func(PM + '.get_chroma')
    q = PM + '.get_piano_roll'
    for p in ctx.returns(f.qualname, opaque=(q,)):
        rolls = [args(e)[0] for e, _ in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == q]
        if not ctx.need(len(rolls) == 1, 'chroma', 'roll', 'the piano roll is taken %d times' % len(rolls), f.loc()):
            continue
        r = rolls[0]
        for n in ('fs', 'times', 'pedal_threshold'):
            ctx.need(fc_arg(r, n) is mk('param', n), 'chroma', n, 'the roll is taken with %s = %s' % (n, short(fc_arg(r, n), 40)), f.loc())
        v = p.dvalue
        made = v.a[0] if v.op == 'res' else v
        shape = made.a[1][0] if made.op == 'call' and made.a[0] == 'numpy.zeros' and made.a[1] else None
        rows = {}
        if shape is not None and shape.op == 'tuple' and len(shape.a) == 2 and shape.a[0] is const(12) and width(shape.a[1], r):
            for e, ch in walk(p.events):
                if e.a[0] != 'store' or args(e)[0] is not v:
                    continue
                ks = range(12)
                at = args(e)[1]
                at = at.a[0] if at.op == 'tuple' and len(at.a) == 2 and at.a[1].op == 'slice' and all(x in (NONE, None) for x in at.a[1].a) else at
                if ch and (len(ch) > 1 or ch[0][0].a[0].op != 'range' or conj(ch[0][1].a[0])):
                    rows['?'] = 1
                    continue
                for k in ks:
                    if ch:
                        L = ch[0][0]
                        lo, hi, st = [Cases(lambda x: None).value(x) for x in L.a[0].a]
                        if k not in range(int(lo), int(hi), int(st)):
                            continue
                        leaf = lambda x, el=mk('elem', L.a[0], L.a[2]): k if x is el else None
                    else:
                        leaf = lambda x: None
                    case = Cases(leaf)
                    row = case.value(at)
                    if row is None or (not ch and row != k):
                        if row is None:
                            rows['?'] = 1
                        continue
                    rows.setdefault(int(row), []).append(folded(dargs(e)[2], r, case))
        elif v.op == 'call' and v.a[0] in ('numpy.array', 'numpy.asarray', 'numpy.stack', 'numpy.vstack') and v.a[1]:
            m = v.a[1][0]
            if m.op == 'list':
                rows = {k: [folded(x, r, Cases(lambda y: None))] for k, x in enumerate(m.a)}
            elif m.op == 'map' and m.a[0].op == 'range' and len(m.a[2]) == 1 and not conj(next(iter(m.a[2]))[0]):
                el = mk('elem', m.a[0], m.a[3])
                lo, hi, st = [Cases(lambda x: None).value(x) for x in m.a[0].a]
                if (lo, hi, st) == (0, 12, 1):
                    rows = {k: [folded(next(iter(m.a[2]))[1], r, Cases(lambda y: k if y is el else None))] for k in range(12)}
        for k in range(12):
            ctx.need('?' not in rows and rows.get(k) == [k], 'chroma', 'row %d' % k, 'row %d is the sum of the pitches of class %s' % (k, rows.get(k)), f.loc())


def folded(t, r, case):
    """t = the sum over the rows k::12 of the roll r -> k"""
    ax = None
    if t.op == 'call' and t.a[0] == 'numpy.sum' and t.a[1]:
        x, ax = t.a[1][0], dict(t.a[2]).get('axis', t.a[1][1] if len(t.a[1]) > 1 else None)
    elif t.op in ('mcall', 'mres') and t.a[1] == 'sum':
        x = t.a[0]
        ax = t.a[2][0] if t.a[2] else dict(t.a[3]).get('axis') if t.op == 'mcall' and len(t.a) > 3 else None
    else:
        return None
    if ax is not const(0) or x.op != 'item' or x.a[0] is not r:
        return None
    s = x.a[1]
    if s.op == 'tuple' and len(s.a) == 2 and s.a[1].op == 'slice' and all(y in (NONE, None) for y in s.a[1].a):
        s = s.a[0]
    if s.op != 'slice' or s.a[1] not in (NONE, None):
        return None
    k = 0 if s.a[0] in (NONE, None) else case.value(s.a[0])
    return k if s.a[2] is const(12) else None
