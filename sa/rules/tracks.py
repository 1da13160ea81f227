"""The set of tracks (S10): what it reports about its tracks and signatures, and how it cuts them."""
from . import prop
from .sequences import ME, SEQ, SEQS, table_names
from ..cases import Cases
from ..lib import *
from ..terms import T, mk, const, num

OPAQUE = (SEQ + '.get_midi_events', SEQ + '.is_quantized', SEQ + '.slice', SEQS + '.get_all_sequence_events', SEQS + '.trim')


def strip_call(t, names):
    while t.op == 'call' and t.a[0] in names and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


class Set:
    """the terms that denote the tracks of the set"""
    def __init__(self, ctx):
        names = table_names(ctx)
        self.name = next(n for n, w in names.items() if w == 'S')
        self.t = mk('attr', ME, self.name)

    def setup(self, en, st):
        st.guards[mk('isnone', self.t)] = False

    def is_table(self, t):
        """the table, its keys or an iterator over them"""
        while True:
            if t.op == 'mcall' and t.a[1] == 'keys' or t.op == 'copyof':
                t = t.a[0] if t.op == 'mcall' else t.a[1]
            elif t.op == 'call' and t.a[0] in ('iter', 'list', 'tuple', 'sorted') and len(t.a[1]) == 1:
                t = t.a[1][0]
            else:
                break
        return t is self.t or t.op == 'attr' and t.a[0] is ME and t.a[1] == self.name

    def track(self, t, lid=None):
        """the sequence of the element of a loop over the table"""
        if t.op == 'item' and self.is_table(t.a[0]):
            k = t.a[1]
            return k.op == 'elem' and self.is_table(k.a[0])
        return t.op == 'elem' and t.a[0].op in ('mcall', 'mres') and t.a[0].a[1] == 'values' and self.is_table(t.a[0].a[0])

    def asked(self, t, name):
        """arguments of the call of the method `name` of the track"""
        if t.op in ('mres', 'mcall') and t.a[1] == name and self.track(t.a[0]):
            return tuple(t.a[2])
        if t.op == 'fcall' and t.a[0] == SEQ + '.' + name and self.track(fc_arg(t, 'self')):
            return tuple(v for k, v in t.a[1] if k != 'self')
        return None

    def events(self, t):
        return self.asked(t, 'get_midi_events') == () or t.op == 'attr' and t.a[1] in ('notes', '_notes') and self.track(t.a[0])


def returns(ctx, S, q):
    return [p for p in ctx.run(q, opaque=tuple(o for o in OPAQUE if o != q), setup=S.setup) if p.kind == 'return']


def all_events(S, v, order=()):
    """v = the events of every track, -> the orders it was put in"""
    v = strip_call(v, ('list', 'tuple'))
    if v.op == 'sorted':
        return all_events(S, v.a[0], order + (('sorted',) + tuple(v.a[1:]),))
    if v.op == 'lo':
        L, var = v.a
        start = dict(L.a[4]).get(var)
        ok = S.is_table(L.a[0]) and start is not None and empty(start) and all(
            normal(lp) and not conj(lp.a[0]) and dict(lp.a[3]).get(var) is not None and plus(dict(lp.a[3])[var], var, S) for lp in L.a[3])
        return order if ok else None
    if v.op == 'map' and len(v.a[2]) == 1:
        g, x = next(iter(v.a[2]))
        b = v.a[0]
        if not conj(g) and x.op == 'elem' and x.a[0] is b:
            return all_events(S, b, order)
        return None
    if v.op == 'call' and v.a[0].startswith('itertools.chain') and len(v.a[1]) == 1:
        m = strip_call(v.a[1][0], ('list', 'tuple'))
        if m.op in ('map', 'star') and m.op == 'map' and S.is_table(m.a[0]) and len(m.a[2]) == 1:
            g, x = next(iter(m.a[2]))
            return order if not conj(g) and S.events(x) else None
        return None
    if v.op == 'content':
        out = order
        seen = 0
        for part in v.a[1]:
            if part[0] == 'loop':
                L = part[1]
                obj = v.a[0]
                if not S.is_table(L.a[0]) or not all(normal(lp) and not conj(lp.a[0]) and adds_events(S, lp.a[1], obj) for lp in L.a[3]):
                    return None
                seen += 1
            elif part[0] == 'order':
                out = out + (part[1],)
            else:
                return None
        return out if seen == 1 else None
    return None


def empty(t):
    return t.op == 'list' and not t.a or t.op == 'new' or t.op == 'content' and not t.a[1]


def plus(t, var, S):
    return t.op in ('bin', '+') and [x for x in t.a if isinstance(x, T)][:1] == [var] and S.events([x for x in t.a if isinstance(x, T)][1])


def adds_events(S, events, obj):
    """the iteration adds the events of its track to the list, and nothing else"""
    n = 0
    is_obj = lambda t: t.op in ('new', 'objid') and tuple(t.a)[-2:] == tuple(obj.a)[-2:] if isinstance(obj, T) else t is obj
    for e in events:
        if e.a[0] == 'mut' and is_obj(args(e)[0]):
            if args(e)[1] != 'extend' or not S.events(dargs(e)[2][0]):
                return False
            n += 1
        elif e.a[0] == 'loop':
            L = e.a[1][0]
            el = mk('elem', L.a[0], L.a[2])
            for lp in L.a[3]:
                own = [x for x in lp.a[1] if x.a[0] == 'mut' and is_obj(args(x)[0])]
                if own and not (S.events(L.a[0]) and normal(lp) and not conj(lp.a[0]) and len(own) == 1 and args(own[0])[1] == 'append' and args(own[0])[2][0] is el):
                    return False
                n += bool(own)
    return n == 1


def by(order, name):
    """the last order is ascending in the attribute"""
    if not order or order[-1][0] != 'sorted':
        return False
    k, rev = order[-1][1], order[-1][2]
    if rev not in (False, None) and rev is not const(False):
        return False
    if k is None or k is NONE:
        return name == 'midi_time'      # events compare by time (N06)
    k = strip_call(k, ('float',))
    return k.op == 'attr' and k.a[0].op == 'arg' and k.a[1].lstrip('_') == name


def steady(L):
    return all(out_kind(lp) in ('fall', 'continue') for lp in L.a[3])


@prop('S10', 'Every path of the queries of a set of tracks is enumerated: counts, listings and events are matched with passes over the table of tracks, the '
      'bounded iterators and truncation are evaluated for every order of event, bound and offset, and trimming has to store the cut of each track under its own index.',
      technique='path-sensitive abstract interpretation with order-type evaluation of the filters',
      assumptions=('signatures compare by their time (N06)', 'the table of tracks is a dictionary with its keys in order (C01)'))
def s10(ctx):
    ctx.rule('counts', 'the counts are those of the tracks')
    ctx.rule('lists', 'the listings go over every track')
    ctx.rule('quantised', 'the set is quantised exactly when every track is')
    ctx.rule('events', 'all events of all tracks are listed in order of their start')
    ctx.rule('bounded', 'exactly the signatures up to the bound are given, in order of time')
    ctx.rule('tempo', 'the initial tempo is that at time zero, else the first, else the default')
    ctx.rule('cut', 'every track is replaced by its own cut to the range')
    S = Set(ctx)
    count = mk('call', 'len', (S.t,), ())
    for n in ('__len__', 'num_track'):
        f = ctx.p.func(SEQS + '.' + n)
        for p in returns(ctx, S, f.qualname):
            v = p.dvalue
            ok = v.op == 'call' and v.a[0] == 'len' and S.is_table(v.a[1][0]) or p.guards.get(mk('truthy', S.t)) is False and v is const(0)
            ok = ok or v.op == 'call' and v.a[0] == 'sum' and one_each(S, v.a[1][0])
            ctx.need(ok, 'counts', n, 'the result is %s' % short(v, 100), f.loc())
    f = ctx.p.func(SEQS + '.num_instruments')
    for p in returns(ctx, S, f.qualname):
        v = p.dvalue
        m = None
        if v.op == 'call' and v.a[0] == 'len' and v.a[1][0].op == 'call' and v.a[1][0].a[0] in ('set', 'frozenset') and v.a[1][0].a[1]:
            m = v.a[1][0].a[1][0]
        ok = m is not None and m.op == 'map' and S.is_table(m.a[0]) and all(
            not conj(g) and x.op == 'attr' and x.a[1].lstrip('_') == 'instrument_num' and x.a[0].op == 'attr' and x.a[0].a[1] == 'instrument' and S.track(x.a[0].a[0])
            for g, x in m.a[2])
        ok = ok or p.guards.get(mk('truthy', S.t)) is False and v is const(0)
        ctx.need(ok, 'counts', 'num_instruments', 'the result is %s' % short(v, 100), f.loc())
    f = ctx.p.func(SEQS + '.instrument_midi_seq_len')
    k = mk('param', f.params[1])
    for p in returns(ctx, S, f.qualname):
        v = p.dvalue
        there = p.guards.get(mk('in', k, S.t))
        x = v.a[1][0] if v.op == 'call' and v.a[0] == 'len' and len(v.a[1]) == 1 else None
        if x is not None and x.op == 'attr' and x.a[1] in ('notes',):
            x = x.a[0]
        own = x is not None and x.op == 'item' and S.is_table(x.a[0]) and x.a[1] is k
        ok = own if there is True else v is const(0) if there is False else False
        ctx.need(ok, 'counts', 'instrument_midi_seq_len', 'of a track that is %s the number of notes is %s' % ('held' if there else 'not held', short(v, 80)), f.loc())
    f = ctx.p.func(SEQS + '.__iter__')
    for p in ctx.run(f.qualname, opaque=OPAQUE, setup=S.setup):
        if p.kind != 'return':
            continue
        ok = S.is_table(p.dvalue) and p.dvalue is not NONE
        ys = [L for L, ch in loops(p.events) if not ch]
        if not ok and len(ys) == 1 and S.is_table(ys[0].a[0]) and not ys[0].a[1]:
            el = mk('elem', ys[0].a[0], ys[0].a[2])
            ok = all(normal(lp) and [args(e)[0] for e in lp.a[1] if e.a[0] == 'yield'] == [el] for lp in ys[0].a[3])
        ctx.need(ok, 'lists', '__iter__', 'the iteration is over %s' % short(p.dvalue, 80), f.loc())
    f = ctx.p.func(SEQS + '.instruments')
    for p in returns(ctx, S, f.qualname):
        v = strip_call(p.dvalue, ('list', 'tuple'))
        ok = v.op == 'map' and S.is_table(v.a[0]) and not v.a[1] and len(v.a[2]) == 1 and all(
            not conj(g) and x.op == 'attr' and x.a[1] == 'instrument' and S.track(x.a[0]) for g, x in v.a[2])
        ctx.need(ok, 'lists', 'instruments', 'the result is %s' % short(v, 100), f.loc())
    quantised(ctx, S)
    f = ctx.p.func(SEQS + '.get_all_sequence_events')
    for p in returns(ctx, S, f.qualname):
        o = all_events(S, p.dvalue)
        ctx.need(o is not None, 'events', 'all of them', 'the result is %s' % short(p.dvalue, 100), f.loc())
        ctx.need(o is None or by(o, 'start_time'), 'events', 'order', 'the events are not put in order of their start', f.loc())
    for n, lst, zero in (('slice_time_signatures', 'time_signatures', False), ('slice_key_signatures', 'key_signatures', False),
                         ('slice_tempo_signature', 'tempo_signatures', True)):
        bounded(ctx, S, n, mk('attr', ME, lst), zero)
    initial(ctx, S)
    trimmed(ctx, S)
    truncated(ctx, S)
    ctx.floor('counts', 5)
    ctx.floor('lists', 2)
    ctx.floor('quantised', 1)
    ctx.floor('events', 2)
    ctx.floor('bounded', 12)
    ctx.floor('tempo', 4)
    ctx.floor('cut', 5)


def one_each(S, m):
    return m.op == 'map' and S.is_table(m.a[0]) and len(m.a[2]) == 1 and all(not conj(g) and x is const(1) for g, x in m.a[2])


def quantised(ctx, S):
    f = ctx.p.func(SEQS + '.is_quantized')

    def test(a):
        """the atom asks the track whether it is quantised"""
        return a.op == 'truthy' and S.asked(a.a[0], 'is_quantized') == ()

    def says(t, one):
        """the value when one track is (not) quantised and the others are"""
        if t.op == 'const':
            return t.a[0]
        if t.op == 'truthy':
            return one if test(t) else says(t.a[0], one)
        if t.op == 'not':
            x = says(t.a[0], one)
            return None if x is None else not x
        if t.op == 'any' and S.is_table(t.a[0]):
            out = [all(test(a) for a, q in conj(g)) and all(q == one for a, q in conj(g)) for g in t.a[1]]
            if any(not all(test(a) for a, q in conj(g)) or len(conj(g)) != 1 for g in t.a[1]) or len(t.a[1]) != 1:
                return None
            wants = next(iter(conj(next(iter(t.a[1])))))[1]
            # some track with the answer `wants`: with one unlike the others; a set of quantised tracks may be empty
            return not one if wants is False else None
        if t.op == 'call' and t.a[0] in ('all', 'bool') and len(t.a[1]) == 1:
            if t.a[0] == 'bool':
                return says(t.a[1][0], one)
            m = t.a[1][0]
            if m.op == 'map' and S.is_table(m.a[0]) and len(m.a[2]) == 1 and all(not conj(g) and S.asked(x, 'is_quantized') == () for g, x in m.a[2]):
                return one
            return None
        if t.op == 'lo' and S.is_table(t.a[0].a[0]) and steady(t.a[0]):
            L, var = t.a
            if dict(L.a[4]).get(var) is not const(True):
                return None
            for cur in (True, False):
                leaf = lambda x: cur if x is var or x.op == 'truthy' and x.a[0] is var else one if test(x) or S.asked(x, 'is_quantized') == () else None
                took = [lp for lp in L.a[3] if Cases(leaf).lits(conj(lp.a[0])) is not False]
                if not took or any(bool_of(Cases(leaf), dict(lp.a[3]).get(var, var), leaf) is not (cur and one) for lp in took):
                    return None
            return one
        return None
    for p in returns(ctx, S, f.qualname):
        bad = [(a, q) for a, q in conj(p.guards) if test(a) and q is False]
        good = None
        if bad:
            good = p.dvalue is const(False)
        else:
            mine = [L for L, ch in loops(p.events) if S.is_table(L.a[0]) and not ch]
            early = [L for L in mine if any(out_kind(lp) == 'return' for lp in L.a[3])]
            if early and p.dvalue is const(True):
                good = all(any(test(a) and q is (out_kind(lp) != 'return') for a, q in conj(lp.a[0])) for L in early for lp in L.a[3])
            else:
                v = [says(p.dvalue, one) for one in (True, False)]
                some = [(a, q) for a, q in conj(p.guards) if a.op == 'any']
                good = v == [True, False] or bool(some) and v[0] is v[1] and all(says(a, one) is not None for a, q in some for one in (True, False)) and all(
                    v[0] is one for one in (True, False) if all(says(a, one) is q for a, q in some))
        ctx.need(good, 'quantised', 'is_quantized', 'the result is %s' % short(p.dvalue, 120), f.loc())


def bool_of(case, t, leaf):
    v = case.value(t)
    return leaf(t) if v is None else v


def bounded(ctx, S, name, lst, zero):
    f = ctx.p.func(SEQS + '.' + name)
    hi = mk('param', f.params[1])
    srt = mk('param', f.params[2])
    for p in ctx.run(f.qualname, opaque=OPAQUE, setup=S.setup):
        if p.kind != 'return':
            continue
        v = strip_call(p.dvalue, ('iter', 'list', 'tuple'))
        if v.op == 'map':
            L, el = v, mk('elem', v.a[0], v.a[3])
            ways = [(conj(g), [x], True) for g, x in v.a[2]]
        else:
            ls = [L for L, ch in loops(p.events) if not ch and any(e.a[0] == 'yield' for lp in L.a[3] for e in lp.a[1])]
            if not ctx.need(len(ls) == 1, 'bounded', name, 'the signatures are not given in one pass', f.loc()):
                continue
            L = ls[0]
            el = mk('elem', L.a[0], L.a[2])
            ways = [(conj(lp.a[0]), [args(e)[0] for e in lp.a[1] if e.a[0] == 'yield'], out_kind(lp) in ('fall', 'continue')) for lp in L.a[3]
                    if out_kind(lp) != 'raise']
        base = strip_call(L.a[0], ('list', 'tuple'))
        while base.op == 'copyof':
            base = base.a[1]
        if not ctx.need(base is lst, 'bounded', name + ' of', 'the pass is over %s' % short(base, 60), f.loc()):
            continue
        unsorted = p.guards.get(mk('truthy', srt)) is False
        ctx.need(unsorted and not L.a[1] or by(L.a[1], 'midi_time'), 'bounded', name + ' order', 'the signatures are not given in order of time', f.loc())
        in_order = by(L.a[1], 'midi_time')
        for b in (None, 0.0, 1.0, 2.5, 1000.0):
            for t in (0.0, 1e-7, 0.5, 1.0, 1.5, 2.5, 3.0, 999.0, 5000.0):
                def leaf(x):
                    if x is mk('isnone', hi):
                        return b is None
                    if x is mk('truthy', hi):
                        return bool(b)
                    if x is hi:
                        return b
                    if x is srt or x is mk('truthy', srt):
                        return not unsorted
                    if x.op == 'attr' and x.a[0] is el and x.a[1].lstrip('_') == 'midi_time':
                        return t
                    return True if x is mk('truthy', el) else False if x is mk('isnone', el) else None
                case = Cases(leaf)
                want = (b is None or t <= b) and not (zero and t == 0.0)
                took = [w for w in ways if case.lits(w[0]) is not False] if v.op != 'map' else [w for w in ways if case.lits(w[0]) is True]
                if any(case.lits(p.guards.items()) is False for _ in (0,)):
                    continue
                given = [x for w in took for x in w[1]]
                ok = given == [el] if want else not given
                # a pass in order may end at the first signature after the bound
                ok = ok and all(w[2] or in_order and b is not None and t > b for w in took)
                ctx.need(ok, 'bounded', name, 'up to %s a signature at %s is %s' % (b, t, 'left out' if want else 'given'), f.loc())


def initial(ctx, S):
    f = ctx.p.func(SEQS + '.initial_tempo')
    lst = mk('attr', ME, 'tempo_signatures')
    default = None
    for p in returns(ctx, S, f.qualname):
        v = strip_call(p.dvalue, ('float',))
        none = p.guards.get(mk('truthy', lst)) is False
        at_zero = lambda a, el: a.op == 'eq' and {x for x in a.a if num(x)} and any(x.op == 'attr' and x.a[0] is el and x.a[1] == 'midi_time' for x in a.a) and \
            all(x.a[0] == 0 for x in a.a if x.op == 'const')
        some = [(a, q) for a, q in conj(p.guards) if a.op == 'any' and a.a[0] is lst and len(a.a[1]) == 1 and
                all(at_zero(x, mk('elem', lst, a.a[2])) and y for x, y in next(iter(a.a[1]))) and next(iter(a.a[1]))]
        if none:
            ok = v.op == 'const' and v.a[0] in (480, 120)
            what = 'without tempo changes'
        elif v.op == 'attr' and v.a[1] == 'qpm' and v.a[0].op == 'elem' and v.a[0].a[0] is lst:
            ok = holds(p.guards, lambda a, q: q and at_zero(a, v.a[0]))
            what = 'with a tempo at time zero'
        else:
            firsts = [L for L, ch in loops(p.events) if not ch and L.a[0] is lst and any(out_kind(lp) == 'return' for lp in L.a[3])]
            alone = some and all(not q for a, q in some) or firsts and all(
                holds(lp.a[0], lambda a, q, el=mk('elem', lst, L.a[2]): at_zero(a, el) and q is (out_kind(lp) == 'return')) for L in firsts for lp in L.a[3])
            ok = bool(alone) and v.op == 'attr' and v.a[1] == 'qpm' and v.a[0] is mk('item', lst, const(0))
            if v.op == 'attr' and v.a[0].op == 'call' and v.a[0].a[0] == 'next':
                ok = v.a[1] == 'qpm' and next_zero(v.a[0], lst, at_zero)
            what = 'without a tempo at time zero'
        ctx.need(ok, 'tempo', 'initial_tempo ' + what, 'the result is %s when %s' % (short(v, 80), short_guards(p)), f.loc())
        ctx.ok('tempo')


def next_zero(t, lst, at_zero):
    m = t.a[1][0]
    return m.op == 'map' and m.a[0] is lst and len(m.a[2]) == 1 and all(
        x is mk('elem', lst, m.a[3]) and len(conj(g)) == 1 and all(q and at_zero(a, x) for a, q in conj(g)) for g, x in m.a[2]) and \
        (len(t.a[1]) < 2 or t.a[1][1] is mk('item', lst, const(0)))


def short_guards(p):
    return ' & '.join(sorted(show_lit(l)[:60] for l in conj(p.guards)))[:160]


def trimmed(ctx, S):
    f = ctx.p.func(SEQS + '.trim')
    end, start = (mk('param', x) for x in f.params[1:3])
    for p in returns(ctx, S, f.qualname):
        ls = [L for L, ch in loops(p.events) if not ch and S.is_table(L.a[0])]
        if not ctx.need(len(ls) == 1 and steady(ls[0]), 'cut', 'trim', 'not every track is cut once', f.loc()):
            continue
        for lp in ls[0].a[3]:
            st = [e for e in lp.a[1] if e.a[0] == 'store' and S.is_table(args(e)[0])]
            ok = len(st) == 1 and args(st[0])[1] is mk('elem', ls[0].a[0], ls[0].a[2]) and not conj(lp.a[0])
            a = cut_args(S, dargs(st[0])[2]) if ok else None
            ctx.need(ok and a is not None, 'cut', 'trim: stored', 'a track does not become its own cut to the range', f.loc())
            if a is not None:
                ctx.need(a == (start, end), 'cut', 'trim: range', 'a track is cut to the range from %s to %s' % tuple(short(x, 40) for x in a), f.loc())


def cut_args(S, t):
    if t.op == 'fcall' and t.a[0] == SEQ + '.slice' and S.track(fc_arg(t, 'self')):
        return fc_arg(t, 'start'), fc_arg(t, 'end')
    if t.op in ('mres', 'mcall') and t.a[1] == 'slice' and S.track(t.a[0]):
        kw = dict(t.a[3]) if t.op == 'mcall' and len(t.a) > 3 and isinstance(t.a[3], tuple) else {}
        a = list(t.a[2]) + [kw.get(k) for k in ('start', 'end')[len(t.a[2]):]]
        return a[0], a[1]
    return None


def truncated(ctx, S):
    f = ctx.p.func(SEQS + '.truncate')
    start, off = (mk('param', x) for x in f.params[1:3])
    G = SEQS + '.get_all_sequence_events'
    refused = [p for p in ctx.run(f.qualname, opaque=OPAQUE, setup=S.setup) if p.kind == 'raise' and not any(a.op == 'exc' for a, q in conj(p.guards))]
    for o in (-1.0, -1e-9):
        case = Cases(lambda x: False if x is mk('isnone', off) else o if x is off else None)
        ctx.need(any(case.lits(p.guards.items()) is not False for p in refused), 'cut', 'truncate: negative', 'a negative offset is not refused', f.loc())

    def filters(m):
        """m = end times of the events up to the offset"""
        if m.op != 'map' or m.a[0].op != 'fcall' or m.a[0].a[0] != G:
            return False
        el = mk('elem', m.a[0], m.a[3])
        for o in offsets():
            for t in (0.0, 0.5, 1.0, 1.0 + 1e-7, 2.5, 9.0):
                case = Cases(lambda x: o is None if x is mk('isnone', off) else o if x is off else t if is_end(x, el) else None)
                got = [case.value(v) for g, v in m.a[2] if case.lits(conj(g)) is not False]
                if got != ([t] if o is None or t <= o else []):
                    return False
        return True

    def offsets():
        """the offsets the path at hand allows"""
        g = conj(now[0].guards) if now else ()
        return [o for o in (None, 0.0, 1.0, 2.5) if Cases(lambda x: o is None if x is mk('isnone', off) else None).lits(g) is not False]
    now = []

    def is_end(x, el):
        return x.op == 'attr' and x.a[0] is el and x.a[1] in ('event_end_time', 'end_time')

    def running(t):
        """t = the latest end up to the offset, None without any: a loop-carried maximum"""
        if t.op != 'lo' or t.a[0].a[0].op != 'fcall' or t.a[0].a[0].a[0] != G or not steady(t.a[0]):
            return False
        L, var = t.a
        el = mk('elem', L.a[0], L.a[2])
        first = dict(L.a[4]).get(var)
        seeded = first is not None and first.op == 'item' and first.a[1] is const(0) and filters(now[0].engine.deref(now[0].st, first.a[0]))
        if first is not NONE and not seeded:
            return False
        for o in offsets():
            for cur in (0.25, 1.0, 2.0) + (() if seeded else (None,)):
                for e in (0.0, 0.25, 0.5, 1.0, 1.0 + 1e-7, 2.5, 9.0):
                    def leaf(x):
                        if x is mk('isnone', off):
                            return o is None
                        if x is mk('isnone', var):
                            return cur is None
                        return o if x is off else cur if x is var else e if is_end(x, el) else None
                    case = Cases(leaf)
                    took = [lp for lp in L.a[3] if case.lits(conj(lp.a[0])) is not False]
                    keep = o is None or e <= o
                    want = cur if not keep else e if cur is None else max(cur, e)
                    for lp in took:
                        v = dict(lp.a[3]).get(var, var)
                        got = None if v is NONE or v is var and cur is None else case.value(v)
                        if got != want:
                            return False
                    if not took:
                        return False
        return True

    def latest(v):
        if v.op == 'call' and v.a[0] == 'max' and len(v.a[1]) == 1 and dict(v.a[2]).get('default', NONE) is NONE:
            return filters(strip_call(v.a[1][0], ('list', 'tuple', 'set', 'sorted')))
        return running(v)
    for p in ctx.run(f.qualname, opaque=OPAQUE, setup=S.setup):
        if p.kind != 'return':
            continue
        v = p.dvalue
        now[:] = [p]
        calls = [args(e)[0] for e, _ in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == SEQS + '.trim']
        empty = (mk('isnone', v), True) in conj(p.guards)
        if v.op == 'call' and v.a[0] == 'max' and dict(v.a[2]).get('default') is NONE and not empty:
            ctx.need((mk('isnone', v), False) in conj(p.guards), 'cut', 'truncate: nothing', 'the tracks are trimmed to None when there is no event', f.loc())
        if v is NONE or empty and latest(v):
            ok = not calls and holds(p.guards, lambda a, q: a.op == 'truthy' and not q and filters(a.a[0]) or a.op == 'isnone' and q and latest(a.a[0]) or
                                     a.op == 'eq' and q and any(x is const(0) for x in a.a))
            ctx.need(ok, 'cut', 'truncate: nothing', 'the set is left alone when %s' % short_guards(p), f.loc())
            continue
        ctx.need(latest(v), 'cut', 'truncate: result', 'the result is %s' % short(v, 120), f.loc())
        ok = len(calls) == 1 and fc_arg(calls[0], 'event_time') is v and fc_arg(calls[0], 'initial_time') in (start,) and fc_arg(calls[0], 'self') is ME
        ctx.need(ok, 'cut', 'truncate: trimmed', 'the tracks are not trimmed from the start given to the time returned', f.loc())
