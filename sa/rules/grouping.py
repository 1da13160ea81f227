"""How notes are put together in time (G14)."""
from . import prop
from ..lib import *
from ..terms import T, lenarg, mk
from .builder import M, added, loops, L_loc, glits, note_lits
from .values import Eval

CD = M + '.compute_data'
CT = M + '.compute_tolerance'
GAPS = [0, 1e-9, 1e-6, 0.0004, 0.001, 0.004, 0.006, 0.0125, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 1.0, 1.5, 2.0]
WIDTHS = [0.004, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.5, 1.0, 1.7, 3.0]


class Times(Eval):
    """the group key of a note starting at a given time"""

    def value(self, t):
        v = super().value(t)
        if v is None and isinstance(t, T) and t.op == 'call' and t.a[0] in ('math.isfinite', 'numpy.isfinite', 'math.isnan', 'numpy.isnan', 'math.isinf', 'numpy.isinf'):
            x = self.value(t.a[1][0])
            return None if x is None else t.a[0].endswith('finite')
        if v is None and isinstance(t, T) and t.op == 'call' and t.a[0] in ('numpy.rint', 'numpy.float64', 'numpy.float32'):
            x = self.value(t.a[1][0])
            return None if x is None else float(round(x)) if t.a[0] == 'numpy.rint' else float(x)
        return v


def keys(rows, start, width, auto, precision):
    """the keys the note may get -> set of numbers and None (depends on something else); without a start: the rows that stay possible"""
    out = set() if start is not None else []
    for guards, lits, n, k in rows:
        drum, vel, st = mk('attr', n, '_is_drum'), mk('attr', n, '_velocity'), mk('attr', n, '_start_time')

        def leaf(t):
            if t is st:
                return start
            if t is vel:
                return 64
            if t is drum:
                return False
            if t.op == 'param' and t.a[0] == 'tolerance':
                return 0.3125 if auto else width
            if t.op == 'param' and t.a[0] == 'tolerance_auto':
                return auto
            if t.op == 'param' and t.a[0] == 'precision':
                return precision
            if t.op == 'fcall' and t.a[0] == CT:
                return width if auto else None
            return None
        c = Times(leaf)
        if c.lits(list(guards.items()) + list(lits)) is False:
            continue
        if start is None:
            out.append((guards, lits, n, k))
            continue
        out.add(c.value(k) if k is not None else None)
    return out


@prop('G14', 'The key under which compute_data files a note is taken from every path of its loop and evaluated, as a formula of the start time and the tolerance, on a grid of '
      'times around the multiples of the tolerance, for fixed, zero and automatic tolerance; the tolerance function and the size reported are matched path by path.',
      assumptions=['keys that agree on the grid of start times and tolerances agree elsewhere', 'numpy.percentile and numpy.diff compute what their names say',
                   'the length of a group that is reported is its length after the note is added'])
def g14(ctx):
    R, R2, R3 = 'G14.key', 'G14.tolerance', 'G14.largest'
    ctx.rule(R, 'equal starts share a group; with tolerance 0 different starts do not; starts in one group are at most one tolerance apart; with the automatic tolerance the nearest multiple decides')
    ctx.rule(R2, 'the automatic tolerance is the percentile of the differences between consecutive start times, and 0 with fewer than two of them')
    ctx.rule(R3, 'the size reported is the number of notes of the largest group')
    f = ctx.p.func(CD)
    ps = [p for p in ctx.run(CD, opaque=(CT,)) if p.kind == 'return']
    rows = []
    for p in ps:
        cand = [L for L, ch in loops(p.events) if not ch and any(added(lp, mk('elem', L.a[0], L.a[2])) for lp in L.a[3])]
        if len(cand) != 1:
            ctx.bad(R, 'loop', '%d loops put notes into groups' % len(cand), f.loc())
            continue
        L = cand[0]
        n = mk('elem', L.a[0], L.a[2])
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                # a refusal must not depend on an ordinary time
                continue
            for cont, k, err in added(lp, n):
                rows.append((p.guards, lp.a[0], n, k))
        largest(ctx, R3, p, L, n, f)
    rows = list(dict.fromkeys((frozenset(g.items()), ls, n, k) for g, ls, n, k in rows))
    rows = [(dict(g), ls, n, k) for g, ls, n, k in rows]
    seen = set()

    def say(key, msg):
        if key not in seen:
            seen.add(key)
            ctx.bad(R, key, msg, f.loc())
    for auto in (False, True):
        for width in [0.0] + WIDTHS:
            for precision in (2, 3) if auto else (2,):
                w = width or 1.0
                starts = sorted({round(b + s * g * sc, 12) for b in (0, w, 2 * w, 3.5 * w, 17.25) for g in GAPS for s in (1, -1) for sc in (1, w) if b + s * g * sc >= 0} |
                                {round(w * i / 8, 12) for i in range(0, 33)})
                got = []
                rs = keys(rows, None, width, auto, precision)
                name = 'tolerance %s%s' % (width, ' (automatic)' if auto else '')
                for s in starts:
                    ks = keys(rs, s, width, auto, precision)
                    ctx.need(True, R, 'time', '', f.loc())
                    if len(ks) != 1 or None in ks:
                        say('unique' if ks else 'refused', 'with %s a note starting at %s is put under %s' % (
                            name, s, 'no time' if not ks else 'a time that depends on more than its start' if None in ks else ' or '.join(str(x) for x in sorted(ks))))
                        break
                    got.append((s, ks.pop()))
                else:
                    groups = {}
                    for s, k in got:
                        groups.setdefault(k, []).append(s)
                    for k, ss in groups.items():
                        if width == 0.0:
                            if len(ss) > 1:
                                say('zero', 'with %s notes starting at %s and %s share a group' % (name, ss[0], ss[1]))
                        elif max(ss) - min(ss) > width + (10 ** -precision if auto else 0) + 1e-9:
                            say('wide', 'with %s notes starting at %s and %s share a group' % (name, min(ss), max(ss)))
                    if auto and width:
                        near = {}
                        for s, k in got:
                            near.setdefault(round(s / width), set()).add(k)
                        for m, kk in near.items():
                            if len(kk) > 1:
                                say('nearest', 'with %s notes nearest to %s times the tolerance are put under %s' % (name, m, ' and '.join(str(x) for x in sorted(kk)[:2])))
    tolerance(ctx, R2)
    ctx.floor(R, 400)
    ctx.floor(R2, 2)
    ctx.floor(R3, 4)


def largest(ctx, R, p, L, n, f):
    v = p.value
    if v.op != 'tuple' or len(v.a) != 2:
        ctx.bad(R, 'result', 'the result is %s, not the groups and the size of the largest' % short(v, 80), f.loc())
        return
    v = v.a[1]
    if v.op == 'lo' and v.a[0] is L:
        lv = v.a[1]
        ini = dict(L.a[4]).get(lv) if L.a[4] and all(isinstance(x, tuple) and len(x) == 2 for x in L.a[4]) else None
        if ini is not None:
            ctx.need(is_const(ini, 0), R, 'start', 'the size counted starts at %s' % short(ini, 40), L_loc(L))
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            new = dict(lp.a[3]).get(lv, lv)
            ad = added(lp, n)
            if not ad:
                ctx.need(new is lv, R, 'skipped', 'a note that is left out changes the size of the largest group', L_loc(L))
                continue
            cont, k, err = ad[0]
            slots = [t for t in list(subterms(new)) + [x for a, _ in lp.a[0] for x in subterms(a)] if lenarg(t) is not None and is_slot(lenarg(t), cont, k)]
            first = any(kind(e) == 'store' and args(e)[1] is k for e in lp.a[1])
            for l in range(4):
                for g in (1,) if first and not slots else range(1, l + 2):
                    leaf = lambda t: l if t is lv else g if lenarg(t) is not None and is_slot(lenarg(t), cont, k) else None
                    c = Eval(leaf)
                    if c.lits(lp.a[0]) is False:
                        continue
                    ctx.need(c.value(new) == max(l, g), R, 'size', 'when a group reaches %d notes and the largest had %d, the size reported becomes %s' % (
                        g, l, c.value(new) if c.value(new) is not None else short(new, 80)), L_loc(L))
        return
    # counted over the finished groups
    over = [t for t in subterms(v) if t.op in ('map', 'lo') and mentions(t, lambda x: lenarg(x) is not None)]
    ok = bool(over) and (v.op in ('mm', 'call') and v.a[0] == 'max' or v.op == 'lo')
    ctx.need(ok, R, 'result', 'the size reported is %s' % short(v, 100), f.loc())
    for _ in range(3):
        ctx.need(ok, R, 'result', 'the size reported is %s' % short(v, 100), f.loc())


def start_list(t):
    """t is the sorted list of the start times of all notes -> (its unsorted source, ok)"""
    if t.op in ('list', 'tuple') and not t.a:
        return 'none'
    if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list', 'tuple') and t.a[1]:
        return start_list(t.a[1][0])
    if t.op == 'call' and t.a[0] == 'numpy.sort' and len(t.a[1]) == 1 and not t.a[2]:
        return starts_of(t.a[1][0])
    if t.op == 'sorted' and (t.a[1] is None or is_const(t.a[1], None)) and t.a[2] in (False, None):
        return starts_of(t.a[0])
    if t.op == 'sorted' and isinstance(t.a[2], T) and is_const(t.a[2], False):
        return starts_of(t.a[0])
    return None


def starts_of(m):
    while m.op == 'call' and m.a[0] in ('numpy.array', 'numpy.asarray', 'list') and m.a[1]:
        m = m.a[1][0]
    if m.op in ('list', 'tuple') and not m.a:
        return 'none'
    if m.op != 'map' or len(m.a[2]) != 1:
        return None
    (g, v), = m.a[2]
    n = mk('elem', m.a[0], m.a[3])
    b = m.a[0]
    if v is not mk('attr', n, '_start_time') or b.op != 'attr' or b.a[1] not in ('_notes', '_drum_events'):
        return None
    for a, q in g:
        if a.op == 'truthy' and q and a.a[0] is b or a.op == 'lt' and q and is_const(a.a[0], 0) and lenarg(a.a[1]) is b:
            continue
        if not q and a.op == 'truthy' and mentions(a, lambda x: x.op == 'attr' and x.a[1] in ('is_drum', '_is_drum')) and not mentions(a, lambda x: x is n):
            continue
        return None
    return b


def gaps(t):
    """t is the differences between consecutive start times -> the notes, 'none' for no notes, or None"""
    while t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list', 'numpy.abs', 'numpy.absolute') and t.a[1]:
        t = t.a[1][0]
    if t.op in ('list', 'tuple') and not t.a:
        return 'none'
    if t.op == 'call' and t.a[0] in ('numpy.diff', 'numpy.ediff1d') and len(t.a[1]) == 1 and not t.a[2]:
        return start_list(t.a[1][0])
    if t.op == 'map' and len(t.a[2]) == 1 and t.a[0].op == 'zip' and len(t.a[0].a) == 2:
        (g, v), = t.a[2]
        x, y = t.a[0].a
        one = [z for z, k in v.a[1] if k == 1] if v.op == 'lin' and v.a[0] == 0 and len(v.a[1]) == 2 else []
        two = [z for z, k in v.a[1] if k == -1] if one else []
        later = lambda z: z.op == 'elem' and (z.a[0] is y or z.a[0].op == 'item' and z.a[0].a[1] is y.a[1] and z.a[0].a[0].op == 'new')
        former = lambda z: z.op == 'elem' and (z.a[0] is x or z.a[0].op == 'new')
        if not g and one and two and y.op == 'item' and later(one[0]) and former(two[0]) and y.a[0] is x and y.a[1].op == 'slice' and is_const(y.a[1].a[0], 1) \
                and all(is_const(z, None) for z in y.a[1].a[1:]):
            return start_list(x)
    return None


def tolerance(ctx, R):
    f = ctx.p.func(CT)
    pc = mk('param', f.params[1]) if len(f.params) > 1 else None
    d = f.node.args.defaults
    ps = [p for p in ctx.run(CT) if p.kind == 'return']
    for p in ps:
        v = p.value
        while v.op == 'call' and v.a[0] in ('float', 'numpy.float64') and len(v.a[1]) == 1:
            v = v.a[1][0]
        drum = holds(p.guards, lambda a, q: q and a.op == 'truthy' and a.a[0].op == 'attr' and a.a[0].a[1] in ('is_drum', '_is_drum'))
        zero = is_const(v, 0) or is_const(v, 0.0)
        if v.op == 'call' and v.a[0] in ('numpy.percentile', 'numpy.quantile') and len(v.a[1]) == 2 and not v.a[2]:
            src = gaps(v.a[1][0])
            ctx.need(src is not None and (src != 'none' or drum or few(p) is False), R, 'gaps', 'the tolerance is the percentile of %s, not of the differences between consecutive starts' % short(v.a[1][0], 120), f.loc())
            q = v.a[1][1]
            if v.a[0] == 'numpy.quantile':
                okq = all(Eval(lambda t: x if t is pc else None).value(q) == x / 100 for x in (0, 5, 50, 95, 100))
            else:
                okq = q is pc
            ctx.need(okq, R, 'percentile', 'the percentile taken is %s' % short(q, 60), f.loc())
            ctx.need(sized(p, True), R, 'few', 'a percentile is taken although there are fewer than two differences', f.loc())
        elif zero:
            ctx.need(drum or sized(p, False), R, 'many', 'the tolerance is 0 although there are two differences or more', f.loc())
        else:
            ctx.bad(R, 'value', 'the tolerance is %s' % short(v, 120), f.loc())
    ctx.need(any(not is_const(p.value, 0.0) and not is_const(p.value, 0) for p in ps), R, 'always', 'the tolerance is always 0', f.loc())


def few(p):
    return sized(p, False)


def sized(p, many):
    """the path is taken only when there are (or are not) two differences or more"""
    def leaf_for(k, notes):
        def leaf(t):
            x = lenarg(t)
            if x is None and t.op == 'attr' and t.a[1] == 'size':
                x = t.a[0]
            if x is None:
                return None
            if gaps(x) is not None:
                return k
            if x.op == 'attr' and x.a[1] in ('_notes', '_drum_events') or start_list(x) is not None or starts_of(x) is not None:
                return notes
            return None
        return leaf
    for notes in range(0, 7):
        k = max(0, notes - 1)
        if (k >= 2) != many and Cases_ok(leaf_for(k, notes), p.guards):
            return False
    return True


def Cases_ok(leaf, guards):
    def full(t):
        v = leaf(t)
        if v is None and t.op == 'attr' and t.a[1] in ('_notes', '_drum_events'):
            return None
        return v
    return Eval(full).lits(guards) is not False
