"""Values computed from events: comparison, derived values, dictionaries, signatures, steps (N06-N10).

Each operation is interpreted abstractly for events with arbitrary contents; its paths are then decided for every case of a
case distinction (order types of the times, which fields differ, present or missing entries ...) against a specification."""
import itertools
import math
from decimal import Decimal

from . import prop
from ..cases import Cases
from ..fold import fold_module, Member, NoValue
from ..lib import *
from ..terms import T, mk, const, num

N = PKG + 'midi.midi_note'
PB = PKG + 'midi.midi_pitch_bend'
CC = PKG + 'midi.midi_control_change'
II = PKG + 'midi.midi_instruments'
KS = PKG + 'midi.midi_key_signature'
TS = PKG + 'midi.midi_time_signature'
RAISES = 'raises'
ANYTHING = 'anything'


class Eval(Cases):
    """Cases plus the arithmetic of numpy, decimal and the tables of the library"""

    def __init__(self, leaf, project=None):
        super().__init__(leaf)
        self.p = project

    def table(self, t):
        if t.op == 'glob' and self.p is not None:
            try:
                return fold_module(self.p, t.a[0]).env[t.a[1]]
            except (KeyError, NoValue):
                return None
        return None

    def value(self, t):
        v = super().value(t)
        if v is not None or not isinstance(t, T):
            return v
        if t.op == 'enum':
            return ('enum', t.a[1])
        if t.op in ('tuple', 'list'):
            vs = [self.value(x) for x in t.a]
            return None if any(x is None for x in vs) else tuple(vs)
        if t.op == 'attr' and t.a[1] in ('name', 'value'):
            o = self.value(t.a[0])
            if isinstance(o, tuple) and len(o) == 2 and o[0] == 'enum':
                return o[1] if t.a[1] == 'name' else None
        if t.op == 'item':
            tab = self.table(t.a[0])
            k = self.value(t.a[1])
            if isinstance(tab, dict) and k is not None:
                return tab.get(k)
        if t.op == 'alts':
            vs = {self.value(x) for g, x in t.a[0] if self.lits(g) is not False}
            return vs.pop() if len(vs) == 1 else None
        if t.op == 'dictlit':
            d = [(self.value(k), self.value(x)) for k, x in t.a[0]]
            return None if any(k is None or x is None for k, x in d) else ('dict',) + tuple(sorted(d, key=repr))
        if t.op in ('mcall', 'mres') and t.a[1] == 'quantize' and len(t.a[2]) == 1:
            x, q = self.value(t.a[0]), self.value(t.a[2][0])
            kw = dict(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], tuple) else {}
            r = self.value(kw['rounding']) if 'rounding' in kw else None
            if isinstance(x, Decimal) and isinstance(q, Decimal) and (isinstance(r, str) or 'rounding' not in kw):
                return x.quantize(q, rounding=r) if r else x.quantize(q)
        if t.op == 'bin' and t.a[0] == '/':
            a, b = self.value(t.a[1]), self.value(t.a[2])
            if isinstance(a, Decimal) and isinstance(b, Decimal) and b:
                return a / b
        if t.op == 'call':
            vs = [self.value(x) for x in t.a[1]]
            if any(x is None for x in vs):
                return None
            kw = {k: self.value(x) for k, x in t.a[2]}
            f = t.a[0]
            try:
                if f == 'decimal.Decimal' and len(vs) == 1:
                    return Decimal(vs[0])
                if f == 'float' and isinstance(vs[0], Decimal):
                    return float(vs[0])
                if f in ('str', 'int', 'float', 'bool') and len(vs) == 1 and not kw:
                    return {'str': str, 'int': int, 'float': float, 'bool': bool}[f](vs[0])
                if f in ('numpy.power', 'pow', 'math.pow', 'numpy.float_power') and len(vs) == 2:
                    return vs[0] ** vs[1]
                if f in ('numpy.divide', 'numpy.true_divide') and len(vs) == 2:
                    return vs[0] / vs[1]
                if f == 'numpy.floor_divide' and len(vs) == 2:
                    return vs[0] // vs[1]
                if f in ('math.exp2', 'numpy.exp2'):
                    return 2 ** vs[0]
                if f in ('numpy.around', 'numpy.round', 'round'):
                    return round(vs[0], vs[1] if len(vs) > 1 else kw.get('decimals', kw.get('ndigits', 0)))
                if f in ('math.log2', 'numpy.log2') and vs[0] > 0:
                    return math.log2(vs[0])
                if f in ('numpy.maximum', 'numpy.fmax', 'math.fmax'):
                    return max(vs)
                if f in ('numpy.minimum', 'numpy.fmin', 'math.fmin'):
                    return min(vs)
                if f in ('numpy.float32', 'numpy.float64', 'numpy.asarray'):
                    return vs[0]
                if f == 'librosa.midi_to_note' and len(vs) == 1 and not kw:
                    return ('name of pitch', vs[0])
                if f == 'librosa.note_to_midi' and not kw and isinstance(vs[0], tuple) and vs[0][0] == 'name of pitch':
                    return vs[0][1]
            except (TypeError, ValueError, ArithmeticError, IndexError):
                return None
        if t.op in ('mcall',) and t.a[1] == 'is_integer' and not t.a[2]:
            x = self.value(t.a[0])
            return float(x).is_integer() if isinstance(x, (int, float)) else None
        return None

    def atom(self, a):
        v = super().atom(a)
        if v is None and a.op in ('truthy', 'mcall', 'call'):
            x = self.value(a.a[0] if a.op == 'truthy' else a)
            return None if x is None else bool(x)
        return v


def alike(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def decide(ctx, rid, what, ps, cases, want, loc, leaf=None):
    """every possible path of every case gives the value the specification wants (or raises where it wants that)"""
    bad = None
    for case in cases:
        w = want(case)
        if w is ANYTHING:
            continue
        mine = leaf(case) if leaf else (lambda t, c=case: c.get(t.a[0]) if t.op == 'param' else None)
        ev = Eval(mine, ctx.p)
        seen = 0
        for p in ps:
            if ev.lits(p.guards) is False:
                continue
            seen += 1
            if p.kind == 'raise':
                if w is not RAISES:
                    bad = bad or '%s: it raises where the result is %s' % (shown(case), w)
                continue
            if w is RAISES:
                bad = bad or '%s: it must be refused, but %s results' % (shown(case), short(p.dvalue, 80))
                continue
            r = ev.value(p.dvalue)
            if callable(w):
                if r is None:
                    bad = bad or '%s: the result cannot be determined: %s' % (shown(case), short(p.dvalue, 120))
                elif not w(r):
                    bad = bad or '%s: the result is %s' % (shown(case), r)
            elif r is None:
                bad = bad or '%s: the result cannot be determined: %s' % (shown(case), short(p.dvalue, 120))
            elif not alike(r, w):
                bad = bad or '%s: the result is %s, it should be %s' % (shown(case), r, w)
        if not seen:
            bad = bad or '%s: no path of the code covers this case' % shown(case)
    ctx.need(bad is None, rid, what, bad or '', loc)


def subterms_all(x):
    if isinstance(x, T):
        yield x
        x = x.a
    if isinstance(x, (tuple, list, frozenset)):
        for y in x:
            yield from subterms_all(y)


def shown(case):
    return ', '.join('%s=%s' % kv for kv in sorted(case.items()))


def grid(**kw):
    ks = sorted(kw)
    return [dict(zip(ks, vs)) for vs in itertools.product(*(kw[k] for k in ks))]


NOTE_FIELDS = {'pitch': (60, 61, 0), 'velocity': (64, 65, 0), 'program': (3, 4, 0), 'instrument': (5, 6, 0), 'start_time': (1.0, 0.5, 1.25),
               'end_time': (2.0, 2.5, 1.5), 'quantized_start_step': (4, 3, -1), 'quantized_end_step': (8, 9, -1), 'voice': (1, 2, 0),
               'numerator': (4, 3, 1), 'denominator': (4, 8, 1), 'is_drum': (False, True, True)}
CC_FIELDS = {'cc_number': (7, 8, 0), 'cc_value': (64, 65, 0), 'cc_time': (1.0, 1.5, 0.0), 'program': (3, 4, 0), 'instrument': (5, 6, 0),
             'is_drum': (False, True, True), 'quantized_step': (4, 5, 1), 'quantized_start_step': (2, 1, -1), 'quantized_end_step': (3, 4, -1)}
PB_FIELDS = {'amount': (100, 101, 0), 'midi_time': (1.0, 1.5, 0.0), 'program': (3, 4, 0), 'instrument': (5, 6, 0), 'is_drum': (False, True, True)}
II_FIELDS = {'instrument': (5, 6, 0), 'name': ('x', 'y', 'z'), 'is_drum': (False, True, True)}
EQUAL = [(N, 'MidiNote', NOTE_FIELDS), (CC, 'MidiControlChange', CC_FIELDS), (PB, 'MidiPitchBend', PB_FIELDS), (II, 'MidiInstrumentInfo', II_FIELDS)]


def made(cn, fields, suffix):
    return '%s(%s)' % (cn, ', '.join('%s=%s%s' % (f, f, suffix) for f in fields))


@prop('N06', 'Abstract interpretation of comparing two events created with arbitrary contents; the result is decided for every order type of '
      'their times and tie-breakers, and for every way in which one, two or all of their fields differ.')
def check_n06(ctx):
    ctx.rule('order', 'the order of two events is that of their times, then of their tie-breakers')
    ctx.rule('equal', 'two events are equal exactly when every field agrees')
    loc = ctx.p.func(N + '.MidiNote.__lt__').loc()
    # exact steps of the times: the same, within a microsecond, well beyond it
    ends = (2.0, 2.0 + 4e-7, 2.0 + 3e-6, 3.0)
    starts = (0.0, 4e-7, 3e-6, 0.5, 1.0, 1.0 + 4e-7, 1.0 + 3e-6)
    cases = grid(s=starts, t=starts, e=ends, u=ends, p=(60,), q=(59, 60, 61))
    close = lambda a, b: abs(a - b) <= 1e-6

    def lt(c):
        if not close(c['s'], c['t']):
            return c['s'] < c['t']
        if not close(c['e'], c['u']):
            return c['e'] < c['u']
        return c['p'] < c['q']

    def le(c):
        return c['s'] < c['t'] or close(c['s'], c['t']) and c['e'] <= c['u'] + 1e-6
    src = 'def f(p, s, e, q, t, u):\n    a = MidiNote(pitch=p, start_time=s, end_time=e)\n    b = MidiNote(pitch=q, start_time=t, end_time=u)\n    return a.%s(b)'
    decide(ctx, 'order', 'MidiNote <', ctx.drive(N, src % '__lt__'), cases, lt, loc)
    decide(ctx, 'order', 'MidiNote <=', ctx.drive(N, src % '__le__'), cases, le, loc)
    times = (0.0, 0.25, 1.0, 1.001, 3.0)
    for mod, cn, mk_a in ((CC, 'MidiControlChange', 'MidiControlChange(cc_number=7, cc_value=1, cc_time=%s)'), (TS, 'MidiTempoSignature', 'MidiTempoSignature(midi_time=%s)'),
                          (TS, 'MidiTimeSignature', 'MidiTimeSignature(midi_time=%s)'), (KS, 'MidiKeySignature', 'MidiKeySignature(midi_time=%s)')):
        ps = ctx.drive(mod, 'def f(s, t, i, j):\n    a = %s\n    b = %s\n    a.seq = i\n    b.seq = j\n    return a.__lt__(b)' % (mk_a % 's', mk_a % 't'))
        decide(ctx, 'order', cn + ' <', ps, grid(s=times, t=times, i=(0, 3), j=(0, 2, 3, 5)),
               lambda c: c['i'] < c['j'] if c['s'] == c['t'] else c['s'] < c['t'], ctx.p.func(mod + '.' + cn + '.__lt__').loc())
    ps = ctx.drive(II, "def f(s, t):\n    return MidiInstrumentInfo(s, 'x').__lt__(MidiInstrumentInfo(t, 'x'))")
    decide(ctx, 'order', 'MidiInstrumentInfo <', ps, grid(s=(0, 1, 127, 255), t=(0, 1, 126, 127, 255)), lambda c: c['s'] < c['t'],
           ctx.p.func(II + '.MidiInstrumentInfo.__lt__').loc())
    for mod, cn, fields in EQUAL:
        fs = sorted(fields)
        ps = ctx.drive(mod, 'def f(%s):\n    a = %s\n    b = %s\n    return a.__eq__(b)' % (
            ', '.join(f + s for s in ('_a', '_b') for f in fs), made(cn, fs, '_a'), made(cn, fs, '_b')))
        f = ctx.p.func(mod + '.' + cn + '.__eq__')
        for base in (0, 2):
            one = {n: fields[n][base] for n in fs}
            cases = [(dict(one), True)]
            for k in (1, 2):
                for ns in itertools.combinations(fs, k):
                    other = dict(one)
                    for n in ns:
                        other[n] = fields[n][1] if fields[n][1] != one[n] else fields[n][0]
                    cases.append((other, other == one))
            cases.append(({n: fields[n][1] for n in fs}, False))
            for other, same in cases:
                if not well_formed(other):
                    continue
                c = {n + '_a': one[n] for n in fs}
                c.update({n + '_b': other[n] for n in fs})
                differ = [n for n in fs if one[n] != other[n]]
                decide(ctx, 'equal', '%s ==: %s' % (cn, 'differing in ' + ', '.join(differ) if len(differ) < 3 else 'all differ') if differ else cn + ' ==: same', ps, [c],
                       lambda _c, same=same: same, f.loc())
    ctx.floor('order', 7)
    ctx.floor('equal', 100)


def well_formed(c):
    return c.get('start_time', 0) < c.get('end_time', 1)


@prop('N07', 'Abstract interpretation of creating a note, using it and reading the derived value, for arbitrary contents; the result is decided for '
      'every order type of the times and for pitches and offsets of every kind.')
def check_n07(ctx):
    ctx.rule('times', 'duration, event times, shifted and stretched times are computed from start and end')
    ctx.rule('overlaps', 'two notes overlap exactly when a stretch of time belongs to both')
    ctx.rule('name', 'the pitch name is that of the pitch, whichever way the pitch was given')
    ctx.rule('frequency', 'frequencies follow equal temperament with A4 = 440 Hz')
    g = lambda m: ctx.p.func(N + '.MidiNote.' + m).loc()
    new = 'def f(s, e, k):\n    a = MidiNote(pitch=60, start_time=s, end_time=e)\n'
    pts = [c for c in grid(s=(0.0, 0.5, 1.0, 12.25, 0.0001234567), e=(0.25, 1.0, 1.5, 13.0, 100.0, 98765.4321987), k=(0.0, 0.25, 1.0, 3.0, 7.5)) if c['s'] < c['e']]
    D = lambda body: ctx.drive(N, new + body)
    decide(ctx, 'times', 'duration', D('    return a.duration()'), pts, lambda c: c['e'] - c['s'], g('duration'))
    decide(ctx, 'times', 'event times', D('    return a.event_start_time, a.event_end_time'), pts, lambda c: (c['s'], c['e']), g('event_start_time'))
    decide(ctx, 'times', 'event times after shifting', D('    a.shift_time(k)\n    return a.event_start_time, a.event_end_time, a.start_time, a.end_time, a.duration()'), pts,
           lambda c: (c['s'] + c['k'], c['e'] + c['k'], c['s'] + c['k'], c['e'] + c['k'], c['e'] - c['s']), g('shift_time'))
    back = [dict(c, k=-c['k']) for c in pts if c['k'] <= c['s']]
    decide(ctx, 'times', 'shifting to an earlier time', D('    a.shift_time(k)\n    return a.start_time, a.end_time'), back,
           lambda c: (c['s'] + c['k'], c['e'] + c['k']), g('shift_time'))
    decide(ctx, 'times', 'stretching', D('    a.stretch(k)\n    return a.start_time, a.end_time'), [c for c in pts if c['k'] > 0],
           lambda c: (c['s'] * c['k'], c['e'] * c['k']), g('stretch'))
    decide(ctx, 'times', 'duration in seconds', D('    return a.duration_in_seconds(k)'), [dict(c, k=40 * c['k']) for c in pts if c['k'] > 0],
           lambda c: 60 * (c['e'] - c['s']) / c['k'], g('duration_in_seconds'))
    ps = ctx.drive(N, 'def f(n, d, k):\n    return MidiNote(pitch=60, start_time=0.0, end_time=1.0, numerator=n, denominator=d).beat_duration(k)')
    decide(ctx, 'times', 'beat duration', ps, grid(n=(1, 3, 4, 6), d=(1, 2, 4, 8), k=(60, 90, 120, 240)), lambda c: 60.0 / c['k'] * c['n'] / c['d'], g('beat_duration'))
    ps = ctx.drive(N, 'def f(s, e, t, u):\n    return MidiNote(pitch=60, start_time=s, end_time=e).overlaps(MidiNote(pitch=61, start_time=t, end_time=u))')
    v = (0.0, 0.5, 1.0, 1.5, 2.0, 2.5)
    decide(ctx, 'overlaps', 'overlaps', ps, [c for c in grid(s=v, e=v, t=v, u=v) if c['s'] < c['e'] and c['t'] < c['u']],
           lambda c: max(c['s'], c['t']) < min(c['e'], c['u']), g('overlaps'))
    name = lambda p: ('name of pitch', p)
    decide(ctx, 'name', 'created', ctx.drive(N, 'def f(p):\n    a = MidiNote(pitch=p, start_time=0.0, end_time=1.0)\n    return a.pitch_name, a.pitch'),
           grid(p=(-3, 0, 1, 60, 126, 127, 128, 200)), lambda c: (name(min(max(c['p'], 0), 127)), min(max(c['p'], 0), 127)), g('__init__'))
    decide(ctx, 'name', 'assigned', ctx.drive(N, 'def f(p, q):\n    a = MidiNote(pitch=p, start_time=0.0, end_time=1.0)\n    a.pitch = q\n    return a.pitch_name, a.pitch'),
           grid(p=(0, 60, 127), q=(0, 1, 61, 127)), lambda c: (name(c['q']), c['q']), g('pitch'))
    fn = g('from_name')
    decide(ctx, 'name', 'from name', ctx.drive(N, 'def f(n, s, e, v, p, i, d):\n    a = MidiNote.from_name(n, s, e, v, p, i, d)\n'
           '    return a.pitch, a.pitch_name, a.start_time, a.end_time, a.velocity, a.program, a.instrument, a.is_drum'),
           grid(n=(name(0), name(61), name(127)), s=(0.0, 1.5), e=(2.0,), v=(0, 64), p=(0, 5), i=(0, 9), d=(False, True)),
           lambda c: (c['n'][1], c['n'], c['s'], c['e'], c['v'], c['p'], c['i'], c['d']), fn)
    decide(ctx, 'name', 'from name, defaults', ctx.drive(N, 'def f(n, s, e):\n    a = MidiNote.from_name(n, s, e)\n    return a.pitch, a.velocity, a.program, a.instrument, a.is_drum'),
           grid(n=(name(61),), s=(0.0, 1.5), e=(2.0,)), lambda c: (61, 127, 0, 0, False), fn)
    decide(ctx, 'frequency', 'note_to_freq', ctx.drive(N, 'def f(n):\n    return MidiNote.note_to_freq(n)'), grid(n=range(0, 128)),
           lambda c: 440.0 * 2 ** ((c['n'] - 69) / 12), g('note_to_freq'))
    names = ('C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B')
    decide(ctx, 'frequency', 'pitch_to_freq', ctx.drive(N, 'def f(n, o):\n    return MidiNote.pitch_to_freq(n, o)'), grid(n=names, o=range(0, 9)),
           lambda c: 440.0 * 2 ** ((names.index(c['n']) - 9) / 12 + c['o'] - 4), g('pitch_to_freq'))
    ctx.floor('times', 7)
    ctx.floor('overlaps', 1)
    ctx.floor('name', 4)
    ctx.floor('frequency', 2)


@prop('N08', 'Abstract interpretation of reading events from dictionaries and writing them; each read value is decided for present and missing '
      'entries, and the composition of writing and reading is decided for contents in which every field has its own value.')
def check_n08(ctx):
    ctx.rule('note', 'a note read from a dictionary holds each of its values, and a valid default for a missing optional one')
    ctx.rule('decoded', 'decoding marked JSON data creates a note from exactly that data; other objects are left alone')
    ctx.rule('instrument', 'an instrument written to a dictionary and read back equals the original')
    f = ctx.p.func(N + '.MidiNote.from_json')
    optional = {'quantized_start_step': -1, 'quantized_end_step': -1, 'voice': 0, 'numerator': 4, 'denominator': 4, 'is_drum': False}
    fs = sorted(NOTE_FIELDS)
    d = mk('param', 'd')
    ps = ctx.drive(N, 'def f(d):\n    a = MidiNote.from_json(d)\n    return %s' % ', '.join('a.' + n for n in fs))

    def leaf(case):
        def go(t):
            k = None
            if t.op == 'in' and t.a[1] is d and t.a[0].op == 'const':
                return t.a[0].a[0] in case
            if t.op == 'item' and t.a[0] is d and t.a[1].op == 'const':
                k = t.a[1].a[0]
            if t.op in ('mcall', 'mres') and t.a[0] is d and t.a[1] == 'get' and t.a[2] and t.a[2][0].op == 'const':
                k = t.a[2][0].a[0]
                if k not in case and len(t.a[2]) > 1 and t.a[2][1].op == 'const':
                    return t.a[2][1].a[0]
            return case.get(k) if k is not None else None
        return go
    for i in (0, 1, 2):
        full = {n: NOTE_FIELDS[n][i] for n in fs}
        cases = [full] + [{n: x for n, x in full.items() if n != o} for o in optional] + [{n: x for n, x in full.items() if n not in optional}]
        for c in cases:
            left = sorted(set(full) - set(c))
            decide(ctx, 'note', 'contents %d, without %s' % (i, ', '.join(left) if len(left) < 3 else 'optional values') if left else 'contents %d' % i, ps, [c],
                   lambda c: tuple(c.get(n, optional.get(n)) for n in fs), f.loc(), leaf=leaf)
    o = ctx.p.func(N + '.MidiNoteJSONDecoder.object_hook')
    ps = ctx.drive(N, 'def f(d):\n    a = MidiNoteJSONDecoder.object_hook(d)\n    return %s' % ', '.join('a.' + n for n in fs))
    data = mk('item', d, const('data'))

    def inner(case):
        def go(t):
            if t is mk('in', const('__MidiNote__'), d):
                return True
            if t.op == 'in' and t.a[1] is data and t.a[0].op == 'const':
                return t.a[0].a[0] in case
            if t.op == 'item' and t.a[0] is data and t.a[1].op == 'const':
                return case.get(t.a[1].a[0])
            return None
        return go
    for i in (0, 1, 2):
        full = {n: NOTE_FIELDS[n][i] for n in fs}
        for c in [full] + [{n: x for n, x in full.items() if n != o} for o in sorted(optional)]:
            decide(ctx, 'decoded', 'contents %d, %d values' % (i, len(c)), ps, [c], lambda c: tuple(c.get(n, optional.get(n)) for n in fs), o.loc(), leaf=inner)
    for p in ctx.drive(N, 'def f(d):\n    return MidiNoteJSONDecoder.object_hook(d)'):
        if holds_lit(p.guards, (mk('in', const('__MidiNote__'), d), True)):
            continue
        ctx.need(p.kind == 'return' and p.value is d, 'decoded', 'other objects', 'an object that is not a marked note is changed to %s' % short(p.value, 80), o.loc())
    c = ctx.p.func(N + '.MidiNoteJSONDecoder.__init__')
    hooked = any(e.a[0] == 'mut' and args(e)[1] == 'super.__init__' and kw_of(args(e)[3], 'object_hook') is not None for p in ctx.run(c.qualname) for e, _ in walk(p.events))
    ctx.need(hooked, 'decoded', 'hook', 'the decoder does not use the hook that recognises notes', c.loc())
    inst = grid(i=(0, 1, 64, 255), n=('x', 'Lead'), d=(False, True))
    t = ctx.p.func(II + '.MidiInstrumentInfo.to_dict')
    ps = ctx.drive(II, 'def f(i, n, d):\n    a = MidiInstrumentInfo.from_dict(MidiInstrumentInfo(i, n, d).to_dict())\n    return a.instrument_num, a.name, a.is_drum')
    decide(ctx, 'instrument', 'there and back', ps, inst, lambda c: (c['i'], c['n'], c['d']), t.loc())
    ps = ctx.drive(II, 'def f(i, n, d):\n    return MidiInstrumentInfo(i, n, d).to_dict()')
    decide(ctx, 'instrument', 'to_dict', ps, inst, lambda c: ('dict',) + tuple(sorted([('instrument_num', c['i']), ('name', c['n']), ('is_drum', c['d'])], key=repr)), t.loc())
    ps = ctx.drive(II, "def f(i, n, d):\n    a = MidiInstrumentInfo.from_dict({'instrument_num': i, 'name': n, 'is_drum': d})\n    return a.instrument_num, a.name, a.is_drum")
    decide(ctx, 'instrument', 'from_dict', ps, inst, lambda c: (c['i'], c['n'], c['d']), t.loc())
    ps = ctx.drive(II, "def f(i, n):\n    a = MidiInstrumentInfo.from_dict({'instrument_num': i, 'name': n})\n    return a.instrument_num, a.name, a.is_drum")
    decide(ctx, 'instrument', 'from_dict without drum flag', ps, grid(i=(0, 64), n=('x',)), lambda c: (c['i'], c['n'], False), t.loc())
    ctx.floor('note', 20)
    ctx.floor('instrument', 4)


@prop('N09', 'Abstract interpretation of creating each kind of signature and reading what it holds; decided for valid, missing and invalid values of '
      'every argument.')
def check_n09(ctx):
    ctx.rule('holds', 'a signature holds what it was created with, and the documented default for what was left out')
    ctx.rule('refused', 'an invalid value is refused')
    ctx.rule('derived', 'tick length, quarter length, tempo conversions follow from tempo and resolution')
    tq, tt, kk = (ctx.p.func(m + '.%s.__init__' % c).loc() for m, c in ((TS, 'MidiTempoSignature'), (TS, 'MidiTimeSignature'), (KS, 'MidiKeySignature')))
    ps = ctx.drive(TS, 'def f(t, q, r):\n    a = MidiTempoSignature(midi_time=t, qpm=q, resolution=r)\n    return a.midi_time, a.qpm, a.resolution, a.seq')
    good = grid(t=(0.0, 0.5, 3, 0.0001234567, 98765.4321987), q=(0.001, 1, 60.5, 120, 120.00048000192, 500.25, 60000.0), r=(1, 96, 480, 32767))
    decide(ctx, 'holds', 'tempo', ps, good, lambda c: (c['t'], c['q'], c['r'], 0), tq)
    for c in grid(t=(0.5,), q=(0, -1, -0.5), r=(480,)) + grid(t=(0.5,), q=(100,), r=(0, -1, 96.5)):
        decide(ctx, 'refused', 'tempo %(q)s, resolution %(r)s' % c, ps, [c], lambda c: RAISES, tq)
    ps = ctx.drive(TS, 'def f(t):\n    a = MidiTempoSignature(midi_time=t)\n    return a.midi_time, a.qpm, a.resolution')
    decide(ctx, 'holds', 'tempo, default', ps, grid(t=(0.0, 2.5, 0.0001234567, 98765.4321987)), lambda c: (c['t'], 120.0, 480), tq)
    ps = ctx.drive(TS, 'def f():\n    a = MidiTempoSignature(midi_time=None, qpm=None, resolution=None)\n    return a.midi_time, a.qpm, a.resolution')
    decide(ctx, 'holds', 'tempo, nothing given', ps, [{}], lambda c: (0.0, 120.0, 480), tq)
    ps = ctx.drive(TS, 'def f(q, r):\n    a = MidiTempoSignature(midi_time=0.0, qpm=q, resolution=r)\n    return a.seconds_per_tick, a.seconds_per_quarter')
    good = grid(q=(1, 60.5, 120, 500.25), r=(1, 96, 480))
    decide(ctx, 'derived', 'tick and quarter', ps, good, lambda c: (60.0 / (c['q'] * c['r']), 60.0 / c['q']), ctx.p.func(TS + '.MidiTempoSignature.seconds_per_tick').loc())
    ps = ctx.drive(TS, 'def f(q, b):\n    a = MidiTempoSignature(midi_time=0.0, qpm=q)\n    x = a.qpm\n    a.qpm = b\n    y = a.qpm\n    a.bpm = b\n    return x, y, a.bpm, a.qpm')
    decide(ctx, 'derived', 'assigned tempo', ps, grid(q=(60.5, 120), b=(1, 30.25, 120)), lambda c: (c['q'], c['b'], c['b'], 4.0 * c['b']), ctx.p.func(TS + '.MidiTempoSignature.qpm').loc())
    ps = ctx.drive(TS, 'def f(t):\n    return MidiTempoSignature.tempo_to_qpm(t)')
    decide(ctx, 'derived', 'microseconds per quarter', ps, grid(t=(1, 250000, 500000, 600000.5)), lambda c: 6e7 / c['t'], ctx.p.func(TS + '.MidiTempoSignature.tempo_to_qpm').loc())
    ps = ctx.drive(TS, 'def f(t, n, d):\n    a = MidiTimeSignature(midi_time=t, numerator=n, denominator=d)\n    return a.midi_time, a.numerator, a.denominator, a.seq')
    decide(ctx, 'holds', 'time', ps, grid(t=(0.0, 0.5, 3, 0.0001234567, 98765.4321987), n=(1, 3, 4, 7, 12, 255), d=(1, 2, 4, 8, 16, 32, 64, 128)), lambda c: (c['t'], c['n'], c['d'], 0), tt)
    for c in grid(t=(0.5,), n=(0, -1, 3.5, 4), d=(0, -4, 3, 6, 12, 4.5)) + grid(t=(0.5,), n=(0, -3, 4.5), d=(4,)):
        decide(ctx, 'refused', 'time signature %(n)s/%(d)s' % c, ps, [c], lambda c: RAISES, tt)
    ps = ctx.drive(TS, 'def f(t):\n    a = MidiTimeSignature(midi_time=t)\n    return a.midi_time, a.numerator, a.denominator')
    decide(ctx, 'holds', 'time, default', ps, grid(t=(0.0, 2.5, 0.0001234567, 98765.4321987)), lambda c: (c['t'], 4, 4), tt)
    ps = ctx.drive(KS, 'def f(t, k, m):\n    a = MidiKeySignature(midi_time=t, midi_key=k, midi_mode=m)\n    return a.midi_time, a.midi_key, a.mode, a.seq')
    decide(ctx, 'holds', 'key', ps, grid(t=(0.0, 0.5, 3, 0.0001234567, 98765.4321987), k=(0, 1, 11, 12, 23), m=(0, 1)), lambda c: (c['t'], c['k'], ('enum', ('MAJOR', 'MINOR')[c['m']]), 0), kk)
    for c in grid(t=(0.5,), k=(0, 3), m=(-1, 2, 5)):
        decide(ctx, 'refused', 'key mode %(m)s' % c, ps, [c], lambda c: RAISES, kk)
    ps = ctx.drive(KS, 'def f(t):\n    a = MidiKeySignature(midi_time=t)\n    return a.midi_time, a.midi_key, a.mode')
    decide(ctx, 'holds', 'key, default', ps, grid(t=(0.0, 2.5, 0.0001234567, 98765.4321987)), lambda c: (c['t'], 0, ('enum', 'MAJOR')), kk)
    ctx.floor('holds', 7)
    ctx.floor('refused', 20)
    ctx.floor('derived', 3)


@prop('N10', 'Abstract interpretation of quantising times, notes and control changes and of reading the steps; decided for times on, between and '
      'next to steps, several rates and amounts, and invalid ones.')
def check_n10(ctx):
    ctx.rule('nearest', 'a time is quantised to time x rate + (1 - amount), rounded down (a start) or up (an end), never below zero; a bad rate or amount is refused')
    ctx.rule('control', 'a quantised control change covers one whole step starting at that of its time, and keeps its time')
    ctx.rule('note', 'a note that is quantised has 0 <= start step < end step, the start step of its start, and still starts before it ends')
    ctx.rule('known', 'an event is quantised exactly when both its steps are known')
    ctx.rule('length', 'step counts and seconds follow from the steps and the rate')
    g = lambda m: ctx.p.func(N + '.MidiNote.' + m).loc()
    times, rates, amounts = (0.0, 0.1, 0.125, 0.24, 0.25, 0.4, 0.5, 0.9, 1.0, 2.75, 60.0), (1, 2, 4, 10, 16), (0.25, 0.5, 0.75, 1.0)
    for fl in (True, False):
        ps = ctx.drive(N, 'def f(t, q, m):\n    return MidiNote.quantize_to_nearest_step(t, q, m, is_floor=%s)' % fl)
        decide(ctx, 'nearest', 'rounding %s' % ('down' if fl else 'up'), ps, grid(t=times + (-0.5, -2.0), q=rates, m=amounts),
               lambda c: max(0, (math.floor if fl else math.ceil)(c['t'] * c['q'] + (1 - c['m']))), g('quantize_to_nearest_step'))
        decide(ctx, 'nearest', 'refused, %s' % fl, ps, grid(t=(0.5,), q=(0, -1), m=(0.5,)) + grid(t=(0.5,), q=(4,), m=(0, -0.5)), lambda c: RAISES, g('quantize_to_nearest_step'))
    ps = ctx.drive(N, 'def f(t, q):\n    return MidiNote.quantize_to_nearest_step(t, q)')
    decide(ctx, 'nearest', 'by default', ps, grid(t=times, q=rates), lambda c: math.floor(c['t'] * c['q'] + 0.5), g('quantize_to_nearest_step'))
    cq = ctx.p.func(CC + '.MidiControlChange.quantize_in_place').loc()
    ps = ctx.drive(CC, 'def f(t, q, m):\n    a = MidiControlChange(7, 9, t)\n    a.quantize_in_place(q, m)\n'
                   '    return a.quantized_start_step, a.quantized_end_step, a.is_quantized(), a.cc_time, a.quantized_step, a.cc_number, a.cc_value')

    def cc(c):
        s = int(c['t'] * c['q'] + (1 - c['m']))
        return s, s + 1, True, c['t'], c['q'], 7, 9
    decide(ctx, 'control', 'quantize_in_place', ps, grid(t=times, q=rates, m=amounts), cc, cq)
    ps = ctx.drive(CC, 'def f(t):\n    a = MidiControlChange(7, 9, t)\n    a.quantize_in_place()\n    return a.quantized_start_step, a.quantized_end_step, a.is_quantized()')
    decide(ctx, 'control', 'by default', ps, grid(t=times), lambda c: (int(c['t'] * 4 + 0.5), int(c['t'] * 4 + 0.5) + 1, True), cq)
    ps = ctx.drive(CC, 'def f(t, q):\n    a = MidiControlChange(7, 9, t)\n    a.quantize_in_place(2)\n    a.quantize_in_place(q)\n    return a.quantized_start_step, a.quantized_end_step, a.quantized_step')
    decide(ctx, 'control', 'quantised again', ps, grid(t=times, q=rates), lambda c: (int(c['t'] * c['q'] + 0.5), int(c['t'] * c['q'] + 0.5) + 1, c['q']), cq)
    ps = ctx.drive(N, 'def f(s, e, q, m):\n    a = MidiNote(pitch=60, start_time=s, end_time=e)\n    a.quantize_in_place(q, m)\n'
                   '    return a.quantized_start_step, a.quantized_end_step, a.is_quantized(), a.start_time, a.end_time, a.pitch, a.velocity')
    first = math.floor

    def note(c):
        def ok(r):
            s, e, k, t, u, _p, _v = r
            x = max(0, math.floor(c['s'] * c['q'] + (1 - c['m'])))
            return s == x and s < e and e >= c['e'] * c['q'] and k is True and 0 <= t < u and abs(t - c['s']) <= 1.0 / c['q'] + 0.01 and _p == 60
        return ok
    decide(ctx, 'note', 'quantize_in_place', ps, [c for c in grid(s=times, e=times + (61.5,), q=rates, m=(0.5, 1.0)) if c['e'] - c['s'] > 0.005], note, g('quantize_in_place'))
    for mod, cn, src, where in ((N, 'MidiNote', 'MidiNote(pitch=60, start_time=0.0, end_time=1.0, quantized_start_step=s, quantized_end_step=e)', g('is_quantized')),
                                (CC, 'MidiControlChange', 'MidiControlChange(7, 9, quantized_start_step=s, quantized_end_step=e)', cq)):
        ps = ctx.drive(mod, 'def f(s, e):\n    a = %s\n    return a.is_quantized(), a.quantized_start_step, a.quantized_end_step' % src)
        decide(ctx, 'known', cn, ps, grid(s=(-1, 0, 1, 5), e=(-1, 0, 1, 6)), lambda c: (c['s'] >= 0 and c['e'] >= 0, c['s'], c['e']), where)
    ps = ctx.drive(N, 'def f(s, e, q):\n    a = MidiNote(pitch=60, start_time=0.0, end_time=1.0, quantized_start_step=s, quantized_end_step=e)\n'
                   '    return a.step_duration_in_samples(), a.compute_step_duration_in_seconds(q)')
    decide(ctx, 'length', 'of a note', ps, grid(s=(0, 1, 4), e=(5, 8, 20), q=(1, 4, 10)), lambda c: (c['e'] - c['s'] + 1, (c['e'] - c['s']) / c['q']), g('step_duration_in_samples'))
    for body, bad in (('a.step_duration_in_samples()', grid(s=(-1,), e=(-1, 4), q=(4,)) + grid(s=(3,), e=(-1,), q=(4,))),
                      ('a.compute_step_duration_in_seconds(q)', grid(s=(-1,), e=(-1, 4), q=(4,)) + grid(s=(0,), e=(4,), q=(0, -1)))):
        ps = ctx.drive(N, 'def f(s, e, q):\n    a = MidiNote(pitch=60, start_time=0.0, end_time=1.0, quantized_start_step=s, quantized_end_step=e)\n    return %s' % body)
        decide(ctx, 'length', 'refused: ' + body, ps, bad, lambda c: RAISES, g('step_duration_in_samples'))
    ps = ctx.drive(N, 'def f(s, q):\n    return MidiNote.steps_to_seconds(s, q)')
    decide(ctx, 'length', 'steps_to_seconds', ps, grid(s=(0, 1, 2, 5, 7, 100, 12345), q=(1, 2, 3, 4, 7, 64)),
           lambda c: float((Decimal(c['s']) / Decimal(c['q'])).quantize(Decimal('.00001'), rounding='ROUND_HALF_UP')), g('steps_to_seconds'))
    ctx.floor('nearest', 5)
    ctx.floor('control', 3)
    ctx.floor('note', 1)
    ctx.floor('known', 2)
    ctx.floor('length', 4)
