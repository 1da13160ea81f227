"""Music theory: the tables (M01, by constant folding) and what is computed from them (M02)."""
from . import prop
from ..fold import fold_module, Member, NoValue
from ..lib import *
from ..terms import T, mk, const, num, binop
from .values import Eval, RAISES

MOD = PKG + 'midi.midi_scales'
MT = MOD + '.MusicTheory'

# what a chord of that name sounds like (semitones above the root); several tables list the same chords under their own names
CHORDS = {
    'M': (0, 4, 7), 'm': (0, 3, 7), 'dim': (0, 3, 6), 'aug': (0, 4, 8), 'sus2': (0, 2, 7), 'sus4': (0, 5, 7),
    '7': (0, 4, 7, 10), 'M7': (0, 4, 7, 11), 'm7': (0, 3, 7, 10), 'm7b5': (0, 3, 6, 10), 'dim7': (0, 3, 6, 9), 'aug7': (0, 4, 8, 10), 'mM7': (0, 3, 7, 11),
    '6': (0, 4, 7, 9), 'm6': (0, 3, 7, 9), '9': (0, 4, 7, 10, 14), 'M9': (0, 4, 7, 11, 14), 'm9': (0, 3, 7, 10, 14),
    '11': (0, 4, 7, 10, 14, 17), 'M11': (0, 4, 7, 11, 14, 17), 'm11': (0, 3, 7, 10, 14, 17),
    '13': (0, 4, 7, 10, 14, 17, 21), 'M13': (0, 4, 7, 11, 14, 17, 21), 'm13': (0, 3, 7, 10, 14, 17, 21),
    'add9': (0, 4, 7, 14), '7sus4': (0, 5, 7, 10), '7#9': (0, 4, 7, 10, 15), '7b9': (0, 4, 7, 10, 13)}
ALIASES = {
    'maj': 'M', 'min': 'm', 'maj7': 'M7', 'min7': 'm7', 'dom7': '7', 'hdim7': 'm7b5', 'minmaj7': 'mM7', 'maj6': '6', 'min6': 'm6', 'maj9': 'M9', 'min9': 'm9',
    'dom9': '9', 'maj11': 'M11', 'min11': 'm11', 'maj13': 'M13', 'min13': 'm13', 'dom#9': '7#9', 'domb9': '7b9', 'dom13': '13', 'm7(b5)': 'm7b5', 'm(maj7)': 'mM7',
    'MAJOR': 'M', 'MINOR': 'm', 'AUGMENTED': 'aug', 'DIMINISHED': 'dim', 'SUS2': 'sus2', 'SUS4': 'sus4', 'SEVENTH': '7', 'MAJOR_SEVENTH': 'M7', 'MINOR_SEVENTH': 'm7',
    'DOMINANT_SEVENTH': '7', 'AUGMENTED_SEVENTH': 'aug7', 'DIMINISHED_SEVENTH': 'dim7', 'HALF_DIMINISHED_SEVENTH': 'm7b5', 'MINOR_MAJOR_SEVENTH': 'mM7',
    'ELEVENTH': '11', 'MAJOR_ELEVENTH': 'M11', 'MINOR_ELEVENTH': 'm11', 'THIRTEENTH': '13', 'MAJOR_THIRTEENTH': 'M13', 'MINOR_THIRTEENTH': 'm13',
    'DOMINANT_NINTH': '9', 'MAJOR_NINTH': 'M9', 'MINOR_NINTH': 'm9', 'DOMINANT_SHARP_NINTH': '7#9', 'DOMINANT_FLAT_NINTH': '7b9', 'DOMINANT_THIRTEENTH': '13',
    'MAJOR_SIXTH': '6', 'MINOR_SIXTH': 'm6',
    'Seven': '7', 'MajorSeven': 'M7', 'MinorSeven': 'm7', 'HalfDiminishedSeven': 'm7b5', 'DiminishedSeven': 'dim7', 'AugmentedSeven': 'aug7', 'Sixth': '6', 'MinorSixth': 'm6',
    'Ninth': '9', 'MajorNinth': 'M9', 'MinorNinth': 'm9', 'Eleventh': '11', 'MajorEleventh': 'M11', 'MinorEleventh': 'm11', 'Thirteenth': '13', 'MajorThirteenth': 'M13',
    'MinorThirteenth': 'm13', 'AddNine': 'add9', 'SusTwo': 'sus2', 'SusFour': 'sus4', 'SevenSusFour': '7sus4'}
SCALES = {
    'MAJOR': (0, 2, 4, 5, 7, 9, 11), 'MINOR': (0, 2, 3, 5, 7, 8, 10), 'DORIAN': (0, 2, 3, 5, 7, 9, 10), 'PHRYGIAN': (0, 1, 3, 5, 7, 8, 10), 'LYDIAN': (0, 2, 4, 6, 7, 9, 11),
    'MIXOLYDIAN': (0, 2, 4, 5, 7, 9, 10), 'AEOLIAN': (0, 2, 3, 5, 7, 8, 10), 'LOCRIAN': (0, 1, 3, 5, 6, 8, 10), 'HARMONIC_MINOR': (0, 2, 3, 5, 7, 8, 11),
    'MELODIC_MINOR': (0, 2, 3, 5, 7, 9, 11)}
TRIADS = {(4, 3): 'M', (3, 4): 'm', (3, 3): 'dim', (4, 4): 'aug'}


def chord_of(name):
    n = name.name if isinstance(name, Member) else name
    return CHORDS.get(ALIASES.get(n, n))


def sums(steps):
    out = [0]
    for s in steps:
        out.append(out[-1] + s)
    return tuple(out)


def near(got, want):
    """a chord may leave out inner notes above the seventh, but none of the rest and not the note it is named after"""
    got = tuple(got)
    return tuple(sorted(got)) == got and set(got) <= set(want) and set(want[:4]) <= set(got) and got[-1] == want[-1]


@prop('M01', 'Constant folding of the tables of the music theory module, and comparison of every entry with the entries of the other tables for the same interval, '
      'scale or chord and with the definition of the chord or scale.',
      technique='constant folding of table literals with cross-table consistency rules',
      assumptions=['a chord or scale is what music theory calls by that name'])
def check_m01(ctx):
    ctx.analysed.add(MT)
    ctx.rule('inverse', 'a reverse table is the exact inverse of its table')
    ctx.rule('interval', 'interval sizes agree between the enumeration and the table, and every interval used has a size')
    ctx.rule('scale', 'both scale tables give the same seven ascending notes within one octave')
    ctx.rule('triad', 'the quality listed for every degree of a scale is that of the triad on it')
    ctx.rule('chord', 'every table gives the same notes for a chord')
    if MOD not in ctx.p.modules:
        raise AnalysisBroken('the music theory module is gone')
    fo = fold_module(ctx.p, MOD)
    ns = fo.classes.get('MusicTheory')
    if ns is None:
        raise AnalysisBroken('MusicTheory is gone')

    def table(n):
        if not dict.__contains__(ns, n):
            raise AnalysisBroken('table MusicTheory.%s is gone or is not constant' % n)
        return ns[n]
    loc = lambda n: fo.where.get(('MusicTheory', n), '')
    # names of notes
    names, pitches, back = table('note_names'), table('pitch_names'), table('pitch_to_note_name')
    ctx.need(len(names) == 12 == len(set(names)), 'inverse', 'note_names', 'there are %d names for twelve notes' % len(set(names)), loc('note_names'))
    want = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
    for i in range(12):
        ctx.need(pitches.get(i) == names[i] == want[i] if i < len(names) else False, 'inverse', 'pitch_names %d' % i, 'the note is called %s and %s' % (pitches.get(i), names[i]), loc('pitch_names'))
    ctx.need(set(pitches) == set(range(12)), 'inverse', 'pitch_names', 'it has other keys than 0 to 11', loc('pitch_names'))
    inverse(ctx, 'pitch_to_note_name', pitches, back, loc)
    # intervals
    iv = fo.env.get('Interval')
    sizes = table('intervals')
    simple = {'P1': 0, 'm2': 1, 'M2': 2, 'm3': 3, 'M3': 4, 'P4': 5, 'A4': 6, 'd5': 6, 'Tritone': 6, 'P5': 7, 'A5': 8, 'm6': 8, 'M6': 9, 'd7': 9, 'm7': 10, 'M7': 11, 'P8': 12,
              'm9': 13, 'M9': 14, 'm10': 15, 'M10': 16, 'P11': 17, 'A11': 18, 'm13': 20, 'M13': 21}
    for e in ('Interval', 'ScaleInterval'):
        en = fo.env.get(e)
        if en is None:
            raise AnalysisBroken('enumeration %s is gone' % e)
        for n, m in en.members.items():
            if n in simple:
                ctx.need(m.value == simple[n], 'interval', '%s.%s' % (e, n), 'it has %s semitones' % m.value, ctx.p.modules[MOD].relpath)
    for m, v in sizes.items():
        ctx.need(isinstance(m, Member) and m.value == v, 'interval', 'intervals[%s]' % m, 'the table says %s, the enumeration %s' % (v, getattr(m, 'value', '?')), loc('intervals'))
    size = lambda m: sizes.get(m)
    # scales
    byname = lambda d: {k.name if isinstance(k, Member) else k: v for k, v in d.items()}
    si, sc, tr = byname(table('scale_intervals')), byname(table('scales')), byname(table('chords'))
    kinds = fo.env.get('ScaleType')
    for n in (kinds.members if kinds else ()):
        a = sorted((size(m) if size(m) is not None else -1) for m in si.get(n, ()))
        b = list(sc.get(n, ()))
        ctx.need(-1 not in a, 'interval', 'scale_intervals[%s]' % n, 'it has an interval of unknown size', loc('scale_intervals'))
        ctx.need(a == b and len(a) == 7, 'scale', n, 'one table has %s, the other %s' % (a, b), loc('scales'))
        ok = len(b) == 7 and b[0] == 0 and all(x < y for x, y in zip(b, b[1:])) and b[-1] < 12
        ctx.need(ok, 'scale', '%s: octave' % n, 'its notes are %s' % b, loc('scales'))
        ctx.need(n not in SCALES or tuple(b) == SCALES[n], 'scale', '%s: notes' % n, 'its notes are %s' % b, loc('scales'))
        if not ok:
            continue
        t = tr.get(n, ())
        ctx.need(len(t) == 7, 'triad', n, 'it lists %d triads' % len(t), loc('chords'))
        for i, q in enumerate(t[:7]):
            x, y, z = [b[(i + k) % 7] + 12 * ((i + k) // 7) for k in (0, 2, 4)]
            ctx.need(TRIADS.get((y - x, z - y)) == q, 'triad', '%s degree %d' % (n, i + 1), 'the triad is %s, the table says %s' % (TRIADS.get((y - x, z - y)), q), loc('chords'))
    used = {q for t in tr.values() for q in t}
    long = table('chord_name_mapping')
    for q in sorted(used):
        ctx.need(q in long, 'triad', 'chord_name_mapping[%s]' % q, 'the quality has no name', loc('chord_name_mapping'))
    # chords
    steps, formula, rev = table('chord_intervals'), table('chord_intervals_mapping'), table('chord_intervals_reverse')
    inverse(ctx, 'chord_intervals_reverse', {k: tuple(v) for k, v in steps.items()}, rev, loc)
    for n, v in steps.items():
        w = chord_of(n)
        ctx.need(w is None or sums(v) == w, 'chord', 'chord_intervals[%s]' % n, 'it builds %s' % (sums(v),), loc('chord_intervals'))
        if n in formula:
            got = [size(m) for m in formula[n]]
            ctx.need(None not in got, 'interval', 'chord_intervals_mapping[%s]' % n, 'an interval of it has no size in the table of intervals', loc('chord_intervals_mapping'))
            ctx.need(None in got or near(got, sums(v)), 'chord', 'chord_intervals_mapping[%s]' % n, 'its intervals are %s, its steps build %s' % (got, sums(v)), loc('chord_intervals_mapping'))
    for n, v in formula.items():
        got = [size(m) for m in v]
        w = chord_of(n)
        ctx.need(w is None or None in got or near(got, w), 'chord', 'chord_intervals_mapping[%s]' % n, 'its intervals are %s' % got, loc('chord_intervals_mapping'))
    for n, v in table('chords_types').items():
        w = chord_of(n)
        ctx.need(w is None or near(v, w), 'chord', 'chords_types[%s]' % n, 'its notes are %s' % list(v), loc('chords_types'))
    for v, n in table('chord_mapping').items():
        w = chord_of(n)
        ctx.need(w is None or near(sorted(v), w), 'chord', 'chord_mapping[%s]' % n, 'its notes are %s' % sorted(v), loc('chord_mapping'))
    for n, v in long.items():
        ctx.need(chord_of(n) is None or chord_of(v) == chord_of(n), 'chord', 'chord_name_mapping[%s]' % n, 'it is called %s' % v, loc('chord_name_mapping'))
    ce = fo.env.get('ChordIntervals')
    for n, m in (ce.members.items() if ce else ()):
        w = chord_of(n)
        ctx.need(w is None or sums(m.value) == w, 'chord', 'ChordIntervals.%s' % n, 'it builds %s' % (sums(m.value),), ctx.p.modules[MOD].relpath)
        ctx.need(m.name == n, 'chord', 'ChordIntervals.%s' % n, 'it is another name of %s' % m.name, ctx.p.modules[MOD].relpath)
    for n, v in table('rhythm_signatures').items():
        ctx.need(n == '%s/%s' % tuple(v), 'inverse', 'rhythm_signatures[%s]' % n, 'it is %s' % (v,), loc('rhythm_signatures'))
    ctx.floor('inverse', 40)
    ctx.floor('interval', 60)
    ctx.floor('scale', 25)
    ctx.floor('triad', 70)
    ctx.floor('chord', 100)


def inverse(ctx, name, fwd, back, loc):
    for k, v in fwd.items():
        ctx.need(back.get(v) == k, 'inverse', '%s[%s]' % (name, v), 'it gives %s, not %s' % (back.get(v), k), loc(name))
    ctx.need(len(back) == len(fwd), 'inverse', name, 'it has %d entries, its table %d' % (len(back), len(fwd)), loc(name))


# ---------------------------------------------------------------- M02
def tab(t, *names):
    return t.op == 'cattr' and t.a[0] == MT and t.a[1] in names


def addends(t):
    if t.op == 'bin' and t.a[0] == '+':
        return addends(t.a[1]) + addends(t.a[2])
    if t.op == 'lin':
        return [x for x, k in t.a[1] for _ in range(int(k))] + ([const(t.a[0])] if t.a[0] else []) if all(k > 0 for _, k in t.a[1]) else [t]
    return [t]


def modulo(t):
    """(dividend, divisor)"""
    if t.op == 'bin' and t.a[0] == '%':
        return t.a[1], t.a[2]
    if t.op == 'item' and t.a[1] is const(1) and t.a[0].op == 'call' and t.a[0].a[0] == 'divmod':
        return t.a[0].a[1]
    return t, None


class Music:
    """meaning of the terms of one path: pitch classes relative to the root, notes of the scale, degrees"""

    def __init__(self, p, root, scale=None):
        self.p, self.root, self.scale = p, root, scale
        self.full = {}
        for e, ch in walk(p.events):
            if e.a[0] == 'mut' and len(e.a[1][2]) == 1:
                self.full[e.a[1][2][0]] = dargs(e)[2][0]

    own_note = None

    def the_scale(self, t):
        """the scale that was asked for, as a member of the enumeration or by its name"""
        while True:
            if t.op == 'call' and t.a[0] == MOD + '.ScaleType' and len(t.a[1]) == 1:
                t = t.a[1][0]
            elif t.op == 'item' and t.a[0] is mk('cls', MOD + '.ScaleType'):
                t = t.a[1]
            elif t.op in ('mcall', 'mres') and t.a[1] in ('upper', 'lower') and not t.a[2]:
                t = t.a[0]
            elif t.op == 'attr' and t.a[1] in ('value', 'name'):
                t = t.a[0]
            else:
                return t is self.scale

    def is_root(self, t):
        """pitch class of the root"""
        if t.op in ('mcall', 'mres') and t.a[1] == 'index' and tab(t.a[0], 'note_names'):
            return self.root_name(t.a[2][0])
        if t.op == 'item' and tab(t.a[0], 'pitch_to_note_name'):
            return self.root_name(t.a[1])
        return t is self.root and not self.named(True)

    def named(self, v):
        return self.p.guards.get(mk('isinst', self.root, frozenset([mk('ext', 'builtins.str')])), None) is v

    def root_name(self, t):
        if t.op == 'item' and tab(t.a[0], 'note_names', 'pitch_names'):
            return self.is_root(t.a[1])
        if t.op in ('mcall', 'mres') and t.a[1] in ('upper', 'capitalize', 'title') and not t.a[2]:
            return t.a[0] is self.root and self.named(True)
        return False            # the tables list the names in upper case, and a root can also be a number

    def size_of(self, t):
        """interval whose size the term is"""
        if t.op == 'item' and tab(t.a[0], 'intervals'):
            return t.a[1]
        if t.op in ('mcall', 'mres') and t.a[1] == 'get' and tab(t.a[0], 'intervals') and len(t.a[2]) == 1:
            return t.a[2][0]
        if t.op == 'attr' and t.a[1] == 'value':
            return t.a[0]
        if t.op == 'alts':
            got = {self.size_of(v) for _, v in t.a[0] if v is not NONE}
            return got.pop() if len(got) == 1 else None
        return None

    def pitch(self, t):
        """interval above the root of a pitch class, or None"""
        x, m = modulo(t)
        if m is not const(12):
            return None
        ts = addends(x)
        if len(ts) != 2:
            return None
        for a, b in (ts, ts[::-1]):
            if self.is_root(a):
                s = self.size_of(b)
                return s if s is not None else mk('tuple', b)
        return None

    def notes(self, t):
        """is it the list of the notes of the scale, ascending?"""
        if t.op != 'map' or len(t.a[2]) != 1:
            return 'it is %s' % short(t, 60)
        (g, v), = t.a[2]
        base, order = t.a[0], t.a[1]
        if base.op == 'sorted':
            order, base = (('sorted', base.a[1], base.a[2]),), base.a[0]
        if g:
            return 'some notes are left out'
        if v.op != 'item' or not tab(v.a[0], 'note_names', 'pitch_names'):
            return 'a note is %s' % short(v, 60)
        s = self.pitch(v.a[1])
        if s is None:
            return 'a note is at %s' % short(v.a[1], 80)
        if base.op == 'item' and tab(base.a[0], 'scale_intervals') and self.the_scale(base.a[1]):
            if s.op != 'elem':
                return 'a note is %s above the root' % short(s, 60)
            arg = mk('arg')
            keyed = len(order) == 1 and order[0][0] == 'sorted' and order[0][2] is not const(True) and isinstance(order[0][1], T) and self.size_of(order[0][1]) is arg
            return None if keyed else 'the notes are not in ascending order'
        if base.op == 'item' and tab(base.a[0], 'scales') and self.the_scale(base.a[1]):
            return None if s.op == 'tuple' and s.a[0].op == 'elem' and not order else 'a note is %s above the root' % short(s, 60)
        return 'the notes are those of %s' % short(base, 60)

    def degree(self, t):
        """offset from the degree of this iteration"""
        if t.op == 'elem' or self.own_note is not None and t is self.own_note:
            return 0
        if t.op != 'item' or self.notes(t.a[0]) is not None:
            return None
        x, m = modulo(t.a[1])
        if m is not None and m is not const(7) and not (m.op == 'call' and m.a[0] == 'len'):
            return None
        ts = addends(x)
        k = sum(a.a[0] for a in ts if a.op == 'const' and isinstance(a.a[0], int))
        rest = [a for a in ts if a.op != 'const']
        if len(rest) != 1 or not self.counter(rest[0]) or k and m is None:
            return None
        return k % 7

    def counter(self, t):
        return t.op == 'idx' or t.op == 'elem' and t.a[0].op == 'call' and t.a[0].a[0] == 'range' and len(t.a[0].a[1]) == 1

    def triad(self, v):
        if v.op in ('mcall', 'mres') and v.a[1] == 'join' and v.a[0] is const(''):
            v = v.a[2][0]
        elif v.op == 'fstr':
            v = mk('list', *v.a)
        elif v.op == 'bin' and v.a[0] == '+':
            v = mk('list', *addends(v))
        if v.op not in ('list', 'tuple'):
            return 'a triad is %s' % short(v, 60)
        ds = [self.degree(x) for x in v.a]
        return None if ds == [0, 2, 4] else 'a triad is made of the degrees %s' % ', '.join('?' if d is None else '+%d' % d for d in ds)


class Tables(Eval):
    """evaluation of terms over the folded tables of the module"""

    def __init__(self, leaf, project, folded):
        super().__init__(leaf, project)
        self.folded, self.elems = folded, {}

    def whole(self, t):
        """a table, list or enumeration as a python object"""
        if t.op == 'cattr' and t.a[0] == MT:
            ns = self.folded.classes['MusicTheory']
            return ns[t.a[1]] if t.a[1] in ns else None
        if t.op == 'cls' and t.a[0].startswith(MOD + '.'):
            e = self.folded.env.get(t.a[0].rpartition('.')[2])
            return e if hasattr(e, 'members') else None
        if t.op in ('mcall', 'mres') and t.a[1] in ('keys', 'values', 'items') and not t.a[2]:
            d = self.whole(t.a[0])
            return list(getattr(d, t.a[1])()) if isinstance(d, dict) else None
        if t.op == 'attr' and t.a[1] == '__members__':
            e = self.whole(t.a[0])
            return e.members if hasattr(e, 'members') else None
        return None

    def things(self, t):
        w = self.whole(t)
        if w is None:
            v = self.value(t)
            return list(v) if isinstance(v, (tuple, list)) else None
        return w.canonical if hasattr(w, 'canonical') else list(w)

    def value(self, t):
        if isinstance(t, T) and t.op == 'elem' and t in self.elems:
            return self.elems[t]
        v = super().value(t)
        if v is not None or not isinstance(t, T):
            return v
        if t.op == 'attr' and t.a[1] in ('name', 'value'):
            m = self.value(t.a[0])
            return getattr(m, t.a[1]) if isinstance(m, Member) else None
        if t.op in ('mcall', 'mres') and t.a[1] in ('upper', 'lower', 'capitalize', 'title', 'strip') and not t.a[2]:
            m = self.value(t.a[0])
            return getattr(m, t.a[1])() if isinstance(m, str) else None
        if t.op == 'call' and t.a[0] in ('tuple', 'list') and len(t.a[1]) == 1 and not t.a[2]:
            m = self.value(t.a[1][0])
            return (tuple if t.a[0] == 'tuple' else list)(m) if isinstance(m, (tuple, list)) else None
        if t.op == 'enum' and t.a[0].startswith(MOD + '.'):
            e = self.folded.env.get(t.a[0].rpartition('.')[2])
            return e.members.get(t.a[1]) if hasattr(e, 'members') else None
        if t.op == 'call' and t.a[0].startswith(MOD + '.') and len(t.a[1]) == 1:
            e, x = self.folded.env.get(t.a[0].rpartition('.')[2]), self.value(t.a[1][0])
            if hasattr(e, 'canonical'):
                return x if isinstance(x, Member) else next((m for m in e.canonical if m.value == x), None)
        if t.op == 'map' and not t.a[1]:
            xs = self.things(t.a[0])
            if xs is None:
                return None
            el, out = mk('elem', t.a[0], t.a[3]), []
            saved = self.elems.get(el)
            for x in xs:
                self.elems[el] = x
                for g, v in t.a[2]:
                    ok = self.lits(g)
                    if ok is None:
                        out = None
                    elif ok and out is not None:
                        y = self.value(v)
                        out = None if y is None else out + [y]
                if out is None:
                    break
            self.elems.pop(el, None)
            if saved is not None:
                self.elems[el] = saved
            return None if out is None else tuple(out)
        if t.op == 'call' and t.a[0] == 'next' and len(t.a[1]) == 2 and t.a[1][0].op == 'map':
            xs = self.value(t.a[1][0])
            return None if xs is None else xs[0] if xs else self.value(t.a[1][1])
        if t.op == 'item':
            w, k = self.whole(t.a[0]), self.value(t.a[1])
            w = self.value(t.a[0]) if w is None and t.a[0].op == 'map' else w
            if k is None:
                return None
            try:
                return w.members[k] if hasattr(w, 'members') else w[k] if w is not None else None
            except (KeyError, IndexError, TypeError):
                return None
        if t.op == 'fstr':
            vs = [self.value(x) for x in t.a]
            return None if any(v is None for v in vs) else ''.join(str(v) for v in vs)
        return self.whole(t) if t.op == 'cattr' else None

    def atom(self, a):
        if a.op == 'any':
            xs = self.things(a.a[0])
            if xs is None:
                return None
            el, out = mk('elem', a.a[0], a.a[2]), False
            for x in xs:
                saved = self.elems.get(el)
                self.elems[el] = x
                got = [self.lits(g) for g in a.a[1]]
                self.elems.pop(el)
                if saved is not None:
                    self.elems[el] = saved
                if True in got:
                    return True
                if None in got:
                    out = None
            return out
        if a.op == 'in':
            x, w = self.value(a.a[0]), self.whole(a.a[1])
            if x is not None and w is not None:
                try:
                    return x in (w.canonical if hasattr(w, 'canonical') else w)
                except TypeError:
                    return None
        if a.op == 'isinst' and all(c.op == 'ext' for c in a.a[1]):
            x = self.value(a.a[0])
            if isinstance(x, (list, tuple, Member)):
                return any(c.a[0] == 'builtins.' + type(x).__name__ for c in a.a[1])
        return super().atom(a)

    def results(self, p):
        """the values a path can return: one for each element its early return can stand for"""
        for a, v in list(p.guards.items()):
            if a.op == 'any' and v and self.things(a.a[0]) is not None:
                el = mk('elem', a.a[0], a.a[2])
                for x in self.things(a.a[0]):
                    self.elems[el] = x
                    if self.lits(p.guards) is not False:
                        yield self.value(p.dvalue) if p.kind == 'return' else RAISES
                self.elems.pop(el, None)
                return
        if self.lits(p.guards) is not False:
            yield RAISES if p.kind != 'return' or self.refused(p.dvalue) else self.value(p.dvalue)

    def refused(self, t):
        """the value of an enumeration that has no member with it: an error"""
        if t.op == 'call' and t.a[0].startswith(MOD + '.') and len(t.a[1]) == 1:
            e, x = self.folded.env.get(t.a[0].rpartition('.')[2]), self.value(t.a[1][0])
            return hasattr(e, 'canonical') and x is not None and not isinstance(x, Member) and all(m.value != x for m in e.canonical)
        return False


@prop('M03', 'The tables are folded to constants and every path of each lookup is decided over them, for every chord, interval list, size, pitch, '
      'scale name and pair of intervals, also for those that do not exist.',
      technique='constant folding of tables and exhaustive case evaluation of abstract paths',
      assumptions=['the tables are right (M01)'])
def check_m03(ctx):
    ctx.rule('lookup', 'the result belongs to exactly what was asked for')
    ctx.rule('unknown', 'what does not exist gives no result (None, or an error)')
    folded = fold_module(ctx.p, MOD)
    ns = folded.classes['MusicTheory']
    steps, scales, names = ns['chord_intervals'], ns['scale_intervals'], ns['pitch_names']
    sizes = folded.env['Interval']

    def each(name, cases, want, none=()):
        f = ctx.p.functions.get(MT + '.' + name) or broken('MusicTheory.%s is gone' % name)
        ps = ctx.run(f.qualname)
        bad = {}
        for i, case in enumerate(list(cases) + list(none)):
            rid = 'lookup' if i < len(cases) else 'unknown'
            ev = Tables(lambda t: case.get(f.params.index(t.a[0])) if t.op == 'param' and t.a[0] in f.params else None, ctx.p, folded)
            got = [r for p in ps for r in ev.results(p)]
            shown_case = ', '.join(str(x) for x in case.values())
            if not got:
                bad.setdefault(rid, '%s: no path of the code covers this case' % shown_case)
            for r in got:
                why = want(case, r)
                if why is not None:
                    bad.setdefault(rid, '%s: %s' % (shown_case, why))
            ctx.need(rid not in bad, rid, '%s(%s)' % (name, shown_case) if rid not in bad else name, bad.get(rid, ''), f.loc())

    def is_(w, r, none=None):
        if r is None:
            return None if w is None else 'the result cannot be shown to be %s' % (w,)
        return None if r == w or isinstance(r, (tuple, list)) and isinstance(w, (tuple, list)) and tuple(r) == tuple(w) else 'the result is %s, it should be %s' % (r, w)
    arg = lambda *xs: dict(enumerate(xs))
    each('get_chord_intervals', [arg(n) for n in steps], lambda c, r: is_(steps[c[0]], r))
    none_of = [x for x in ([1, 1], [12], [4, 3, 1, 1], [3]) if x not in steps.values()]
    named = lambda c, r: ('no chord has these intervals, but the result is %s' % r if r is not None else None) if list(c[0]) not in [list(v) for v in steps.values()] else \
        'it is not found' if r is None else None if isinstance(r, str) and list(steps.get(r, ())) == list(c[0]) else 'the result is %s' % (r,)
    each('get_chord_name', [arg(list(v)) for v in steps.values()], named, [arg(x) for x in none_of])
    each('get_chord_name_from_intervals', [arg(list(v)) for v in steps.values()] + [arg(tuple(v)) for v in steps.values()], named, [arg(x) for x in none_of] + [arg(tuple(x)) for x in none_of])
    each('pitch_to_note', [arg(i) for i in range(128)], lambda c, r: is_('%s%d' % (names[c[0] % 12], c[0] // 12), r))
    known = {m.value for m in sizes.canonical}
    size = lambda n, r: (None if n in known and isinstance(r, Member) and r.value == n or n not in known and r is RAISES else 'the result is %s' % (r,))
    each('from_semitones', [arg(n) for n in sorted(known)], lambda c, r: size(c[0], r), [arg(n) for n in range(-2, 40) if n not in known])
    ms = sizes.canonical
    pairs = [arg(a, b) for a in ms for b in ms]
    each('compound_interval_from_bases', [c for c in pairs if c[0].value + c[1].value in known], lambda c, r: size(c[0].value + c[1].value, r),
         [c for c in pairs if c[0].value + c[1].value not in known])
    types = folded.env['ScaleType'].members
    each('intervals_from_scale', [arg(m) for m in types.values() if m in scales] + [arg(x) for n, m in types.items() if m in scales for x in (n, n.lower(), n.capitalize())],
         lambda c, r: is_(set(scales[c[0] if isinstance(c[0], Member) else types[c[0].upper()]]), set(r) if isinstance(r, (set, frozenset, list)) else r))
    ctx.floor('lookup', 300)
    ctx.floor('unknown', 100)


@prop('M02', 'Matching of the symbolic results of the music theory operations for every kind of root: the interval each note is above the root, the order of the notes '
      'and the degrees of the triads.',
      technique='symbolic result matching over all paths',
      assumptions=['the tables are consistent (M01)'])
def check_m02(ctx):
    ctx.rule('scale', 'the notes of a scale are the root raised by every interval of the scale modulo twelve, ascending')
    ctx.rule('chord', 'the pitches of a chord are the root raised by every interval asked for modulo twelve, in the order given; a name is the interval of that name')
    ctx.rule('triad', 'the triad on each degree has that degree, the third and the fifth above it, and the quality listed for the degree')
    ctx.rule('octave', 'an interval is split into a simple interval and octaves and put together again without change')
    need_fn = lambda n: ctx.p.functions.get(MT + '.' + n) or broken('MusicTheory.%s is gone' % n)
    f = need_fn('notes_from_scale')
    root, scale = [mk('param', x) for x in f.params[:2]]
    for p in ctx.run(f.qualname):
        if any(impossible(g, root) for g in p.guards.items()):
            continue
        if p.kind != 'return':
            root_or_scale(ctx, 'scale', f, p, root)
            continue
        why = Music(p, root, scale).notes(p.dvalue)
        ctx.need(why is None, 'scale', f.name, why, f.loc())
    for n in ('triads_from_scale', 'triads_from_scale_tuple'):
        f = need_fn(n)
        root, scale = [mk('param', x) for x in f.params[:2]]
        for p in ctx.run(f.qualname):
            if any(impossible(g, root) for g in p.guards.items()):
                continue
            if p.kind != 'return':
                root_or_scale(ctx, 'triad', f, p, root)
                continue
            m = Music(p, root, scale)
            t = p.dvalue
            if not ctx.need(t.op == 'map' and len(t.a[2]) == 1, 'triad', n, 'the result is %s' % short(t, 60), f.loc()):
                continue
            (g, v), = t.a[2]
            base = t.a[0]
            v = m.full.get(v, v)
            # going through the notes as they are made is going through the list of the notes
            for x in subterms_of(v):
                if x.op == 'item' and tab(x.a[0], 'note_names', 'pitch_names') and m.notes(mk('map', base, t.a[1], frozenset([(frozenset(), x)]), t.a[3])) is None:
                    m.own_note = x
            ctx.need(not t.a[1] or m.own_note is not None or any(m.degree(x) == 0 for x in subterms_of(v)), 'triad', n, 'the degrees are in another order', f.loc())
            if base.op == 'call' and base.a[0] == 'range' and len(base.a[1]) == 1:
                ctx.need(base.a[1][0] is const(7) or base.a[1][0].op == 'call' and base.a[1][0].a[0] == 'len', 'triad', n, 'the degrees are %s' % short(base, 60), f.loc())
            elif base.op == 'item' and tab(base.a[0], 'scale_intervals', 'scales'):
                ctx.need(m.the_scale(base.a[1]), 'triad', n, 'the degrees are those of %s' % short(base, 60), f.loc())
            elif not (base.op == 'call' and base.a[0] in ('zip', 'enumerate')):
                why = m.notes(base)
                ctx.need(why is None, 'triad', n, why, f.loc())
            ctx.need(not g, 'triad', n, 'some degrees have no triad', f.loc())
            v = m.full.get(v, v)
            if n.endswith('_tuple') and ctx.need(v.op == 'tuple' and len(v.a) == 2, 'triad', n, 'a degree is %s' % short(v, 60), f.loc()):
                q = v.a[1]
                ok = q.op == 'item' and tab(q.a[0], 'chord_name_mapping') and q.a[1].op == 'item' and q.a[1].a[0].op == 'item' and tab(q.a[1].a[0].a[0], 'chords') and \
                    m.the_scale(q.a[1].a[0].a[1]) and m.counter(q.a[1].a[1])
                ok = ok or q.op == 'item' and tab(q.a[0], 'chord_name_mapping') and q.a[1].op == 'elem' and mentions(q.a[1], lambda x: tab(x, 'chords'))
                ctx.need(ok, 'triad', '%s: quality' % n, 'the quality is %s' % short(q, 80), f.loc())
                v = v.a[0]
            why = m.triad(v)
            ctx.need(why is None, 'triad', n, why, f.loc())
    f = need_fn('chord_pitch_from_interval')
    root, chord = [mk('param', x) for x in f.params[:2]]
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            root_or_scale(ctx, 'chord', f, p, root, chord)
            continue
        t, m = p.dvalue, Music(p, root)
        if not ctx.need(t.op == 'map' and t.a[0] is chord and not t.a[1], 'chord', f.name, 'the result is %s' % short(t, 60), f.loc()):
            continue
        names = []
        for g, v in t.a[2]:
            s = m.pitch(v)
            el = next((x for x in subterms_of(v) if x.op == 'elem'), None)
            ok = s is not None and el is not None
            if ok and s is not el:
                # the interval of that very name; another spelling only where no interval has the name
                ok = s.op == 'item' and s.a[0] is mk('cls', MOD + '.Interval')
                by_name = ok and s.a[1] is el
                names.append(by_name)
                known = mk('in', el, mk('attr', mk('cls', MOD + '.Interval'), '__members__'))
                ok = by_name or ok and holds(g, lambda a, q: a is known and not q)
            ctx.need(ok, 'chord', f.name, 'a pitch is %s' % short(v, 90), f.loc())
        ctx.need(any(names), 'chord', '%s: names' % f.name, 'an interval given by name is not looked up by that name', f.loc())
        ctx.need(exhaustive([g for g, _ in t.a[2]]), 'chord', '%s: all' % f.name, 'some intervals give no pitch', f.loc())
    # octaves
    f, g = need_fn('compound_interval_to_base'), need_fn('base_to_compound_interval')
    x = mk('param', f.params[0])
    order = []
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            ctx.need(p.guards == {mk('lt', x, const(0)): True}, 'octave', f.name, 'it refuses an interval that is not negative', f.loc())
            continue
        v = p.dvalue
        ok = v.op == 'tuple' and len(v.a) == 2 and v.a[0] is binop('%', x, const(12)) and v.a[1] is binop('//', x, const(12))
        ok = ok or v.op == 'tuple' and len(v.a) == 2 and [modulo(v.a[0]), quotient(v.a[1])] == [(x, const(12))] * 2
        ctx.need(ok, 'octave', f.name, 'it is split into %s' % short(v, 80), f.loc())
    b, o = [mk('param', y) for y in g.params[:2]]
    for p in ctx.run(g.qualname):
        if p.kind == 'return':
            ctx.need(p.dvalue is binop('+', binop('*', o, const(12)), b), 'octave', g.name, 'it is put together as %s' % short(p.dvalue, 80), g.loc())
        else:
            ok = all(a in (mk('lt', b, const(0)), mk('lt', const(11), b), mk('lt', o, const(0)), mk('lt', b, const(12))) for a, _ in all_lits(p.guards))
            ctx.need(ok, 'octave', g.name, 'it refuses some simple intervals', g.loc())
    h = need_fn('compound_interval_from_bases')
    i, j = [mk('param', y) for y in h.params[:2]]
    fs = need_fn('from_semitones')
    for p in ctx.run(h.qualname, opaque=[fs.qualname]):
        if p.kind != 'return':
            ctx.bad('octave', h.name, 'it raises %s' % short(p.value, 60), h.loc())
            continue
        v = p.dvalue
        tot = binop('+', mk('attr', i, 'value'), mk('attr', j, 'value'))
        a = dict(v.a[1]).get(fs.params[0]) if v.op == 'fcall' else None
        # x // 12 * 12 + x % 12 is x again
        q = binop('//', tot, const(12))
        ok = a is tot or a is not None and (a is binop('+', binop('*', q, const(12)), binop('-', tot, binop('*', q, const(12)))) or
                                            a is binop('+', binop('*', q, const(12)), binop('%', tot, const(12))))
        ctx.need(ok, 'octave', h.name, 'two intervals make %s' % short(v, 100), h.loc())
    x = mk('param', fs.params[0])
    for p in ctx.run(fs.qualname):
        if p.kind == 'return':
            v = p.dvalue
            g = p.guards
            if v.op == 'item' and num(v.a[1]) and v.a[1].a[0] in (0, -1) and v.a[0].op == 'map' and len(v.a[0].a[2]) == 1:
                (g, v), = v.a[0].a[2]
            elif v.op == 'call' and v.a[0] == 'next' and v.a[1][0].op == 'map' and len(v.a[1][0].a[2]) == 1:
                (g, v), = v.a[1][0].a[2]
            same_size = lambda a, q: q and a.op == 'eq' and set(a.a) == {mk('attr', v, 'value'), x}
            found = v.op == 'call' and v.a[0] == MOD + '.Interval' and v.a[1] == (x,) or holds(g, same_size)
            ctx.need(found, 'octave', fs.name, 'semitones give %s' % short(v, 80), fs.loc())
    ctx.floor('scale', 3)
    ctx.floor('chord', 5)
    ctx.floor('triad', 10)
    ctx.floor('octave', 6)


def quotient(t):
    if t.op == 'bin' and t.a[0] == '//':
        return t.a[1], t.a[2]
    if t.op == 'item' and t.a[1] is const(0) and t.a[0].op == 'call' and t.a[0].a[0] == 'divmod':
        return t.a[0].a[1]
    return t, None


def root_or_scale(ctx, rid, f, p, root, other=None):
    """a refusal has to do with a root that is no note or a scale that is unknown"""
    R = lambda t: t is root or t.op == 'item' and tab(t.a[0], 'pitch_to_note_name', 'note_names', 'pitch_names') and mentions(t, lambda x: x is root)

    def why(a, v):
        if a.op == 'lt':
            return v and (R(a.a[0]) and a.a[1] is const(0) or R(a.a[1]) and a.a[0] is const(11)) or not v and R(a.a[0]) and a.a[1] is const(12)
        if a.op == 'in':
            return not v
        if a.op == 'isinst':
            return impossible((a, v), root) or not v and a.a[0] is other
        if a.op == 'any':
            return v and other is not None and mentions(a, lambda x: x is other) and mentions(a, lambda x: x.op == 'isinst')
        return a.op in ('exc', 'isnone') and v
    ctx.need(holds(p.guards, why), rid, f.name, 'it refuses a valid root or scale when %s' % short(' & '.join(show_lit(g) for g in p.guards.items()), 120), f.loc())


def impossible(lit, root):
    """the number of a note is an integer, and a root is a name or an integer"""
    a, v = lit
    if a.op == 'isinst' and not v and a.a[0] is root and mk('ext', 'builtins.int') in a.a[1]:
        return True
    return a.op == 'isinst' and not v and a.a[0].op == 'item' and tab(a.a[0].a[0], 'pitch_to_note_name') and mk('ext', 'builtins.int') in a.a[1]


def broken(msg):
    raise AnalysisBroken(msg)


def subterms_of(t):
    from ..terms import subterms
    return subterms(t)
