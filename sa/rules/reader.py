"""Reading and writing MIDI files (R01-R05)."""
import ast
import itertools

from . import prop
from ..cases import Cases, KINDS
from ..lib import *
from ..loader import Unproved, dotted_of
from ..terms import T, mk, num, const
from .events import deep, has_instrument  # noqa: F401

R = PKG + 'midi_reader.MidiReader'
SEQS = PKG + 'midi.midi_sequences.MidiNoteSequences'
SEQ = PKG + 'midi.midi_sequence.MidiNoteSequence'
PM = PKG + 'custom_pretty_midi.CustomPrettyMIDI'
NOTE = PKG + 'midi.midi_note.MidiNote'
BEND = PKG + 'midi.midi_pitch_bend.MidiPitchBend'
CC = PKG + 'midi.midi_control_change.MidiControlChange'
TS = PKG + 'midi.midi_time_signature.MidiTimeSignature'
TEMPO = PKG + 'midi.midi_time_signature.MidiTempoSignature'
KS = PKG + 'midi.midi_key_signature.MidiKeySignature'
OPAQUE = tuple([x + '.__init__' for x in (NOTE, BEND, CC, TS, TEMPO, KS, SEQS)] +
               [SEQS + '.' + m for m in ('create_track', 'get_track', '__getitem__', 'time_signature', 'add_tempo_signature',
                                         'add_key_signatures', 'add_time_signatures')] +
               [SEQ + '.' + m for m in ('add_note', 'add_pitch_bends', 'add_control_changes')] +
               [R + '.mido_to_pretty_midi', PM + '.get_tempo_changes'])


def parser(ctx):
    """the function of the reader that turns a file name or bytes into a MIDI object"""
    names = [R + '._read_pretty_midi']
    if names[0] not in ctx.p.functions:
        names = [f.qualname for f in ctx.p.cls(R).methods.values() if f.node.name.startswith('_') and len(f.params) <= 2 and any(
            isinstance(n, ast.Call) and (dotted_of(n.func) or '').split('.')[-1] == PM.split('.')[-1] for n in ast.walk(f.node))]
        names = [n for n in names if n != R + '.mido_to_pretty_midi'] or [R + '._read_pretty_midi']
    return names[0]


def opaque_r(ctx):
    return OPAQUE + (parser(ctx),)


def strip(t):
    """number conversions do not change the value"""
    while True:
        if t.op == 'mcall' and t.a[1] in ('item', 'tolist', '__float__') and not t.a[2]:
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] == 'astype' and all('float' in show(x) for x in t.a[2]):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('float', 'numpy.float64', 'numpy.asarray') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def top_loops(events):
    return [e.a[1][0] for e in events if e.a[0] == 'loop']


def calls(events, q):
    """calls of q directly in these events (not inside loops)"""
    return [args(e)[0] for e in events if e.a[0] == 'fcall' and args(e)[0].a[0] == q]


def any_calls(events, q):
    return [(args(e)[0], ch) for e, ch in walk(events) if e.a[0] == 'fcall' and args(e)[0].a[0] == q]


def ctor_of(p, t):
    """arguments a local object was constructed with"""
    return p.st.heap.get((t, '__ctor__')) if t.op == 'new' else None


def made(p, lp, t, q):
    """arguments object t was made with in this iteration"""
    if t.op != 'new' or t.a[0] != q:
        return None
    for e in lp.a[1] if lp is not None else ():
        if e.a[0] == 'fcall' and args(e)[0].a[0] == q:
            return args(e)[0]
    return ctor_of(p, t)


class Read:
    """paths of MidiReader.read with the structure the rules need"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fn = ctx.p.func(R + '.read')
        self.paths = [p for p in ctx.run(R + '.read', opaque=opaque_r(ctx)) if p.kind == 'return']

    def file_of(self, p):
        """the parsed file: the result of the parser on the argument"""
        got = [args(e)[0] for e, _ in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] in (parser(self.ctx), R + '.mido_to_pretty_midi')]
        if len(got) == 1 and any(v is mk('param', self.fn.params[0]) for _, v in got[0].a[1]):
            return got[0]
        return None

    def seqs_of(self, p):
        return p.value


def origin(t, stops):
    """which of these objects t is part of, if any"""
    while isinstance(t, T):
        if t in stops:
            return t
        if t.op in ('attr', 'elem', 'item', 'idx', 'copyof', 'sorted', 'reversed', 'map', 'mcall'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'enumerate', 'set') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'fcall' and t.a[0].rpartition('.')[0] in (SEQS, SEQ, PM):
            t = fc_arg(t, 'self')
        else:
            return None
    return None


FREE = ('total_time', '_total_time', 'filename', 'resolution', 'ticks_per_quarter', 'name', 'logger', 'debug')
READ_FROM = ('instruments', 'key_signature_changes', 'time_signature_changes', 'resolution', '_tick_scales', '_PrettyMIDI__tick_to_time')


def nothing_else(ctx, rd):
    """between parsing and returning, the parsed file is only read and the result is only added to"""
    for p in rd.paths:
        md, seqs = rd.file_of(p), rd.seqs_of(p)
        bad, loc = None, rd.fn.loc()
        for e, _ in walk(p.events):
            if e.a[0] not in ('mut', 'setattr', 'delitem', 'store', 'delattr') or not isinstance(args(e)[0], T):
                continue
            t, name = args(e)[0], args(e)[1]
            if e.a[0] == 'mut' and name in ('sort', 'reverse'):
                continue
            b = None
            if t.op == 'new' and t is not seqs and t.a[0] in (NOTE, BEND, CC, TS, TEMPO, KS):
                b = 'an event is changed after it was made (%s)' % (name,)
            elif md is not None and origin(t, {md}) is md:
                if not (t is md and e.a[0] == 'setattr' and name not in READ_FROM):
                    b = 'what was parsed is changed (%s of %s)' % (name if e.a[0] != 'delitem' else 'items', short(t, 60))
            elif origin(t, {seqs}) is seqs:
                if not (e.a[0] == 'setattr' and name.split('__')[-1] in FREE and (t is seqs or t.op in ('fcall', 'item'))):
                    b = 'what was read is changed again (%s of %s)' % (name if isinstance(name, str) else 'items', short(t, 60))
            if b:
                bad, loc = bad or b, eloc(e)
        ctx.need(bad is None, 'frame', 'read: nothing else is changed', bad or '', loc)
    for q in (parser(ctx), R + '.mido_to_pretty_midi'):
        for p in ctx.run(q, opaque=(PM + '.__init__',)):
            if p.kind != 'return':
                continue
            bad = None
            for e, _ in walk(p.events):
                if e.a[0] in ('mut', 'setattr', 'delitem', 'store', 'delattr') and origin(args(e)[0], {p.value}) is p.value:
                    if not (args(e)[0] is p.value and e.a[0] == 'setattr' and args(e)[1] not in READ_FROM) and not (
                            e.a[0] == 'mut' and args(e)[1] in ('sort', 'reverse')):
                        bad = bad or 'what was parsed is changed (%s)' % (args(e)[1] if isinstance(args(e)[1], str) else 'items')
            ctx.need(bad is None, 'frame', '%s: nothing is changed' % q.split('.')[-1], bad or '', ctx.p.func(q).loc())


FRAME = 'after parsing, the parsed file is only read; the sequences made from it are only added to, and events not changed once made'


def track_ok(t, seqs, md, inst):
    """t is the track of instrument inst: made or found under the instrument's own index, program, name and drum flag"""
    if t.op != 'fcall' or t.a[0] not in (SEQS + '.get_track', SEQS + '.__getitem__') or fc_arg(t, 'self') is not seqs:
        return False
    ct = fc_arg(t, 'track_idx')
    if ct is mk('idx', attr_of(md, 'instruments'), inst.a[1]):
        return t.a[0].endswith('get_track') and same_args(t, seqs, md, inst)
    return ct.op == 'fcall' and ct.a[0] == SEQS + '.create_track' and fc_arg(ct, 'self') is seqs and \
        fc_arg(ct, 'track_idx') is mk('idx', attr_of(md, 'instruments'), inst.a[1]) and same_args(ct, seqs, md, inst)


def same_args(ct, seqs, md, inst):
    return all(strip_int(fc_arg(ct, k)) is attr_of(inst, k) for k in ('program', 'name', 'is_drum'))


def strip_int(t):
    while t is not None and t.op == 'call' and t.a[0] in ('int', 'str', 'bool') and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def same(field, v):
    """conversions that keep the value of this field: times are not whole numbers, the other fields are"""
    return strip(v) if 'time' in field or field in ('start', 'end') else strip_int(strip(v))


def attr_of(t, name):
    return mk('attr', t, name)


def fields_bad(t, want):
    """first constructor argument that is not what it should be"""
    for k, w in want.items():
        v = fc_arg(t, k)
        if v is None or same(k, v) is not w:
            return k, v
    return None


def events_rule(ctx, rid, rd, source, adder, par, cls, want_of, skip_ok, never_ok=None):
    """every element of instrument.<source> of every instrument is added exactly once to the track of that instrument"""
    n = 0
    for p in rd.paths:
        md, seqs = rd.file_of(p), rd.seqs_of(p)
        if not ctx.need(md is not None and seqs is not None and seqs.op == 'new' and seqs.a[0] == SEQS, rid, 'read: result',
                        'the result is not the sequences filled from the parsed file', rd.fn.loc()):
            continue
        all_adds = any_calls(p.events, adder)
        insts = attr_of(md, 'instruments')
        outer = [L for L in top_loops(p.events) if strip_seq(L.a[0]) is insts and all_of(L) and
                 any(any_calls(lp.a[1], adder) for lp in L.a[3])]
        if not ctx.need(len(outer) == 1, rid, 'read: instruments', 'there is no single loop over the instruments of the file that adds %s'
                        % source, rd.fn.loc()):
            continue
        L = outer[0]
        counted = 0
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            inner = [M for M in top_loops(lp.a[1]) if any(any_calls(x.a[1], adder) for x in M.a[3])]
            inst = mk('elem', insts, L.a[2])
            ok = normal(lp) and len(inner) == 1 and strip_seq(inner[0].a[0]) is attr_of(inst, source) and all_of(inner[0])
            if not ctx.need(ok, rid, 'read: %s of every instrument' % source,
                            'some instrument is left without its %s (%s)' % (source, short(' & '.join(show_lit(l) for l in lp.a[0]), 120)), rd.fn.loc()):
                continue
            M = inner[0]
            ev = mk('elem', attr_of(inst, source), M.a[2])
            for q in M.a[3]:
                if out_kind(q) == 'raise':
                    if from_reader(q):
                        ctx.need(skip_ok(ev, q.a[0]), rid, 'read: %s rejected' % source, 'an event of the file makes reading fail (%s)'
                                 % short(' & '.join(show_lit(l) for l in q.a[0]), 160), rd.fn.loc())
                    continue
                adds = any_calls(q.a[1], adder)
                counted += len(adds)
                if not adds:
                    ctx.need(normal(q) and skip_ok(ev, q.a[0]), rid, 'read: %s skipped' % source,
                             'an event is left out (%s)' % short(' & '.join(show_lit(l) for l in q.a[0]), 160), rd.fn.loc())
                    continue
                if never_ok is not None:
                    ctx.need(never_ok(ev, q.a[0]), rid, 'read: %s dropped' % source, 'a note without length is not left out, which ends the reading', rd.fn.loc())
                if not ctx.need(len(adds) == 1 and not adds[0][1] and normal(q), rid, 'read: %s once' % source,
                                'an event is added %d times or ends the loop' % len(adds), rd.fn.loc()):
                    continue
                add = adds[0][0]
                ctx.need(track_ok(fc_arg(add, 'self'), seqs, md, inst), rid, 'read: track of %s' % source,
                         'added to %s, not the track of its instrument' % short(fc_arg(add, 'self'), 200), rd.fn.loc())
                c = made(p, q, fc_arg(add, par), cls)
                if not ctx.need(c is not None, rid, 'read: new %s' % source, 'what is added is not a new event', rd.fn.loc()):
                    continue
                b = fields_bad(c, want_of(ev, inst, seqs))
                if b is None:
                    n += 1
                    ctx.ok(rid)
                else:
                    ctx.bad(rid, 'read: %s.%s' % (source, b[0]), '%s of the internal event is %s' % (b[0], short(b[1], 120) if b[1] is not None else None), rd.fn.loc())
    return n


def strip_seq(t):
    """the sequence that is walked, in its own order"""
    while True:
        if t.op == 'call' and t.a[0] in ('list', 'tuple', 'iter', 'enumerate') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'copyof':
            t = t.a[1]
        elif t.op == 'sorted':
            t = t.a[0]
        else:
            return t


def all_of(L):
    """the loop walks the elements themselves, perhaps in another order"""
    return not any(o[0] == 'set' for o in L.a[1])


def from_reader(lp):
    """the iteration ends in an error raised deliberately in library code"""
    x = lp.a[2].a[1] if len(lp.a[2].a) > 1 else None
    return isinstance(x, T) and x.op == 'exc' and x.a[0] not in ('TypeError', 'AttributeError', 'KeyError', 'IndexError')


def note_skip(ev, guards):
    """a note may only be left out when its start and end coincide"""
    s, e = attr_of(ev, 'start'), attr_of(ev, 'end')
    for a, b in ((0.0, 1e-5), (0.0, 0.001), (0.0, 0.01), (0.0, 1.0), (1.0, 1.001), (100.0, 100.01), (3.5, 4.0), (0.5, 10.0), (7000.0, 7000.01)):
        if Cases({s: a, e: b}.get).lits(guards) is not False:
            return False
    return True


def note_kept(ev, guards):
    """a note that starts and ends at one time is not kept"""
    s, e = attr_of(ev, 'start'), attr_of(ev, 'end')
    seen = False
    for a, _ in all_lits(guards):
        seen = seen or mentions(a, lambda t: t is s)
    for v in (0.0, 1.0, 3.5, 7000.0):
        r = Cases({s: v, e: v}.get).lits(guards)
        if r is True or r is None and not seen:
            return False
    return True


@prop('R01', 'Abstract interpretation of MidiReader.read: one loop over the instruments, one over the notes of each, one add to the track '
      'that belongs to that instrument per note with the constructor arguments traced to the fields of that note; the condition for '
      'leaving a note out is evaluated for notes of positive length.',
      assumptions=['the parser delivers the events of the file (P01)', 'a track is found again under its index (S07)'])
def check_r01(ctx):
    ctx.rule('note', 'each note of each instrument is added once, to the track of its instrument, with its own values')
    rd = Read(ctx)
    ctx.rule('frame', FRAME)
    nothing_else(ctx, rd)

    def want(n, inst, seqs):
        ts = mk('fcall', SEQS + '.time_signature', (('self', seqs), ('start_time', attr_of(n, 'start'))), 0)
        return {'pitch': attr_of(n, 'pitch'), 'start_time': attr_of(n, 'start'), 'end_time': attr_of(n, 'end'),
                'velocity': attr_of(n, 'velocity'), 'program': attr_of(inst, 'program'), 'is_drum': attr_of(inst, 'is_drum'),
                'instrument': attr_of(inst, 'program')}
    n = events_rule(ctx, 'note', rd, 'notes', SEQ + '.add_note', 'note', NOTE, want, note_skip, note_kept)
    # time signature
    ctx.rule('time signature', "a note's time signature is looked up at its start, after all time signatures were read")
    for p in rd.paths:
        md, seqs = rd.file_of(p), rd.seqs_of(p)
        for e, ch in walk(p.events):
            if e.a[0] != 'fcall' or args(e)[0].a[0] != NOTE:
                continue
            c = args(e)[0]
            ok = True
            for i, k in enumerate(('numerator', 'denominator')):
                v = fc_arg(c, k)
                ok = ok and v is not None and v.op == 'item' and num(v.a[1]) and v.a[1].a[0] == i and v.a[0].op == 'fcall' and \
                    v.a[0].a[0] == SEQS + '.time_signature' and fc_arg(v.a[0], 'self') is seqs and \
                    fc_arg(v.a[0], 'start_time') is fc_arg(c, 'start_time')
            ctx.need(ok, 'time signature', 'read: note', 'numerator and denominator of a note are not the time signature in force at its start', eloc(e))
        order = [('ts' if any_calls([e], SEQS + '.add_time_signatures') else 'note' if any_calls([e], SEQ + '.add_note') else None) for e in p.events]
        order = [x for x in order if x]
        ctx.need('ts' in order and 'note' in order and max(i for i, x in enumerate(order) if x == 'ts') < order.index('note'),
                 'time signature', 'read: order', 'notes are read before the time signatures', rd.fn.loc())
    f = ctx.p.func(parser(ctx))
    ctx.rule('parsed', 'the parsed file is the parser applied to the given file or its bytes')
    for p in ctx.run(f.qualname, opaque=(PM + '.__init__',)):
        if p.kind == 'return':
            c = ctor_of(p, p.value)
            a = c.a[1][0][1] if c is not None and c.a[0] == PM else None
            a = fc_arg(c, 'midi_file') if a is not None else None
            me = mk('param', f.params[0])
            raw = a is not None and a.op == 'new' and a.a[0].endswith('BytesIO') and p.st.heap.get((a, '__ctor__')) is not None and \
                p.st.heap[(a, '__ctor__')].a[1] == (me,)
            ctx.need(a is me or raw, 'parsed', 'MidiReader._read_pretty_midi', 'the result is %s' % short(p.value, 100), f.loc())
    ctx.floor('note', 2)
    ctx.floor('time signature', 4)
    ctx.floor('parsed', 1)


@prop('R02', 'Abstract interpretation of MidiReader.read: one loop over the instruments and one over the pitch bends (control changes) of '
      'each, one add per event to the track of that instrument, constructor arguments traced to the fields of that event.',
      assumptions=['the parser delivers the events of the file (P01)', 'a track is found again under its index (S07)'])
def check_r02(ctx):
    ctx.rule('bend', 'each pitch bend is added once, to the track of its instrument, with its own value, time, program and drum flag')
    ctx.rule('cc', 'each control change is added once, to the track of its instrument, with its own number, value, time, program and drum flag')
    ctx.rule('kept', 'adding an event to a track keeps it')
    rd = Read(ctx)
    ctx.rule('frame', FRAME)
    nothing_else(ctx, rd)
    never = lambda ev, guards: False
    events_rule(ctx, 'bend', rd, 'pitch_bends', SEQ + '.add_pitch_bends', 'pitch_bend', BEND, lambda b, i, s: {
        'amount': attr_of(b, 'pitch'), 'midi_time': attr_of(b, 'time'), 'program': attr_of(i, 'program'), 'is_drum': attr_of(i, 'is_drum')}, never)
    events_rule(ctx, 'cc', rd, 'control_changes', SEQ + '.add_control_changes', 'cv', CC, lambda b, i, s: {
        'cc_number': attr_of(b, 'number'), 'cc_value': attr_of(b, 'value'), 'cc_time': attr_of(b, 'time'),
        'program': attr_of(i, 'program'), 'is_drum': attr_of(i, 'is_drum')}, never)
    for m, at in (('add_pitch_bends', 'pitch_bends'), ('add_control_changes', 'control_changes')):
        f = ctx.p.func(SEQ + '.' + m)
        for p in ctx.run(f.qualname):
            muts = [e for e, _ in walk(p.events) if e.a[0] == 'mut']
            ok = p.kind == 'return' and len(muts) == 1 and appended(muts[0], attr_of(mk('param', 'self'), at), mk('param', f.params[1]))
            ctx.need(ok, 'kept', m, 'the event is not appended to %s on every path' % at, f.loc())
    ctx.floor('bend', 2)
    ctx.floor('cc', 2)


def appended(e, lst, v):
    a = e.a[1]
    if a[0] is not lst:
        return False
    if a[1] in ('append',):
        return a[2] == (v,)
    return a[1] in ('extend', '+=') and len(a[2]) == 1 and a[2][0].op in ('list', 'tuple') and a[2][0].a == (v,)


@prop('R03', 'Abstract interpretation of MidiReader.read: one loop over each list of changes of the parsed file, one add per change, '
      'constructor arguments traced to the fields of that change (key numbers evaluated for all 24 keys); error translation of time '
      'signatures is read off the raising paths.',
      assumptions=['the parser delivers the events of the file (P01)'])
def check_r03(ctx):
    ctx.rule('key', 'each key signature is added once with its time, key (0..11) and mode')
    ctx.rule('tempo', 'each tempo change is added once with its time, tempo and the resolution of the file')
    ctx.rule('time', 'each time signature is added once with its time, numerator and denominator')
    ctx.rule('error', 'a time signature that cannot be represented is reported as MidiReaderError')
    rd = Read(ctx)
    ctx.rule('frame', FRAME)
    nothing_else(ctx, rd)

    def single(p, rid, adder, cls, base_ok, check):
        loops_ = [L for L in top_loops(p.events) if any(any_calls(lp.a[1], adder) for lp in L.a[3])]
        if not ctx.need(len(loops_) == 1 and base_ok(strip_seq(loops_[0].a[0])) and all_of(loops_[0]), rid, 'read', 'there is no single loop over the changes of the file', rd.fn.loc()):
            return
        L = loops_[0]
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            adds = any_calls(lp.a[1], adder)
            if not ctx.need(normal(lp) and len(adds) == 1 and not adds[0][1] and fc_arg(adds[0][0], 'self') is rd.seqs_of(p), rid, 'read: once',
                            'a change is not added exactly once (%s)' % short(' & '.join(show_lit(l) for l in lp.a[0]), 120), rd.fn.loc()):
                continue
            c = made(p, lp, fc_arg(adds[0][0], 'v'), cls)
            msg = 'what is added is not a new signature' if c is None else check(L, c)
            ctx.need(msg is None, rid, 'read: values', msg or '', rd.fn.loc())

    for p in rd.paths:
        md = rd.file_of(p)
        if md is None:
            ctx.bad('key', 'read', 'the parsed file is not the parser applied to the argument', rd.fn.loc())
            continue

        def key_values(L, c):
            e = mk('elem', L.a[0], L.a[2])
            if strip(fc_arg(c, 'midi_time')) is not attr_of(e, 'time'):
                return 'the time is %s' % short(fc_arg(c, 'midi_time'))
            for k in range(24):
                case = Cases({attr_of(e, 'key_number'): k}.get)
                got = case.value(fc_arg(c, 'midi_key')), case.value(fc_arg(c, 'midi_mode'))
                if got != (k % 12, k // 12):
                    return 'key number %d becomes key %s mode %s' % (k, got[0], got[1])

        def time_values(L, c):
            e = mk('elem', L.a[0], L.a[2])
            b = fields_bad(c, {'midi_time': attr_of(e, 'time'), 'numerator': attr_of(e, 'numerator'), 'denominator': attr_of(e, 'denominator')})
            return None if b is None else '%s is %s' % (b[0], short(b[1]))

        def tempo_values(L, c):
            tc = next(t for t in deep(L.a[0]) if t.op == 'fcall' and t.a[0] == PM + '.get_tempo_changes')
            for k, i in (('midi_time', 0), ('qpm', 1)):
                v = strip(fc_arg(c, k))
                ok = v.op in ('elem', 'item') and tempo_source(v, L, tc, i)
                if not ok:
                    return '%s is %s' % (k, short(v))
            if strip_int(fc_arg(c, 'resolution')) is not attr_of(md, 'resolution') and \
                    strip_int(fc_arg(c, 'resolution')) is not attr_of(md, 'ticks_per_quarter'):
                return 'the resolution is %s' % short(fc_arg(c, 'resolution'))
        res = (attr_of(md, 'resolution'), attr_of(md, 'ticks_per_quarter'))
        seqs = rd.seqs_of(p)
        sets = [dargs(e)[2] for e, _ in walk(p.events) if e.a[0] == 'setattr' and e.a[1][0] is seqs and e.a[1][1] == 'resolution']
        c = made(p, None, seqs, SEQS)
        got = sets[-1] if sets else fc_arg(c, 'resolution') if c is not None else None
        ctx.need(got is not None and strip_int(got) in res, 'tempo', 'read: resolution', 'the resolution of the result is %s' % short(got or NONE), rd.fn.loc())
        single(p, 'key', SEQS + '.add_key_signatures', KS, lambda b: b is attr_of(md, 'key_signature_changes'), key_values)
        single(p, 'time', SEQS + '.add_time_signatures', TS, lambda b: b is attr_of(md, 'time_signature_changes'), time_values)
        single(p, 'tempo', SEQS + '.add_tempo_signature', TEMPO, lambda b: tempo_base(b, md), tempo_values)
    f = ctx.p.func(R + '.read_time_signature')
    for p in ctx.run(f.qualname, opaque=(SEQS + '.add_time_signatures',)):
        if p.kind == 'raise':
            ctx.need(p.value.a[0] != 'ValueError', 'error', 'MidiReader.read_time_signature', 'a bare ValueError escapes', f.loc())
            if p.value.a[0] == 'MidiReaderError':
                ctx.ok('error')
    ctx.need(any(p.kind == 'raise' and p.value.a[0] == 'MidiReaderError' for p in ctx.run(f.qualname, opaque=(SEQS + '.add_time_signatures',))),
             'error', 'MidiReader.read_time_signature', 'no MidiReaderError is raised', f.loc())
    for rid in ('key', 'tempo', 'time'):
        ctx.floor(rid, 2)


def tempo_base(b, md):
    tc = [t for t in deep(b) if t.op == 'fcall' and t.a[0] == PM + '.get_tempo_changes']
    if not tc or fc_arg(tc[0], 'self') is not md:
        return False
    tc = tc[0]
    i0, i1 = mk('item', tc, const(0)), mk('item', tc, const(1))
    if b is i0 or b is i1:
        return True
    if b.op == 'zip':
        return b.a == (i0, i1) or b.a == (i1, i0)
    if b.op == 'call' and b.a[0] == 'range':
        return len(b.a[1]) == 1 and b.a[1][0] in (mk('call', 'len', (i0,), ()), mk('call', 'len', (i1,), ()))
    return False


def tempo_source(v, L, tc, i):
    src = mk('item', tc, const(i))
    if v.op == 'elem':
        return v.a[0] is src and v.a[1] == L.a[2]
    if strip_seq(L.a[0]).op == 'item' and v.op == 'item' and v.a[1] is mk('idx', L.a[0], L.a[2]):
        return v.a[0] is src
    return v.a[0] is src and v.a[1].op in ('elem', 'idx') and v.a[1].a[1] == L.a[2]


# ---------------------------------------------------------------- writing
PMI = 'pretty_midi.pretty_midi.'
SIG = {'Note': ('velocity', 'pitch', 'start', 'end'), 'PitchBend': ('pitch', 'time'), 'ControlChange': ('number', 'value', 'time'),
       'Instrument': ('program', 'is_drum', 'name'), 'TimeSignature': ('numerator', 'denominator', 'time'),
       'KeySignature': ('key_number', 'time')}


def is_kind(isinst, who, *kinds):
    return isinst.op == 'isinst' and isinst.a[0] is who


@prop('R04', 'Case distinction over every combination of the conditions that must reject a write (kind of sequence and file name, existing '
      'file, overwrite flag, kind, sign and order of the bounds): the guards on the paths of MidiReader.write are evaluated for each.',
      assumptions=['os.path.exists (or an equivalent query) reports whether the target exists'])
def check_r04(ctx):
    ctx.rule('reject', 'a call that must be rejected raises on every path, before anything is written')
    ctx.rule('accept', 'a valid call writes the converted sequences to the given file, once')
    f = ctx.p.func(R + '.write')
    names = f.params[-5:]
    seq, fn, lo, hi, over = [mk('param', n) for n in names]
    ps = ctx.run(f.qualname, opaque=(R + '.to_pretty_midi', PM + '.write'))
    bounds = [(None, None), ('x', None), (None, 'x'), (-1.0, None), (None, -1.0), (2.0, 1.0), (-1.0, 2.0), (1.0, -2.0), (2.0, 0.0), (0.5, 0), (0.0, 0.0), (1.0, 1.0),
              (0, 3), (1.0, 2.5), (0.0, None), (None, 0.0), (5.0, None), (None, 5.0), ('x', 1.0), (1.0, 'x'), (-2.0, -1.0), (-1.0, -2.0)]
    n = 0
    bad = {}
    for is_seq, empty, is_str, blank, exists, ow in itertools.product(*[(True, False)] * 5, (True, False, None, 0)):
        for a, b in bounds:
            def bound_leaf(t, who, v):
                if t is mk('isnone', who):
                    return v is None
                if t.op == 'isinst' and t.a[0] is who:
                    kinds = [KINDS.get(c.a[0].split('.')[-1]) if c.op == 'ext' else None for c in t.a[1]]
                    if None not in kinds:
                        return isinstance(v, tuple(kinds))
                    return v is not None and v != 'x'
                if t is mk('truthy', who):
                    return bool(v) if v != 'x' else True
                if t is who and v is not None and v != 'x':
                    return v
                return None

            def leaf(t):
                for who, v in ((lo, a), (hi, b)):
                    r = bound_leaf(t, who, v)
                    if r is not None:
                        return r
                if t.op == 'isinst' and t.a[0] is seq:
                    return is_seq
                if t.op == 'isinst' and t.a[0] is fn:
                    return is_str
                if t.op == 'isnone' and t.a[0] in (seq, fn):
                    return False
                if t is mk('truthy', over):
                    return bool(ow)
                if t is mk('isnone', over):
                    return ow is None
                if t.op in ('eq', 'is') and over in t.a and any(x.op == 'const' for x in t.a):
                    c = next(x.a[0] for x in t.a if x.op == 'const')
                    return ow is c
                if t.op == 'isinst' and t.a[0] is over:
                    return None
                if t is over:
                    return ow
                if t is mk('truthy', seq) or t.op == 'mres' and t.a[0] is seq:
                    return not empty
                if t.op in ('truthy', 'isnone') and t.a[0].op == 'attr' and t.a[0].a[0] is seq:
                    return (t.op == 'isnone') == empty
                if t is mk('truthy', fn):
                    return not blank
                if t.op == 'truthy' and existence(t.a[0], fn):
                    return exists
                if t.op == 'eq' and fn in t.a and any(x.op == 'const' and x.a[0] == '' for x in t.a):
                    return blank
                if t.op == 'call' and t.a[0] == 'len' and t.a[1] == (fn,):
                    return 0 if blank else 5
                if t.op == 'call' and t.a[0] == 'len' and t.a[1] == (seq,):
                    return 0 if empty else 1
                return None
            if empty and not is_seq or blank and not is_str:
                continue
            must = not is_seq or not is_str or blank or exists and not ow or a == 'x' or b == 'x' or \
                isinstance(a, (int, float)) and a < 0 or isinstance(b, (int, float)) and b < 0 or \
                isinstance(a, (int, float)) and isinstance(b, (int, float)) and a > b
            may = must or empty
            case = Cases(leaf)
            what = 'sequence %s, file name %s, target %s, overwrite %s, from %s to %s' % (
                ('empty' if empty else 'valid') if is_seq else 'of another type', ('empty' if blank else 'valid') if is_str else 'of another type',
                'exists' if exists else 'is new', ow, a, b)
            got = [p for p in ps if case.lits(p.guards) is not False]
            n += 1
            for p in got:
                writes = [(e, ch) for e, ch in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == PM + '.write' or
                          e.a[0] == 'mut' and e.a[1][1] in ('write', 'unlink', 'save')]
                if must and p.kind == 'return':
                    bad.setdefault('reject', 'not rejected: ' + what)
                if p.kind == 'raise' and (writes or [e for e, _ in walk(p.events) if e.a[0] == 'call' and opens(e.a[1][0], fn)]):
                    bad.setdefault('reject', 'the file is written before the call is rejected: ' + what)
                if not may and p.kind == 'raise':
                    bad.setdefault('accept', 'rejected: ' + what)
                if not may and p.kind == 'return' and not one_write(p, seq, fn, lo, hi, [w for w, _ in writes]):
                    bad.setdefault('accept', 'the converted sequences are not written once to the given file: ' + what)
            if not got:
                bad.setdefault('accept', 'no outcome for: ' + what)
    ctx.need('reject' not in bad, 'reject', 'MidiReader.write', bad.get('reject', ''), f.loc())
    ctx.need('accept' not in bad, 'accept', 'MidiReader.write', bad.get('accept', ''), f.loc())
    ctx.notes.append('%d combinations' % n)


def existence(t, fn):
    return mentions(t, lambda x: x is fn) and t.op in ('call', 'res', 'mcall', 'mres') and \
        any(k in show(t) for k in ('exists', 'isfile', 'lexists', 'is_file'))


def opens(t, fn):
    """a call that may change the target: given its name, and not a query"""
    return mentions(t, lambda x: x is fn) and t.op in ('call', 'res') and not existence(t, fn) and \
        not any(k in t.a[0] for k in ('path.', 'logging', 'print', 'warn')) if isinstance(t.a[0], str) else False


def one_write(p, seq, fn, lo, hi, writes):
    if len(writes) != 1:
        return False
    if writes[0].a[0] == 'fcall':
        t = args(writes[0])[0]
        src = fc_arg(t, 'self')
        vals = [v for k, v in t.a[1] if k != 'self']
    else:
        src, name, vals, kw = dargs(writes[0])[:4]
        if name not in ('write', 'save'):
            return False
        vals = list(vals) + [v for _, v in kw]
    return fn in vals and src.op == 'fcall' and src.a[0] == R + '.to_pretty_midi' and fc_arg(src, 'sequence') is seq and \
        fc_arg(src, 'from_start') is lo and fc_arg(src, 'to_end') is hi


MODS = {'MidiNote': 'midi.midi_note', 'MidiPitchBend': 'midi.midi_pitch_bend', 'MidiControlChange': 'midi.midi_control_change',
        'MidiTempoSignature': 'midi.midi_time_signature', 'MidiTimeSignature': 'midi.midi_time_signature',
        'MidiKeySignature': 'midi.midi_key_signature'}


def reads(ctx, cls, names):
    """what the public attributes of an object of the class read, as functions of the object"""
    got = [p for p in ctx.drive(MODS[cls], 'def read(x: %s):\n    return (%s,)' % (cls, ', '.join('x.' + n for n in names)))
           if p.kind == 'return']
    if len(got) != 1 or got[0].dvalue.op != 'tuple' or len(got[0].dvalue.a) != len(names):
        raise Unproved('the attributes %s of %s are not plain values' % (', '.join(names), cls))
    x = mk('param', 'x')
    return lambda el: {n: (subst(v, {x: el}), attr_of(el, n)) for n, v in zip(names, got[0].dvalue.a)}


def made_here(events):
    """library objects made in these events (not in loops), with their constructor calls"""
    return {e.a[1][0]: e.a[1][1] for e in events if e.a[0] == 'extnew'}


def ext_args(made, t, kind_):
    """arguments of a pretty_midi object by name"""
    c = made.get(t) if isinstance(t, T) and t.op == 'new' else t if isinstance(t, T) and t.op == 'call' else None
    if c is None or c.op != 'call' or c.a[0].split('.')[-1] != kind_:
        return None
    d = dict(zip(SIG[kind_], c.a[1]))
    d.update(dict(c.a[2]))
    return d


def rooted(t, roots):
    """the object is one of these, or is reached from one of them"""
    while isinstance(t, T):
        if t in roots:
            return True
        if t.op not in ('attr', 'elem', 'item', 'idx'):
            return False
        t = t.a[0]
    return False


def left_alone(ctx, p, insts, made, loc):
    """what was put into the instruments is not taken out or changed again"""
    bad = None
    kinds = [(e.a[1][0], e.a[1][1].a[0]) for e, _ in walk(p.events) if e.a[0] == 'extnew' and e.a[1][1].op == 'call']
    exts = {c for _, c in kinds if c.split('.')[-1] in SIG}
    events = {n for n, c in kinds if c in exts and not c.endswith('.Instrument')}
    lists = {e.a[1][2] for e, _ in walk(p.events) if e.a[0] == 'setattr' and e.a[1][0] in made and isinstance(e.a[1][2], T) and e.a[1][2].op == 'new'}
    for e, _ in walk(p.events):
        if e.a[0] not in ('mut', 'setattr', 'delitem', 'store', 'delattr') or not isinstance(e.a[1][0], T):
            continue
        t, name = e.a[1][0], e.a[1][1]
        if e.a[0] == 'setattr' and t is insts.a[0] and name == insts.a[1]:
            bad = bad or 'the list of instruments is replaced'
        elif t is insts:
            if e.a[0] != 'mut' or name not in ('append', 'sort', 'reverse'):
                bad = bad or 'the list of instruments is changed by %s' % (name if e.a[0] == 'mut' else e.a[0])
        elif t in made:
            if e.a[0] != 'setattr' or name not in ('notes', 'pitch_bends', 'control_changes', 'name'):
                bad = bad or 'an instrument is changed by %s' % (name,)
        elif (t.op == 'call' and t.a[0] in exts or t in events or t not in lists and rooted(t, lists)) and e.a[0] == 'setattr':
            bad = bad or 'what is written is changed after it was made (%s)' % (name,)
        elif rooted(t, {insts}) or rooted(t, made) and t.op != 'attr':
            if not (e.a[0] == 'setattr' and name == 'name') and not (e.a[0] == 'mut' and name == 'sort'):
                bad = bad or 'an instrument that was made is changed by %s' % (name,)
    ctx.need(bad is None, 'tracks', 'to_pretty_midi: instruments stay as they were made', bad or '', loc)


def listed(events, inst, name):
    """what is put into list inst.name in these events: (walked list, guards, element) per source, or None"""
    out = []
    at = mk('attr', inst, name)
    names = {at}          # what the list is reached by: the attribute, and the object that was put there
    for e in events:
        if e.a[0] == 'setattr' and e.a[1][0] is inst and e.a[1][1] == name:
            v = dargs(e)[2]
            names = {at} | ({e.a[1][2]} if e.a[1][2].op == 'new' else set())
            if v.op == 'list' and not v.a:
                out = []
                continue
            if v.op == 'content':
                # a list made of others one after the other; the list it replaces keeps what was put into it before
                more = []
                for q in v.a[1]:
                    x = list(out) if len(q) == 2 and q[1] is at else as_parts(q[1]) if q[0] in ('extend', 'copy') else None
                    if x is None:
                        return None
                    more += x
                out = more
                continue
            out = as_parts(v)
            if out is None:
                return None
        elif e.a[0] in ('delitem', 'store') and e.a[1][0] in names:
            return None
        elif e.a[0] == 'mut' and e.a[1][0] in names:
            if e.a[1][1] in ('sort', 'reverse'):
                continue
            if e.a[1][1] in ('extend', '+=') and len(e.a[1][2]) == 1:
                more = as_parts(dargs(e)[2][0] if len(dargs(e)) > 2 else e.a[1][2][0])
                if more is None:
                    return None
                out += more
            else:
                return None
        elif e.a[0] == 'loop':
            L = e.a[1][0]
            alts = []
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                if any(x.a[0] in ('delitem', 'store', 'setattr') and rooted(x.a[1][0], names) for x, _ in walk(lp.a[1])):
                    return None
                ms = [x for x in lp.a[1] if x.a[0] == 'mut' and x.a[1][0] in names]
                if len(ms) > 1 or ms and (ms[0].a[1][1] != 'append' or not normal(lp)):
                    return None
                v = dargs(ms[0])[2][0] if ms else None
                alts.append((frozenset(conj(lp.a[0])), made_here(lp.a[1]).get(v, v), normal(lp)))
            if any(v is not None for _, v, _n in alts):
                if not all(n for _, _v, n in alts):
                    return None
                out.append((L.a[0], L.a[2], [(g, v) for g, v, _n in alts]))
    return out


def as_parts(v):
    if v.op == 'map' and all(o[0] in ('sorted', 'reversed') for o in v.a[1] or ()):
        return [(v.a[0], v.a[3], [(frozenset(g), x) for g, x in v.a[2]])]
    if v.op == 'call' and v.a[0] in ('list', 'tuple') and len(v.a[1]) == 1:
        return as_parts(v.a[1][0])
    if v.op == 'copyof':
        return as_parts(v.a[1])
    return None


def written(ctx, rid, what, parts, want_src, kind_, want, in_range, loc):
    """parts: one source, want_src, whose elements each become one object of the given kind unless in_range allows leaving out"""
    if parts is None or len(parts) != 1 or parts[0][0] is not want_src:
        return ctx.bad(rid, what, 'the list written is not one object per event of %s' % short(want_src, 80), loc)
    base, lid, alts = parts[0]
    el = mk('elem', base, lid)
    bad = None
    keep = [(g, v) for g, v in alts if v is not None]
    for case, must in in_range(el):
        if must and not any_case(case, keep):
            bad = bad or 'an event in the written range may be left out'
        if must is False and any(case.lits(g) is not False for g, _ in keep):
            bad = bad or 'an event after the requested end may be written'
    for g, v in alts:
        if v is None:
            continue
        d = ext_args({}, v, kind_)
        if d is None:
            bad = bad or 'what is written is not a %s' % kind_
            continue
        for k, w in want(el).items():
            x = d.get(k)
            if x is None or same(k, x) not in w:
                bad = bad or '%s is %s' % (k, short(x, 80) if x is not None else 'missing')
    ctx.need(bad is None, rid, what, bad or '', loc)


def any_case(case, keep):
    """for every possible way the unknown conditions turn out, some alternative is taken: the surviving conditions are exhaustive"""
    left = []
    for g, _ in keep:
        r = case.lits(g)
        if r is False:
            continue
        left.append(frozenset((a, p) for a, p in g if case.atom(a) is None))
    return exhaustive(left)


def accessors(ctx):
    def named(cls, **names):
        r = reads(ctx, cls, list(names.values()))
        return lambda el: {k: r(el)[n] for k, n in names.items()}
    return (named('MidiNote', velocity='velocity', pitch='pitch', start='start_time', end='end_time'),
            named('MidiPitchBend', pitch='amount', time='midi_time'),
            named('MidiControlChange', number='cc_number', value='cc_value', time='cc_time'),
            named('MidiTimeSignature', numerator='numerator', denominator='denominator', time='midi_time'),
            named('MidiKeySignature', time='midi_time'))


def time_cases(hi, want):
    """(case, must be written) for the upper bound absent, above, equal to and below the time of the event"""
    def gen(el):
        at = want(el)['time'] if want else None
        for b, t, must in ((None, 3.0, True), (5.0, 3.0, True), (3.0, 3.0, True), (2.0, 3.0, False), (0.0, 3.0, False), (0.0, 0.0, True),
                           (3.0, 3.0 + 2.0 ** -20, False), (3.0 + 2.0 ** -20, 3.0, True), (1.0, 1.0 + 2.0 ** -9, False)):
            def leaf(x, b=b, t=t):
                if x is mk('isnone', hi):
                    return b is None
                if x is hi:
                    return b
                if at and x in at:
                    return t
                if x is mk('truthy', hi):
                    return bool(b)
                return None
            # a note that starts early enough is cut by adjusting times, so its end says nothing here
            yield Cases(leaf), must or (False if want else None)
    return gen


OPAQUE_W = tuple([PM + '.' + m for m in ('__init__', 'adjust_times', 'time_to_tick', 'update_scale', '_update_tick_to_time', 'get_end_time', 'write')] +
                 [SEQS + '.__getitem__', SEQS + '.initial_tempo'])


@prop('R05', 'Abstract interpretation of MidiReader.to_pretty_midi and of the single-track writer: for every list written, which internal '
      'list it is made from, under which condition an event is left out (evaluated against the upper bound), and each field traced to the '
      'field of that event.',
      assumptions=['pretty_midi objects store their constructor arguments', 'sequences hold their events (S01-S08)'])
def check_r05(ctx):
    ctx.rule('notes', 'every note of a track is written once with its own velocity, pitch, start and end')
    ctx.rule('events', 'every pitch bend and control change within the written range is written once with its own values and time')
    ctx.rule('tracks', 'every track is written once as an instrument with its own program and drum flag')
    ctx.rule('signatures', 'every time signature, key signature and later tempo change within the range is written with its own values')
    f = ctx.p.func(R + '.to_pretty_midi')
    seq, hi = mk('param', f.params[0]), mk('param', f.params[2])
    ps = [p for p in ctx.run(f.qualname, opaque=OPAQUE_W) if p.kind == 'return']
    note, bend, cc, tsig, ksig = accessors(ctx)
    m = 'midi.midi_sequences'
    bases = {}
    for src, body in (('keys', 'for k in x: seen(k)'), ('items', 'for k in x.items(): seen(k)'), ('values', 'for k in x.values(): seen(k)')):
        for p in ctx.drive(m, 'def walk(x: MidiNoteSequences):\n    ' + body):
            for L in top_loops(p.events):
                bases[subst(L.a[0], {mk('param', 'x'): seq})] = src
    notes_of = [(p.guards, p.dvalue) for p in ctx.drive('midi.midi_sequence', 'def read(x: MidiNoteSequence):\n    return x.notes', setup=has_instrument)
                if p.kind == 'return']
    for p in ps:
        pm, loc = p.value, f.loc()
        if pm.op != 'new' or pm.a[0] != PM:
            ctx.bad('tracks', 'to_pretty_midi', 'the result is %s' % short(pm, 80), loc)
            continue
        # tracks
        insts = mk('attr', pm, 'instruments')
        loops_ = [L for L in top_loops(p.events) if any(x.a[0] == 'mut' and x.a[1][0] is insts for lp in L.a[3] for x, _ in walk(lp.a[1]))]
        if not loops_ and any(a.op == 'isnone' and v and a.a[0] in bases for a, v in p.guards.items()):
            pass            # no track was ever added
        elif ctx.need(len(loops_) == 1 and track_base(loops_[0].a[0], bases, p, seq), 'tracks', 'to_pretty_midi: all tracks',
                    'the instruments are not made in one loop over all tracks', loc):
            L = loops_[0]
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                adds = [e for e in lp.a[1] if e.a[0] == 'mut' and e.a[1][0] is insts]
                if not ctx.need(normal(lp) and len(adds) == 1 and adds[0].a[1][1] == 'append', 'tracks', 'to_pretty_midi: each track',
                                'a track is not written exactly once (%s)' % short(' & '.join(show_lit(l) for l in lp.a[0]), 120), loc):
                    continue
                inst = adds[0].a[1][2][0]
                d = ext_args(made_here(lp.a[1]), inst, 'Instrument')
                tr = None
                if d is not None:
                    tr = track_of(d.get('program'))
                    b = None
                    if tr is None or not mentions(tr, lambda x: x.op in ('elem', 'idx') and x.a[0] is L.a[0]):
                        b = 'the program is %s' % short(d.get('program'), 80)
                    elif strip_int(d.get('is_drum', NONE)) is not attr_of(attr_of(tr, 'instrument'), 'is_drum'):
                        b = 'the drum flag is not that of the track'
                    ctx.need(b is None, 'tracks', 'to_pretty_midi: instrument', b or '', loc)
                else:
                    ctx.bad('tracks', 'to_pretty_midi: instrument', 'what is added is not an Instrument', loc)
                if tr is None:
                    continue
                parts = listed(lp.a[1], inst, 'notes')
                px = {mk('param', 'x'): tr}
                for drum in (True, False):
                    def kind_of(t):
                        if t is mk('truthy', attr_of(attr_of(tr, 'instrument'), 'is_drum')) or t is attr_of(attr_of(tr, 'instrument'), 'is_drum'):
                            return drum
                        return False if t is mk('isnone', attr_of(tr, 'instrument')) else None
                    case = Cases(kind_of)
                    if case.lits(lp.a[0]) is False:
                        continue
                    want = [subst(v, px) for gs, v in notes_of if all(case.atom(subst(x, px)) in (q, None) for x, q in gs.items())]
                    if ctx.need(len(want) == 1, 'notes', 'to_pretty_midi: which notes', 'the notes of a track are not one list', loc):
                        written(ctx, 'notes', 'to_pretty_midi: notes', parts, want[0], 'Note', note, time_cases(hi, None), loc)
                written(ctx, 'events', 'to_pretty_midi: pitch bends', listed(lp.a[1], inst, 'pitch_bends'), attr_of(tr, 'pitch_bends'), 'PitchBend',
                        bend, time_cases(hi, bend), loc)
                written(ctx, 'events', 'to_pretty_midi: control changes', listed(lp.a[1], inst, 'control_changes'),
                        attr_of(tr, 'control_changes'), 'ControlChange', cc, time_cases(hi, cc), loc)
        made = {x for x in (e.a[1][2][0] for e, _ in walk(p.events) if e.a[0] == 'mut' and e.a[1][0] is insts and e.a[1][1] == 'append' and e.a[1][2])
                if isinstance(x, T)}
        left_alone(ctx, p, insts, made, loc)
        # signatures
        parts = listed(p.events, pm, 'time_signature_changes')
        written(ctx, 'signatures', 'to_pretty_midi: time signatures', parts, attr_of(seq, 'time_signatures'), 'TimeSignature', tsig,
                time_cases(hi, tsig), loc)
        parts = listed(p.events, pm, 'key_signature_changes')
        written(ctx, 'signatures', 'to_pretty_midi: key signatures', parts, attr_of(seq, 'key_signatures'), 'KeySignature', ksig,
                time_cases(hi, ksig), loc)
        if parts and len(parts) == 1:
            base, lid, alts = parts[0]
            el = mk('elem', base, lid)
            bad = None
            for k in range(12):
                for minor in (False, True):
                    def leaf(t):
                        if t.op == 'eq' and attr_of(el, 'mode') in t.a:
                            o = t.a[0] if t.a[1] is attr_of(el, 'mode') else t.a[1]
                            return o.op == 'enum' and (o.a[-1] == 'MINOR') == minor
                        if t is attr_of(el, 'midi_key'):
                            return k
                        return True if t is mk('isnone', hi) else None
                    case = Cases(leaf)
                    for g, v in alts:
                        if v is not None and case.lits(g) is not False:
                            r = case.value((ext_args({}, v, 'KeySignature') or {}).get('key_number', NONE))
                            if r != k + (12 if minor else 0):
                                bad = bad or 'key %d, %s is written as %s' % (k, 'minor' if minor else 'major', r)
            ctx.need(bad is None, 'signatures', 'to_pretty_midi: key number', bad or '', loc)
        tempo_rule(ctx, p, pm, seq, hi, loc)
    single_track(ctx)
    for rid, n in (('notes', 2), ('events', 4), ('tracks', 4), ('signatures', 8)):
        ctx.floor(rid, n)


def track_base(b, bases, p, seq):
    if strip_seq(b) in bases:
        return True
    # the lazily created, still empty table
    return strip_seq(b).op == 'new' and any(a.op == 'isnone' and v and mk('attr', seq, a.a[0].a[1]) is a.a[0] for a, v in p.guards.items() if a.a[0].op == 'attr')


def track_of(t):
    """T of T.instrument.instrument_num"""
    t = strip_int(t) if t is not None else None
    if t is not None and t.op == 'attr' and t.a[1] == 'instrument_num' and t.a[0].op == 'attr' and t.a[0].a[1] == 'instrument':
        return t.a[0].a[0]
    return None


def tempo_rule(ctx, p, pm, seq, hi, loc):
    q = PM + '.update_scale'
    c = ctor_of(p, pm)
    ini = fc_arg(c, 'initial_tempo')
    ctx.need(ini is not None and ini.op == 'fcall' and ini.a[0] == SEQS + '.initial_tempo' and fc_arg(ini, 'self') is seq, 'signatures',
             'to_pretty_midi: initial tempo', 'the initial tempo written is %s' % short(ini, 80), loc)
    res = attr_of(seq, 'resolution')
    r = fc_arg(c, 'resolution')
    ctx.need(r is res or p.guards.get(mk('truthy', res)) is False or p.guards.get(mk('isnone', res)) is True, 'signatures', 'to_pretty_midi: resolution',
             'the resolution written is %s' % short(r, 80), loc)
    loops_ = [L for L in top_loops(p.events) if any(any_calls(lp.a[1], q) for lp in L.a[3])]
    if not ctx.need(len(loops_) == 1 and strip_seq(loops_[0].a[0]) is attr_of(seq, 'tempo_signatures') and loops_[0].a[1] and
                    by_time(loops_[0].a[1]), 'signatures', 'to_pretty_midi: tempo changes',
                    'tempo changes are not written in one loop over them in order of time', loc):
        return
    L = loops_[0]
    el = mk('elem', L.a[0], L.a[2])
    tv_ = reads(ctx, 'MidiTempoSignature', ['midi_time', 'qpm'])(el)
    t, qpm = tv_['midi_time'], tv_['qpm']
    bad = None
    keep = []
    table = PM + '._update_tick_to_time'
    direct = fills_table(ctx, q, table)
    for lp in L.a[3]:
        if out_kind(lp) == 'raise':
            continue
        ups = [a for a, ch in any_calls(lp.a[1], q)]
        if len(ups) > 1 or not normal(lp):
            bad = bad or 'a tempo change is written %d times or ends the loop' % len(ups)
        if not ups:
            continue
        keep.append((frozenset(conj(lp.a[0])), True))
        order = [a.a[0] for a, ch in any_calls(lp.a[1], q) + any_calls(lp.a[1], table) if fc_arg(a, 'self') is pm]
        seq_ = [args(e)[0].a[0] for e, _ in walk(lp.a[1]) if e.a[0] == 'fcall' and args(e)[0].a[0] in (q, table) and fc_arg(args(e)[0], 'self') is pm]
        if not direct and (table not in order or seq_[-1:] != [table]):
            bad = bad or 'after a tempo change the times of the ticks are not computed again, so later changes land at the wrong tick'
        vals = [v for k, v in ups[0].a[1] if k != 'self']
        v = vals[0] if vals else NONE
        if fc_arg(ups[0], 'self') is not pm or v.op != 'tuple' or len(v.a) != 2:
            bad = bad or 'the scale set is %s' % short(v, 80)
            continue
        tick, scale = v.a
        tick = strip_int(tick)
        if tick.op != 'fcall' or tick.a[0] != PM + '.time_to_tick' or [x in t for k, x in tick.a[1] if k != 'self'] != [True]:
            bad = bad or 'the tick of a tempo change is %s' % short(tick, 80)
        for rr, qq in ((220, 120.0), (480, 90.0), (96, 61.5)):
            def leaf(x):
                if x in qpm:
                    return qq
                if x.op == 'attr' and x.a[1] == 'resolution' or x is fc_arg(c, 'resolution'):
                    return rr
                return None
            got = Cases(leaf).value(scale)
            if got is None or abs(got - 60.0 / (rr * qq)) > 1e-12:
                bad = bad or 'tempo %s at resolution %s is written as %s seconds per tick' % (qq, rr, got)
    for b, tv, must in ((None, 3.0, True), (5.0, 3.0, True), (3.0, 3.0, True), (None, 0.01, True), (0.5, 0.01, True), (2.0, 3.0, False), (None, 0.0, False)):
        def leaf(x):
            if x is mk('isnone', hi):
                return b is None
            if x is hi:
                return b
            return tv if x in t else None
        if must and not any_case(Cases(leaf), keep):
            bad = bad or 'a tempo change within the written range may be left out (at %s, range up to %s)' % (tv, b)
    ctx.need(bad is None, 'signatures', 'to_pretty_midi: tempo change', bad or '', loc)


def fills_table(ctx, q, table):
    """every path of the method q computes the table of tick times again"""
    ps = [p for p in ctx.run(q, opaque=(table,)) if p.kind == 'return']
    return bool(ps) and all(any_calls(p.events, table) for p in ps)


def by_time(order):
    """the loop runs in order of increasing time"""
    if len(order) != 1 or order[0][0] != 'sorted' or order[0][2] not in (False, const(False)):
        return False
    got = [Cases(lambda t: v if t.op == 'attr' and t.a[0].op == 'arg' and t.a[1] == 'midi_time' else None).value(order[0][1]) for v in (0.0, 0.5, 1.0, 7.25)]
    return None not in got and all(a < b for a, b in zip(got, got[1:]))


def single_track(ctx):
    f = ctx.p.func(PKG + 'midi.callbacks.save_midi_callback')
    notes = mk('param', 'notes')
    ins = mk('param', 'instrument')
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            continue
        made, loc = made_here(p.events), f.loc()
        writes = [e for e, _ in walk(p.events) if e.a[0] == 'mut' and e.a[1][1] == 'write']
        ok = len(writes) == 1 and writes[0].a[1][2][:1] == (mk('param', 'file_path'),)
        if not ctx.need(ok, 'tracks', 'save_midi_callback: file', 'the file is not written once', loc):
            continue
        pm = writes[0].a[1][0]
        c = made.get(pm)
        kw = dict(c.a[2]) if c is not None else {}
        ctx.need(strip(kw.get('initial_tempo', NONE)) is mk('param', 'tempo') and strip_int(kw.get('resolution', NONE)) is mk('param', 'resolution'),
                 'signatures', 'save_midi_callback: tempo', 'tempo or resolution of the file are not those given', loc)
        adds = [e.a[1][2][0] for e, _ in walk(p.events) if e.a[0] == 'mut' and e.a[1][0] is mk('attr', pm, 'instruments') and e.a[1][1] == 'append']
        found = 0
        for i in adds:
            d = ext_args(made, i, 'Instrument')
            if d is None:
                continue
            parts = listed(p.events, i, 'notes')
            if not parts:
                continue
            found += 1
            ctx.need(d.get('program') is attr_of(ins, 'instrument_num') and d.get('is_drum') is attr_of(ins, 'is_drum'), 'tracks',
                     'save_midi_callback: instrument', 'program or drum flag are not those of the instrument', loc)
            written(ctx, 'notes', 'save_midi_callback: notes', parts, notes, 'Note', accessors(ctx)[0], time_cases(NONE, None), loc)
        ctx.need(found == 1, 'tracks', 'save_midi_callback: one track', 'the notes are written to %d instruments' % found, loc)


# ------------------------------------------------------------------ R06
@prop('R06', 'Every path of MidiReader.read is followed with its three kinds of source: the parser gets the path, the bytes wrapped in a stream or a temporary file the mido file was '
      'saved to, and no other source reaches the end; every iteration that adds a note leaves a total time not below the end of the note.',
      assumptions=['a temporary file can be read back under its name', 'the parser raises on what it cannot parse (P01)'])
def check_r06(ctx):
    ctx.rule('source', 'the file parsed is the one that was given')
    ctx.rule('error', 'an error while parsing is not turned into a result')
    ctx.rule('other', 'other kinds of source are refused')
    ctx.rule('total', 'the total time covers every note')
    ctx.rule('name', 'the result knows its source')
    f = ctx.p.func(R + '.read')
    src = mk('param', f.params[0])
    opaque = tuple(x for x in OPAQUE if not x.endswith('.mido_to_pretty_midi')) + (PM + '.__init__',) + tuple(
        R + '.' + m for m in ('read_key_signature', 'read_tempo_changes', 'read_time_signature', 'read_instrument', 'read_instrument_pitch_bends', 'read_instrument_control_changes'))
    KINDS = ('builtins.str', 'builtins.bytes', 'mido.MidiFile', 'mido.midifiles.MidiFile', 'mido.midifiles.midifiles.MidiFile', 'pathlib.Path', 'os.PathLike')

    def named(a, k):
        return a.op == 'isinst' and a.a[0] is src and k in show(a)
    seen = set()
    for p in ctx.run(f.qualname, opaque=opaque):
        if p.kind != 'return':
            continue
        made = [args(e)[0] for e, ch in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == PM and not ch]
        if not ctx.need(len(made) == 1, 'source', 'read: parse', 'the source is parsed %d times' % len(made), f.loc()):
            continue
        a = fc_arg(made[0], 'midi_file')
        ctx.need(not any(x.op == 'exc' for x, _ in all_lits(p.guards)), 'error', 'read: error', 'an error while parsing is passed over', f.loc())
        is_bytes = holds(p.guards, lambda x, q: named(x, 'builtins.bytes') and q and 'builtins.str' not in show(x))
        is_mido = holds(p.guards, lambda x, q: named(x, 'mido') and q)
        is_any = holds(p.guards, lambda x, q: q and x.op == 'isinst' and x.a[0] is src)
        ctx.need(is_any, 'other', 'read: kind', 'a source of any kind is accepted', f.loc())
        if a is src:
            ctx.need(not is_bytes and not is_mido, 'source', 'read: kind', 'bytes are taken for the name of a file', f.loc())
            seen.add('path')
        elif a is not None and a.op == 'new' and a.a[0].endswith('BytesIO'):
            c = p.st.heap.get((a, '__ctor__'))
            ctx.need(c is not None and c.a[1] == (src,) and is_bytes, 'source', 'read: bytes', 'the stream parsed is made of %s' % (short(c, 80) if c is not None else 'something else'), f.loc())
            seen.add('bytes')
        else:
            evs = list(walk(p.events))
            at = next(i for i, (e, ch) in enumerate(evs) if e.a[0] == 'fcall' and args(e)[0] is made[0])
            saved = [dargs(e)[2] for e, ch in evs[:at] if e.a[0] == 'mut' and args(e)[0] is src and args(e)[1] == 'save' and not ch]
            ok = is_mido and len(saved) == 1 and a is not None and (a in subterms_of(saved[0]))
            ctx.need(ok, 'source', 'read: mido', 'the file parsed is %s' % (short(a, 80) if a is not None else 'none'), f.loc())
            seen.add('mido')
        v = p.st.heap.get((p.value, 'filename'))
        ctx.need(p.value.op == 'new' and p.value.a[0] == SEQS, 'source', 'read: result', 'the result is %s' % short(p.dvalue, 80), f.loc())
        names = [dargs(e)[2] for e, ch in walk(p.events) if e.a[0] == 'setattr' and args(e)[1] == 'filename' and args(e)[0] is p.value]
        c = ctor_of(p, p.value)
        nm = names[-1] if names else fc_arg(c, 'filename') if c is not None else None
        ctx.need(nm is src, 'name', 'read: filename', 'the file name is %s' % (short(nm, 80) if nm is not None else 'not set'), f.loc())
    for k in ('path', 'bytes', 'mido'):
        ctx.need(k in seen, 'other', 'read: %s' % k, 'a source of this kind (%s) is refused' % k, f.loc())
    # the other ways to read a file give what the reader gives
    ctx.rule('handed', 'what from_file gives is what the reader read from exactly that file, and an error is raised')
    path = mk('param', 'path')
    for use, g in (('MidiReader.from_file(path)', ctx.p.func(R + '.from_file')), ('MidiNoteSequences.from_file(path, MidiReader)', ctx.p.func(SEQS + '.from_file'))):
        n = 0
        for p in ctx.drive(R.rpartition('.')[0], 'def use(path: str):\n    return %s\n' % use, opaque=(R + '.read',)):
            if p.kind != 'return' or any(x.op == 'isinst' and not q and x.a[0].op == 'fcall' and x.a[0].a[0] == R + '.read' for x, q in all_lits(p.guards)):
                # (the reader gives sequences, never anything else)
                continue
            n += 1
            v = p.value
            ok = v.op == 'fcall' and v.a[0] == R + '.read' and fc_arg(v, f.params[0]) is path
            ctx.need(ok and not any(x.op == 'exc' and q for x, q in all_lits(p.guards)), 'handed', use, 'the result is %s' % short(p.dvalue, 90), g.loc())
        ctx.need(n > 0, 'handed', use, 'it never gives a result', g.loc())
    rd = Read(ctx)
    ctx.rule('frame', FRAME)
    nothing_else(ctx, rd)
    for p in rd.paths:
        seqs = rd.seqs_of(p)
        for e, ch in walk(p.events):
            if e.a[0] == 'setattr' and args(e)[1] == 'total_time' and args(e)[0] is seqs and not ch:
                ctx.need(mentions(dargs(e)[2], lambda t: t.op in ('mm', 'map')), 'total', 'read: total time', 'the total time is set to %s' % short(dargs(e)[2], 80), eloc(e))
        for L, lp in each_iteration(p.events):
            adds = [args(e)[0] for e in lp.a[1] if e.a[0] == 'fcall' and args(e)[0].a[0] == SEQ + '.add_note']
            sets = [dargs(e)[2] for e in lp.a[1] if e.a[0] == 'setattr' and args(e)[1] == 'total_time' and args(e)[0] is seqs]
            el = mk('elem', L.a[0], L.a[2])
            if not adds and not sets:
                continue
            end = mk('attr', el, 'end')

            def covers(v):
                v = strip(v)
                return v is end or v.op == 'mm' and v.a[0] == 'max' and any(strip(x) is end for x in v.a[1])

            def lower(a, q):
                if a.op != 'lt':
                    return False
                x, y = strip(a.a[0]), strip(a.a[1])
                cur = lambda t: 'total_time' in show(t) and mentions(t, lambda z: z is seqs)
                return q and x is end and cur(y) or not q and cur(x) and y is end
            if sets:
                ctx.need(covers(sets[-1]) and (len(sets) == 1), 'total', 'read: total time', 'the total time becomes %s' % short(sets[-1], 100), rd.fn.loc())
                v = strip(sets[-1])
                ctx.need(v is not end or holds(lp.a[0], lambda a, q: a.op == 'lt' and (strip(a.a[0]) is end and not q or strip(a.a[1]) is end and q)), 'total', 'read: total time',
                         'a note that ends earlier lowers the total time', rd.fn.loc())
            else:
                ctx.need(holds(lp.a[0], lower), 'total', 'read: total time', 'the total time does not cover a note when %s' % short(' & '.join(show_lit(l) for l in lp.a[0]), 140), rd.fn.loc())
    ctx.floor('source', 3)
    ctx.floor('total', 1)


def each_iteration(events):
    for e in events:
        if e.a[0] == 'loop':
            L = e.a[1][0]
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                yield L, lp
                yield from each_iteration(lp.a[1])


def subterms_of(t):
    out = []
    if isinstance(t, (tuple, list)):
        for x in t:
            out += subterms_of(x)
    else:
        out.append(t)
    return out
