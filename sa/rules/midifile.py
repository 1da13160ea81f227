"""The MIDI file layer, CustomPrettyMIDI: from the events of a file to notes, controllers, tempo map and back (P01-P05)."""
from . import prop
from ..cases import Cases
from ..lib import *
from ..loader import Unproved
from ..terms import T, mk, num, const
from .events import deep
from .reader import PM, ext_args, made_here, top_loops

SOUNDING, RELEASE, ZERO, END = 'note_on', 'note_off', 'note_on at velocity 0', 'end_of_track'
EVENTS = {SOUNDING: ('note_on', 64), RELEASE: ('note_off', 64), 'note_off at velocity 0': ('note_off', 0), ZERO: ('note_on', 0),
          END: ('end_of_track', None), 'control_change': ('control_change', None), 'pitchwheel': ('pitchwheel', None),
          'program_change': ('program_change', None), 'aftertouch': ('aftertouch', None), 'track_name': ('track_name', None),
          'text': ('text', None)}


def cell(t, obj):
    """key under which t is kept in the local dictionary obj"""
    if t.op == 'item' and same_obj(t.a[0], obj):
        return t.a[1]
    if t.op == 'mcall' and t.a[1] in ('get', 'setdefault') and same_obj(t.a[0], obj) and t.a[2]:
        return t.a[2][0]
    return None


def slot(t):
    """(dictionary, key) t is read from"""
    if t.op == 'item':
        return t.a[0], t.a[1]
    if t.op == 'mcall' and t.a[1] in ('get', 'setdefault') and t.a[2]:
        return t.a[0], t.a[2][0]
    return None


def unwrap(t):
    """conversions that keep a whole number"""
    while t.op == 'call' and t.a[0] in ('int', 'numpy.int32', 'numpy.int64') and len(t.a[1]) == 1 and not t.a[2]:
        t = t.a[1][0]
    return t


def made_notes(lp):
    return {e.a[1][0]: e.a[1][1] for e in lp if e.a[0] == 'extnew'}


class Track:
    """The loop over the events of one track that makes the notes."""

    def __init__(self, p, outer, olp, loop):
        self.p, self.outer, self.olp, self.L = p, outer, olp, loop
        self.E = mk('elem', loop.a[0], loop.a[2])
        self.at = lambda n: mk('attr', self.E, n)
        self.index = mk('idx', outer.a[0], outer.a[2])
        self.open, self.entry = None, None
        self.find_open()
        self.tables = [v for (o, a), v in p.st.heap.items() if o.op == 'param' and o.a[0] == 'self' and isinstance(v, T)]

    def find_open(self):
        """the table of open notes: (channel, note) -> [(tick, velocity)..]"""
        for lp in self.L.a[3]:
            for e, ch in walk(lp.a[1]):
                if e.a[0] != 'mut' or e.a[1][1] != 'append' or not dargs(e)[2]:
                    continue
                v, s = dargs(e)[2][0], slot(e.a[1][0])
                if v.op != 'tuple' or s is None or self.at('time') not in v.a or self.at('velocity') not in v.a:
                    continue
                k = s[1]
                if k.op == 'tuple' and set(k.a) == {self.at('channel'), self.at('note')}:
                    self.open, self.key = s[0], k
                    self.ci, self.ni = k.a.index(self.at('channel')), k.a.index(self.at('note'))
                    self.ti, self.vi = v.a.index(self.at('time')), v.a.index(self.at('velocity'))
                    if self.open.op == 'content':
                        self.open = mk('new', *self.open.a[0].a)

    # -- terms
    def is_open(self, t):
        return same_obj(t, self.open)

    def over_open(self, L):
        return self.is_open(L.a[0]) and all(o[0] != 'slice' for o in L.a[1])

    def over_cell(self, L):
        """key whose open notes the loop walks"""
        return cell(L.a[0], self.open)

    def entry_of(self, t):
        """t is (a part of) an entry of the open notes -> (key, position)"""
        if t.op == 'item' and num(t.a[1]) and t.a[0].op in ('elem', 'item'):
            k = cell(t.a[0].a[0], self.open)
            if k is not None and (t.a[0].op == 'elem' or num(t.a[0].a[1])):
                return k, t.a[1].a[0]
        return None

    def seconds(self, t, tick):
        """t is the time in seconds at that tick"""
        if t.op == 'item':
            return unwrap(t.a[1]) is tick and any(t.a[0] is x for x in self.tables)
        return t.op == 'fcall' and t.a[0] == PM + '.tick_to_time' and unwrap(fc_arg(t, 'tick') or NONE) is tick

    def key_term(self, k):
        """the key is that of the event, or one of the keys walked"""
        return k is self.key or (k.op == 'elem' and self.is_open(k.a[0]))

    def channel_of(self, k):
        return self.at('channel') if k is self.key else mk('item', k, const(self.ci))

    def note_of(self, k):
        return self.at('note') if k is self.key else mk('item', k, const(self.ni))

    def is_channel(self, t, k):
        t = unwrap(t)
        return t is self.at('channel') if k is self.key else t is mk('item', k, const(self.ci))

    # -- cases
    def case(self, kind_, same=True, channel=None, start=10, drum=None):
        typ, vel = EVENTS[kind_]
        mine = {'channel': 1, 'note': 60}
        walked = {self.ci: 1, self.ni: 60} if same else {self.ci: 2, self.ni: 60} if channel else {self.ci: 1, self.ni: 61}

        def leaf(t):
            if t.op == 'attr' and t.a[0] is self.E:
                if t.a[1] == 'type':
                    return typ
                if t.a[1] == 'velocity':
                    return vel
                if t.a[1] == 'time':
                    return 20
                if t.a[1] in mine and vel is not None:
                    return mine[t.a[1]]
                return None
            if t.op == 'item' and num(t.a[1]) and t.a[0].op == 'elem' and self.is_open(t.a[0].a[0]):
                return walked.get(t.a[1].a[0])
            if t.op == 'eq' and self.key in t.a and vel is not None:
                o = t.a[1] if t.a[0] is self.key else t.a[0]
                if o.op == 'elem' and self.is_open(o.a[0]):
                    return same
            en = self.entry_of(t)
            if en is not None and en[1] == self.ti:
                return start
            if t.op == 'in' and self.is_open(t.a[1]) and (t.a[0] is self.key or t.a[0].op == 'elem'):
                return True
            if t.op in ('truthy', 'isnone', 'call'):
                x = t.a[1][0] if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1 else t.a[0] if t.op != 'call' else None
                if isinstance(x, T):
                    full = self.filled(x, cs)
                    if full is not None:
                        return (1 if full else 0) if t.op == 'call' else full if t.op == 'truthy' else False
            return None
        cs = Cases(leaf)
        return cs

    def filled(self, x, cs):
        """x is the open notes of a key (there are some, all struck at one tick), or a selection of them -> not empty"""
        if cell(x, self.open) is not None:
            return True
        if x.op == 'map' and self.filled(x.a[0], cs):
            vs = [cs.lits(g) for g, _ in x.a[2]]
            return True if True in vs else False if all(v is False for v in vs) else None
        if x.op == 'call' and x.a[0] in ('list', 'tuple', 'sorted') and x.a[1]:
            return self.filled(x.a[1][0], cs)
        return None

    def possible(self, L, cs):
        return [lp for lp in L.a[3] if cs.lits(lp.a[0]) is not False and lp.a[2].a[0] != 'raise']


class Instruments:
    """The instruments by (program, channel, track) the load ends with."""

    def __init__(self, p, tr):
        self.tr, self.orders = tr, {}
        v = next((dargs(e)[2] for e in reversed(p.events) if e.a[0] == 'setattr' and e.a[1][1] == 'instruments' and
                  e.a[1][0].op == 'param'), None)
        self.map = None
        while v is not None:
            if v.op == 'call' and v.a[0] in ('list', 'tuple') and len(v.a[1]) == 1:
                v = v.a[1][0]
            elif v.op == 'mcall' and v.a[1] == 'values' and not v.a[2]:
                v = v.a[0]
            elif v.op == 'map' and not v.a[1] and len(v.a[2]) == 1:
                (g, x), = v.a[2]
                base = as_new(v.a[0])
                el = lambda t: t.op == 'elem' and as_new(t.a[0]) is base
                if g or not (el(x) or (x.op == 'item' and as_new(x.a[0]) is base and el(x.a[1]))):
                    break
                v = v.a[0]
            else:
                break
        if v is not None and as_new(v).op == 'new':
            self.map = as_new(v)
        self.programs = None
        for lp in tr.L.a[3]:
            for e, ch in walk(lp.a[1]):
                if e.a[0] == 'store' and e.a[1][1] is tr.at('channel') and e.a[1][2] is tr.at('program'):
                    self.programs = e.a[1][0]

    def current(self, t, k):
        """t is the current program of the channel of key k"""
        t = unwrap(t)
        s = slot(t)
        return s is not None and same_cell(s[0], self.programs) and self.tr.is_channel(s[1], k)

    def right_key(self, t, k):
        """the key names the current program, the channel and the track"""
        return self.names(t, k, ('track', 'channel', 'program'))

    def pending_key(self, t, k):
        return self.names(t, k, ('track', 'channel'))

    def names(self, t, k, parts):
        """a tuple of these parts, always in the same order"""
        if t.op != 'tuple' or len(t.a) != len(parts):
            return False
        order = tuple('track' if x is self.tr.index else 'channel' if self.tr.is_channel(x, k) else 'program' if self.current(x, k) else None
                      for x in t.a)
        return set(order) == set(parts) and self.orders.setdefault(parts, order) == order


def same_cell(a, b):
    return b is not None and (a is b or same_obj(a, b))


def loads(ctx):
    """-> [(path, Track, Instruments)] of the ways a file is loaded"""
    f = ctx.p.func(PM + '.from_file')
    out = []
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            continue
        for L in top_loops(p.events):
            for olp in L.a[3]:
                for I in top_loops(olp.a[1]):
                    if any(e.a[0] == 'extnew' and e.a[1][1].a[0].endswith('.Note') for e, _ in walk(sum((lp.a[1] for lp in I.a[3]), ()))):
                        tr = Track(p, L, olp, I)
                        out.append((p, tr, Instruments(p, tr)))
    return f, out


def closing(tr, cs, events, under=None, bad=None, check=None):
    """how often one open note is turned into a note by these events, in this case -> (least, most).
    under: the key the enclosing loop over the open notes is at"""
    lo = hi = 0
    for e in events:
        if e.a[0] != 'loop':
            continue
        L = e.a[1][0]
        lps = tr.possible(L, cs)
        k = tr.over_cell(L)
        if k is not None:
            if L.a[1] and any(o[0] not in ('sorted', 'reversed') for o in L.a[1]):
                bad.append('only some of the open notes are walked')
            if k is tr.key and under is False:
                continue                          # the case is about a note of another key
            got = [check(lp, k) for lp in lps]
        elif tr.over_open(L):
            el = mk('elem', L.a[0], L.a[2])
            got = [closing(tr, cs, lp.a[1], el, bad, check) for lp in lps if under in (None, False)]
            for lp in lps:
                if lp.a[2].a[0] not in ('fall', 'continue'):
                    bad.append('the walk over the open notes stops early')
        else:
            got = [closing(tr, cs, lp.a[1], under, bad, check) for lp in lps]
        if got:
            lo, hi = lo + min(g[0] for g in got), hi + max(g[1] for g in got)
    return lo, hi


def removed(tr, cs, events, other=False):
    """the open notes of the key are gone after these events -> (always, possibly)"""
    sure = may = False
    for e in events:
        k = a = None
        if e.a[0] == 'loop':
            L = e.a[1][0]
            if tr.over_open(L):
                got = [removed(tr, cs, lp.a[1], other) for lp in tr.possible(L, cs)]
                sure, may = sure or bool(got) and all(g[0] for g in got), may or any(g[1] for g in got)
            continue
        if e.a[0] == 'delitem' and tr.is_open(e.a[1][0]):
            k = e.a[1][1]
        elif e.a[0] == 'mut' and tr.is_open(e.a[1][0]) and e.a[1][1] == 'pop' and e.a[1][2]:
            k = e.a[1][2][0]
        elif e.a[0] == 'mut' and tr.is_open(e.a[1][0]) and e.a[1][1] == 'clear':
            sure = may = True
        elif e.a[0] == 'mut' and e.a[1][1] == 'clear' and cell(e.a[1][0], tr.open) is not None:
            k = cell(e.a[1][0], tr.open)
        elif e.a[0] == 'store' and tr.is_open(e.a[1][0]):
            if other and e.a[1][1] is tr.key:
                continue
            v = dargs(e)[2]
            full = tr.filled(v, cs) if v.op != 'list' else bool(v.a)
            sure, may = full is False, full is not True
            continue
        if k is None:
            continue
        if k is tr.key and not other or k.op == 'elem' and tr.is_open(k.a[0]):
            sure = may = True
        elif k is not tr.key:
            may = True
    return sure, may


def note_rules(ctx, f, tr, ins, done):
    def check(lp, k):
        made = made_here(lp.a[1])
        n = 0
        for e in lp.a[1]:
            if e.a[0] == 'loop':
                continue
            if e.a[0] != 'mut' or e.a[1][1] != 'append' or not e.a[1][2] or ext_args(made, e.a[1][2][0], 'Note') is None:
                continue
            n += 1
            a, t = ext_args(made, e.a[1][2][0], 'Note'), e.a[1][0]
            en = {x: tr.entry_of(a[x]) if isinstance(a.get(x), T) else None for x in ('velocity',)}
            wrong = None
            if en['velocity'] is None or en['velocity'] != (k, tr.vi):
                wrong = 'velocity'
            elif unwrap(a['pitch']) is not tr.note_of(k) and not (k is tr.key and unwrap(a['pitch']) is mk('item', tr.key, const(tr.ni))):
                wrong = 'pitch'
            else:
                st = a['start']
                at = st.a[1] if st.op == 'item' else fc_arg(st, 'tick') if st.op == 'fcall' else None
                at = unwrap(at) if isinstance(at, T) else None
                if at is None or tr.entry_of(at) != (k, tr.ti) or not tr.seconds(st, at):
                    wrong = 'start'
                elif not tr.seconds(a['end'], tr.at('time')):
                    wrong = 'end'
            ctx.need(not wrong, 'values', f.qualname, 'the %s of a note is %s' % (wrong, short(a.get(wrong), 110) if wrong else ''), eloc(e))
            home = t.a[0] if t.op == 'attr' and t.a[1] == 'notes' else None
            ctx.need(home is not None and settled(tr, ins, lp, home, k, made), 'home', f.qualname,
                     'a note is put into %s, not into the instrument of the current program of its channel and track' % short(t, 100), eloc(e))
        return n, n

    for kind_ in EVENTS:
        sound = kind_ in (SOUNDING,)
        closes = kind_ in (SOUNDING, RELEASE, ZERO, END, 'note_off at velocity 0')
        cases = [('a note of its key open since before', dict(same=True, start=10), (1, 1) if closes else (0, 0))]
        cases += [('a note of its key open since tick %d' % at, dict(same=True, start=at), cases[0][2]) for at in (0, 19)]
        if closes and kind_ != END:
            cases += [('a note of its key struck at the same tick', dict(same=True, start=20), (0, 0)),
                      ('an open note of another pitch', dict(same=False), (0, 0)), ('an open note of another channel', dict(same=False, channel=True), (0, 0))]
        for what, kw, (lo, hi) in cases:
            cs = tr.case(kind_, **kw)
            lps = tr.possible(tr.L, cs)
            if not lps:
                ctx.bad('events', '%s:%s' % (f.qualname, kind_), 'no way through the loop handles a %s event' % kind_, f.loc())
            for lp in lps:
                if lp.a[2].a[0] not in ('fall', 'continue'):
                    ctx.bad('events', '%s:%s' % (f.qualname, kind_), 'the events after a %s event are not read' % kind_, f.loc())
                evs = list(lp.a[1])
                sets = [e for e, _ in walk(evs) if e.a[0] in ('store', 'delitem') and same_cell(e.a[1][0], ins.programs)]
                want = 1 if kind_ == 'program_change' else 0
                ctx.need(len(sets) == want and all(len(e.a[1]) == 3 and e.a[1][1] is tr.at('channel') and unwrap(e.a[1][2]) is tr.at('program') for e in sets),
                         'program', '%s:%s' % (f.qualname, kind_), 'a %s event sets the current program of its channel %d times' % (kind_, len(sets)), f.loc())
                opened = [i for i, e in enumerate(evs) if e.a[0] == 'mut' and e.a[1][1] == 'append' and cell(e.a[1][0], tr.open) is not None]
                ctx.need(len(opened) == (1 if sound else 0), 'opened', '%s:%s' % (f.qualname, kind_),
                         'a %s event opens %d notes' % (kind_, len(opened)), f.loc())
                for i in opened:
                    e = evs[i]
                    v = dargs(e)[2][0]
                    ctx.need(cell(e.a[1][0], tr.open) is tr.key and v.op == 'tuple' and len(v.a) > max(tr.ti, tr.vi) and v.a[tr.ti] is tr.at('time') and
                             v.a[tr.vi] is tr.at('velocity'), 'opened', f.qualname,
                             'a note is opened as %s under %s, not with the tick and velocity of the event under its channel and note'
                             % (short(v, 80), short(e.a[1][0], 80)), eloc(e))
                deeper = [e for e, ch in walk(evs) if ch and e.a[0] == 'mut' and e.a[1][1] in ('append', 'extend', 'insert') and
                          cell(e.a[1][0], tr.open) is not None]
                ctx.need(not deeper, 'opened', '%s:%s' % (f.qualname, kind_), 'notes are opened in a loop', f.loc())
                before = evs[:opened[0]] if opened else evs
                bad = []
                other = kw.get('same') is False
                a, b = closing(tr, cs, before, False if other else None, bad, check)
                if opened:
                    c, d = closing(tr, cs, evs[opened[0]:], False if other else None, bad, check)
                    if d:
                        bad.append('a note is closed by the event that opened it')
                for m in bad:
                    ctx.bad('closed', '%s:%s' % (f.qualname, kind_), 'on a %s event, %s' % (kind_, m), f.loc())
                if kind_ == END and what.startswith('a note'):
                    pass
                ctx.need(a >= lo and b <= hi, 'closed', '%s:%s' % (f.qualname, kind_),
                         'on a %s event, %s becomes %s' % (kind_, what, '%d notes' % a if a == b else '%d to %d notes' % (a, b)), f.loc())
                sure, may = removed(tr, cs, before, other)
                if hi and kind_ != END:
                    ctx.need(sure, 'forgotten', '%s:%s' % (f.qualname, kind_), 'a note closed by a %s event may stay open and sound again' % kind_, f.loc())
                elif not hi:
                    ctx.need(not may, 'kept', '%s:%s' % (f.qualname, kind_), 'on a %s event, %s may be forgotten' % (kind_, what), f.loc())


def settled(tr, ins, lp, home, k, made):
    """home is the instrument of the current program, the channel and the track"""
    s = slot(home)
    if s is not None and same_cell(s[0], ins.map):
        return ins.right_key(s[1], k)
    a = ext_args(made, home, 'Instrument')
    if a is None:
        return False
    if not any(e.a[0] == 'store' and same_cell(e.a[1][0], ins.map) and e.a[1][2] is home and ins.right_key(e.a[1][1], k) for e in lp.a[1]):
        return False
    drum = a.get('is_drum', FALSE)
    got = []
    for ch, d in ((9, 9), (3, 9), (9, None)):
        cs = Cases(lambda t, ch=ch, d=d: ch if tr.is_channel(t, k) else d if t.op == 'attr' and t.a[1] == 'drum_channel' else None)
        got.append(cs.value(drum))
    return ins.current(a.get('program', NONE), k) and got[0] is True and got[1] is False


@prop('P01', 'Loading a file is analysed per kind of event (note_on with and without velocity, note_off, end of track, controllers, ...) and per state of the open notes (same key '
      'open since an earlier tick, struck at this tick, another pitch, another channel): the number of notes made from an open note, their arguments, the instrument they go to, '
      'and what is removed from the table of open notes are read off the abstract paths of each case.',
      assumptions=['the notes open under one key were all struck at one tick (they are closed before another is opened: rule closed)',
                   'event ticks never decrease within a track (rule ticks)', 'mido yields every event of the file'])
def p01(ctx):
    ctx.rule('ticks', 'the event times are made absolute: every event of every track is offset by the sum of the times before it')
    ctx.rule('events', 'every kind of event has a way through the loop that continues with the next event')
    ctx.rule('opened', 'exactly the note_on events with a velocity open one note, under their channel and note with their tick and velocity')
    ctx.rule('closed', 'an open note becomes exactly one note when its key is released or struck again later, or the track ends, and none otherwise')
    ctx.rule('forgotten', 'a closed note leaves the table of open notes')
    ctx.rule('kept', 'a note that is not closed stays in the table of open notes')
    ctx.rule('values', 'the note has the velocity and start of the open note, its pitch, and ends at the tick of the closing event')
    ctx.rule('home', 'the note goes into the listed instrument of the current program, the channel and the track, a drum kit exactly on the drum channel')
    ctx.rule('program', 'every program change, and nothing else, sets the current program of its channel')
    ctx.rule('fresh', 'the open notes and current programs start empty for each track')
    f, got = loads(ctx)
    if not got:
        raise Unproved('from_file has no loop over the events of the tracks that makes notes')
    for p, tr, ins in got:
        if tr.open is None or ins.map is None or ins.programs is None:
            what = 'opens notes' if tr.open is None else 'lists its instruments' if ins.map is None else 'follows program changes'
            ctx.bad('opened', f.qualname, 'no construct found that %s by channel and note, tick and velocity' % what, f.loc())
            continue
        ctx.need(not tr.outer.a[1] and not tr.L.a[1] and tr.L.a[0] is mk('elem', tr.outer.a[0], tr.outer.a[2]) and is_attr(tr.outer.a[0], 'tracks'),
                 'events', f.qualname, 'the events walked are %s, not those of every track' % short(tr.L.a[0], 100), f.loc())
        for o, what in ((tr.open, 'open notes'), (ins.programs, 'current programs')):
            ctx.need(fresh_in(tr, o), 'fresh', '%s:%s' % (f.qualname, what), 'the %s are carried over from one track to the next' % what, f.loc())
        note_rules(ctx, f, tr, ins, None)
        absolute(ctx, f, p, tr)
    for r, n in (('ticks', 3), ('opened', 30), ('closed', 60), ('forgotten', 10), ('kept', 40), ('values', 20), ('home', 20)):
        ctx.floor(r, n)


def fresh_in(tr, o):
    """created in each iteration over the tracks"""
    return o not in tr.p.st.cont if o.op == 'new' else any(e.a[0] == 'alloc' and e.a[1][0] is o for e in tr.olp.a[1])


def absolute(ctx, f, p, tr):
    ok = False
    for L in top_loops(p.events):
        if L is tr.outer or L.a[0] is not tr.outer.a[0] or L.a[1]:
            continue
        for lp in L.a[3]:
            for I in top_loops(lp.a[1]):
                if I.a[0] is not mk('elem', L.a[0], L.a[2]) or I.a[1]:
                    continue
                e_ = mk('elem', I.a[0], I.a[2])
                fine = bool(I.a[3]) and len(L.a[3]) == 1
                for ip in I.a[3]:
                    if ip.a[2].a[0] not in ('fall', 'continue'):
                        fine = False
                    sets = [x for x in ip.a[1] if x.a[0] == 'setattr' and x.a[1][0] is e_ and x.a[1][1] == 'time']
                    ups = dict(ip.a[3]) if ip.a[3] else {}
                    tick = [v for v in ups if v.op == 'lv']
                    good = False
                    for v in tick:
                        tot = Cases(lambda t: 5 if t is mk('attr', e_, 'time') else 100 if t is v else None)
                        start = dict(I.a[4]).get(v)
                        if len(sets) == 1 and start is not None and is_const(start, 0) and tot.value(dargs(sets[0])[2]) == 105 and tot.value(ups[v]) == 105:
                            good = True
                    fine = fine and good
                ok = ok or fine
    ctx.need(ok, 'ticks', f.qualname, 'the times of the events are not summed up per track', f.loc())


# ---------------------------------------------------------------- P02
KEPT = {'control_change': ('ControlChange', 'control_changes', {'number': 'control', 'value': 'value'}),
        'pitchwheel': ('PitchBend', 'pitch_bends', {'pitch': 'pitch'})}


def pending_cell(ins, t, k):
    """dictionary in which t is kept by channel and track"""
    s = slot(t)
    if s is not None and ins.pending_key(s[1], k) and as_new(s[0]).op == 'new' and not same_cell(s[0], ins.map):
        return as_new(s[0])
    return None


def known(guards, what):
    """the literal is known to hold / known not to hold -> True / False / None"""
    if holds(guards, lambda a, q: q and what(a)):
        return True
    return False if holds(guards, lambda a, q: not q and what(a)) else None


@prop('P02', 'Loading a file is analysed per kind of event: the controller and pitch bend objects made, their arguments, the instrument (listed under the current program, channel and '
      'track, or pending under channel and track) each is put into under which condition, and what an instrument takes over when it is created, on every abstract path.',
      assumptions=['event ticks are absolute (P01, rule ticks)'])
def p02(ctx):
    ctx.rule('kept', 'every control_change and pitchwheel event, and no other, makes one object that is put into one list')
    ctx.rule('values', 'the object has the number, value or pitch of the event and the time of its tick')
    ctx.rule('home', 'it goes into the listed instrument of the current program, channel and track if there is one, and otherwise into what is pending for the channel and track')
    ctx.rule('adopted', 'an instrument that becomes listed takes over the controllers and bends pending for its channel and track')
    f, got = loads(ctx)
    if not got:
        raise Unproved('from_file has no loop over the events of the tracks that makes notes')
    for p, tr, ins in got:
        if tr.open is None or ins.map is None or ins.programs is None:
            ctx.bad('home', f.qualname, 'no instruments listed by program, channel and track', f.loc())
            continue
        pend = set()
        objects = all(e.a[1][2].op == 'new' for e, _ in walk(p.events) if e.a[0] == 'store' and same_cell(e.a[1][0], ins.map))
        for kind_ in EVENTS:
            cs = tr.case(kind_)
            for lp in tr.possible(tr.L, cs):
                if objects and holds(lp.a[0], lambda a, q: q and a.op == 'isnone' and a.a[0].op == 'item' and same_cell(a.a[0].a[0], ins.map)):
                    continue                                  # what is listed is never None
                made = made_here(lp.a[1])
                objs = [(e, ch) for e, ch in walk(lp.a[1]) if e.a[0] == 'extnew' and e.a[1][1].a[0].split('.')[-1] in ('ControlChange', 'PitchBend')]
                spec = KEPT.get(kind_)
                right = [o for o in objs if spec and o[0].a[1][1].a[0].split('.')[-1] == spec[0] and not o[1]]
                if not ctx.need(len(objs) == len(right) == (1 if spec else 0), 'kept', '%s:%s' % (f.qualname, kind_),
                                'a %s event makes %d controllers or bends' % (kind_, len(objs)), f.loc()) or not spec:
                    continue
                o = right[0][0].a[1][0]
                a = ext_args(made, o, spec[0])
                wrong = [n for n, src in spec[2].items() if unwrap(a.get(n, NONE)) is not tr.at(src)] + \
                    ([] if isinstance(a.get('time'), T) and tr.seconds(a['time'], tr.at('time')) else ['time'])
                ctx.need(not wrong, 'values', '%s:%s' % (f.qualname, kind_), 'the %s of the object is %s' % (wrong[:1], short(a.get((wrong or ['time'])[0], NONE), 100)), f.loc())
                puts = [(e, ch) for e, ch in walk(lp.a[1]) if e.a[0] == 'mut' and e.a[1][1] in ('append', 'insert') and o in e.a[1][2]]
                if not ctx.need(len(puts) == 1 and not puts[0][1], 'kept', '%s:%s' % (f.qualname, kind_), 'the object is put into %d lists' % len(puts), f.loc()):
                    continue
                e = puts[0][0]
                t = e.a[1][0]
                home = t.a[0] if t.op == 'attr' and t.a[1] == spec[1] else None
                if home is None:
                    ctx.bad('home', '%s:%s' % (f.qualname, kind_), 'the object is put into %s' % short(t, 100), eloc(e))
                    continue
                listed = known(lp.a[0], lambda x: x.op == 'in' and same_cell(x.a[1], ins.map) and ins.right_key(x.a[0], tr.key))
                if listed is None and objects and holds(lp.a[0], lambda a, q: not q and a.op == 'in' and same_cell(a.a[1], ins.map) and ins.right_key(a.a[0], tr.key) or
                                                        q and a.op == 'isnone' and a.a[0].op == 'item' and same_cell(a.a[0].a[0], ins.map) and ins.right_key(a.a[0].a[1], tr.key)):
                    listed = False
                s = slot(home)
                if s is not None and same_cell(s[0], ins.map) and ins.right_key(s[1], tr.key):
                    ctx.need(listed is not False, 'home', '%s:%s' % (f.qualname, kind_), 'the object goes into a listed instrument that does not exist', eloc(e))
                    continue
                P = pending_cell(ins, home, tr.key)
                if P is None and home.op == 'new':
                    st = [x for x in lp.a[1] if x.a[0] == 'store' and x.a[1][2] is home]
                    P = pending_cell(ins, mk('item', st[0].a[1][0], st[0].a[1][1]), tr.key) if len(st) == 1 else None
                    if P is not None:
                        ctx.need(known(lp.a[0], lambda x: x.op == 'in' and same_cell(x.a[1], P) and ins.pending_key(x.a[0], tr.key)) is False,
                                 'home', '%s:%s' % (f.qualname, kind_), 'what was pending for the channel and track is thrown away', eloc(e))
                    elif len(st) == 1 and same_cell(st[0].a[1][0], ins.map) and ins.right_key(st[0].a[1][1], tr.key):
                        continue                              # an instrument is listed for the controller itself
                if P is not None:
                    pend.add(P)
                ctx.need(P is not None and listed is False, 'home', '%s:%s' % (f.qualname, kind_),
                         'the object goes into %s although %s' % (short(home, 80), 'the channel has a listed instrument' if P is not None else
                                                                 'that is not the instrument of its program, channel and track'), eloc(e))
        if not ctx.need(len(pend) <= 1, 'home', f.qualname, 'there are several tables of pending controllers', f.loc()):
            continue
        for lp in tr.L.a[3]:
            for e, ch in walk(lp.a[1]):
                if e.a[0] != 'store' or not same_cell(e.a[1][0], ins.map) or not pend:
                    continue
                P, = pend
                I = e.a[1][2]
                inner = ch[-1][1] if ch else lp
                guards = set(conj(lp.a[0]))
                for _, q in ch:
                    guards |= set(conj(q.a[0]))
                kt = e.a[1][1]
                chan = [x for x in (kt.a if kt.op == 'tuple' else ()) if unwrap(x) is tr.at('channel') or (unwrap(x).op == 'item' and tr.key_term(unwrap(x).a[0]))]
                if I.op != 'new' or not chan:
                    ctx.bad('adopted', f.qualname, 'an instrument is listed as %s' % short(kt, 100), eloc(e))
                    continue
                k = tr.key if unwrap(chan[0]) is tr.at('channel') else unwrap(chan[0]).a[0]
                there = known(guards, lambda x: x.op == 'in' and same_cell(x.a[1], P) and ins.pending_key(x.a[0], k))
                if there is None:
                    ctx.bad('adopted', f.qualname, 'an instrument is listed without looking at what is pending for its channel and track', eloc(e))
                    continue
                if not there:
                    ctx.ok('adopted')
                    continue
                for name in ('control_changes', 'pitch_bends'):
                    fine = False
                    for x in inner.a[1]:
                        if x.a[0] == 'setattr' and x.a[1][0] is I and x.a[1][1] == name:
                            fine = from_pending(ins, P, dargs(x)[2], name, k)
                        elif x.a[0] == 'mut' and x.a[1][0] is mk('attr', I, name):
                            fine = x.a[1][1] == 'extend' and bool(x.a[1][2]) and from_pending(ins, P, dargs(x)[2][0], name, k)
                    ctx.need(fine, 'adopted', '%s:%s' % (f.qualname, name), 'the pending %s are not taken over' % name.replace('_', ' '), eloc(e))
    for r, n in (('kept', 12), ('values', 6), ('home', 6), ('adopted', 6)):
        ctx.floor(r, n)


def from_pending(ins, P, v, name, k):
    while True:
        if v.op == 'call' and v.a[0] in ('list', 'sorted') and len(v.a[1]) == 1:
            v = v.a[1][0]
        elif v.op == 'copyof':
            v = v.a[1]
        elif v.op == 'mcall' and v.a[1] == 'copy':
            v = v.a[0]
        elif v.op == 'slice' and len(v.a) == 4:
            v = v.a[0]
        else:
            break
    if v.op != 'attr' or v.a[1] != name:
        return False
    o = v.a[0]
    if o.op == 'mres' and len(o.a) > 1 and o.a[1] == 'pop':
        return same_cell(o.a[0], P)
    return pending_cell(ins, o, k) is P


# ---------------------------------------------------------------- P03
def near(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-11 * abs(b) + 1e-18


def me_attr(t):
    """name of an attribute of the object itself (any version of it)"""
    if t.op == 'attr' and t.a[0].op == 'param' and t.a[0].a[0] == 'self':
        return t.a[1]
    if t.op == 'lh' and t.a[1].op == 'param' and isinstance(t.a[2], str):
        return t.a[2]
    return None


def base_of(t):
    """list a slice is taken of"""
    return t.a[0] if t.op == 'item' and t.a[1].op == 'slice' else t


def tempo_attrs(ctx):
    """(attribute holding the tempo list, attribute holding the time of every tick)"""
    scales = set()
    for p in ctx.run(PM + '.get_tempo_changes', opaque=(PM + '.tick_to_time',)):
        if p.kind == 'return':
            for t in list(subterms(p.dvalue)) + [L.a[0] for L, _ in loops(p.events)]:
                if me_attr(t) and me_attr(t) != 'resolution':
                    scales.add(me_attr(t))
    times = set()
    for p in ctx.run(PM + '.time_to_tick'):
        if p.kind == 'return':
            for t in subterms(p.value):
                if t.op == 'call' and t.a[0].split('.')[-1] in ('searchsorted', 'bisect_left', 'bisect', 'bisect_right') and me_attr(t.a[1][0]):
                    times.add(me_attr(t.a[1][0]))
    if len(scales) != 1 or len(times) != 1:
        raise Unproved('get_tempo_changes walks %s, time_to_tick searches %s' % (sorted(scales), sorted(times)))
    return scales.pop(), times.pop()


RES, TEMPO_US = 480, 400000


def tempo_list(ctx, f, p, scales):
    """the tempo list the events of the first track give"""
    N = scales
    own = lambda e: e.a[0] == 'setattr' and e.a[1][0].op == 'param' and e.a[1][1] == N
    is_list = lambda t: me_attr(t) == N
    res = lambda t: RES if t.op == 'attr' and t.a[1] in ('ticks_per_beat',) else None
    where = [L for L in top_loops(p.events) if any(own(e) or e.a[0] in ('mut', 'store') and is_list(e.a[1][0]) for lp in L.a[3] for e, _ in walk(lp.a[1]))]
    if len(where) != 1:
        ctx.bad('list', f.qualname, '%d loops collect the tempo events' % len(where), f.loc())
        return None
    L, = where
    b = L.a[0]
    ctx.need(b.op == 'item' and is_const(b.a[1], 0) and is_attr(b.a[0], 'tracks') and not L.a[1], 'list', f.qualname,
             'the tempo events are looked for in %s, not in every event of the first track in order' % short(b, 100), f.loc())
    before = []
    for e in p.events:
        if e.a[0] == 'loop' and e.a[1][0] is L:
            break
        if own(e):
            before = [e]
    got = one_tempo(dargs(before[0])[2], Cases(res)) if before else None
    ctx.need(got is not None and got[0] == 0 and near(got[1], 60.0 / (120.0 * RES)), 'list', f.qualname + ':default',
             'before any tempo event the tempo list is %s, not 120 beats per minute from tick 0' % (got,), f.loc())
    E = mk('elem', L.a[0], L.a[2])
    for typ in ('set_tempo', 'text'):
        for time in (0, 1, 7):
            for other in (1.0, 1e-9, (60.0 / ((6e7 / TEMPO_US) * RES)) * (1 + 2.0 ** -10), None):
                same = other is None
                want = 60.0 / ((6e7 / TEMPO_US) * RES)

                def leaf(t):
                    if t.op == 'attr' and t.a[0] is E:
                        return {'type': typ, 'time': time, 'tempo': TEMPO_US}.get(t.a[1])
                    if t.op == 'eq' and any(last_scale(x, is_list) for x in t.a):
                        return same
                    if last_scale(t, is_list):
                        return want if same else other
                    return res(t)
                cs = Cases(leaf)
                lps = [lp for lp in L.a[3] if cs.lits(lp.a[0]) is not False and lp.a[2].a[0] != 'raise']
                what = 'a %s event at tick %d%s' % (typ, time, '' if typ != 'set_tempo' else ' with the tempo already in force' if same else '')
                if not lps:
                    ctx.bad('list', f.qualname + ':' + what, 'nothing happens on ' + what, f.loc())
                for lp in lps:
                    if lp.a[2].a[0] not in ('fall', 'continue'):
                        ctx.bad('list', f.qualname + ':' + what, 'the tempo events after %s are not read' % what, f.loc())
                        continue
                    resets, adds, odd = [], [], []
                    for e, ch in walk(lp.a[1]):
                        if own(e):
                            resets.append(one_tempo(dargs(e)[2], cs))
                        elif e.a[0] == 'store' and is_list(e.a[1][0]) and is_const(e.a[1][1], 0):
                            resets.append(pair(e.a[1][2], cs))
                        elif e.a[0] == 'mut' and is_list(e.a[1][0]):
                            if e.a[1][1] == 'append' and not ch:
                                adds.append(pair(dargs(e)[2][0], cs))
                            else:
                                odd.append(e)
                        elif e.a[0] in ('store', 'delitem') and is_list(e.a[1][0]):
                            odd.append(e)
                    good = lambda x, at: x is not None and x[0] == at and near(x[1], want)
                    if typ != 'set_tempo':
                        fine = not resets and not adds and not odd
                    elif time == 0:
                        fine = len(resets) == 1 and good(resets[0], 0) and not adds and not odd
                    else:
                        fine = not resets and not odd and len(adds) <= 1 and (same or len(adds) == 1) and all(good(x, time) for x in adds)
                    ctx.need(fine, 'list', f.qualname + ':' + what, 'on %s the tempo list is %s' % (
                        what, 'replaced by %s' % resets if resets else 'extended by %s' % adds if adds else 'changed' if odd else 'left alone'), f.loc())
    return L


def last_scale(t, is_list):
    return t.op == 'item' and is_const(t.a[1], 1) and t.a[0].op == 'item' and is_const(t.a[0].a[1], -1) and is_list(t.a[0].a[0])


def pair(t, cs):
    return (cs.value(t.a[0]), cs.value(t.a[1])) if t.op == 'tuple' and len(t.a) == 2 else None


def one_tempo(t, cs):
    return pair(t.a[0], cs) if t.op == 'list' and len(t.a) == 1 else None


def consecutive(x, y, L, S):
    """x and y are neighbouring entries of the tempo list, walked in order from the first pair to the last"""
    first = lambda b: b.op == 'item' and b.a[1].op == 'slice' and is_const(b.a[1].a[0], None, 0) and is_const(b.a[1].a[1], -1)
    rest = lambda b: b.op == 'item' and b.a[1].op == 'slice' and is_const(b.a[1].a[0], 1) and is_const(b.a[1].a[1], None)
    if L.a[0].op == 'zip' and len(L.a[0].a) == 2 and x.op == y.op == 'elem':
        a, b = L.a[0].a
        return x.a[0] is a and y.a[0] is b and (first(a) or a is base_of(b)) and rest(b) and base_of(a) is base_of(b)
    if L.a[0].op == 'range' and x.op == y.op == 'item' and x.a[0] is y.a[0]:
        el = mk('elem', L.a[0], L.a[2])
        n = 10

        def at(k):
            return Cases(lambda t: k if t is el else n if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1 and t.a[1][0] is x.a[0] else None)
        b = [at(0).value(t) for t in L.a[0].a]
        if any(not isinstance(v, int) for v in b) or not all(is_const(t, 1) for t in L.a[0].a[2:]):
            return False
        return [(at(k).value(x.a[1]), at(k).value(y.a[1])) for k in range(b[0], b[1])] == [(k, k + 1) for k in range(n - 1)]
    return False


def visible(t):
    """the parts of a value, without looking into the loops that computed them"""
    yield t
    if t.op != 'lo':
        stack = list(t.a)
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                yield from visible(x)
            elif isinstance(x, (tuple, frozenset)):
                stack.extend(x)


def fill(ctx, rid, what, p, times, requested, loc):
    """the time of every tick is built up piece by piece from the tempo list"""
    sets = [i for i, e in enumerate(p.events) if e.a[0] == 'setattr' and e.a[1][0].op == 'param' and e.a[1][1] == times]
    if not sets:
        return False
    Z = p.events[sets[-1]].a[1][2]
    if Z.op != 'res' or Z.a[0].op != 'call' or Z.a[0].a[0] not in ('numpy.zeros', 'numpy.empty'):
        ctx.bad(rid, what, 'the times of the ticks are %s' % short(Z, 80), loc)
        return True
    size = Z.a[0].a[1][0]
    rest = p.events[sets[-1]:]
    pieces = [(L, lp, e) for L in top_loops(rest) for lp in L.a[3] for e in lp.a[1] if e.a[0] == 'store' and e.a[1][0] is Z]
    final = [e for e in rest if e.a[0] == 'store' and e.a[1][0] is Z]
    if len(pieces) != 1 or len(final) != 1 or final[0].a[1][1].op != 'slice' or pieces[0][2].a[1][1].op != 'slice':
        ctx.bad(rid, what, 'the table of times is filled by %d loops and %d final pieces' % (len(pieces), len(final)), loc)
        return True
    L, lp, e = pieces[0]
    lo, up = e.a[1][1].a[0], e.a[1][1].a[1]
    X = lo.a[0] if lo.op == 'item' else None
    Y = next((t.a[0] for t in subterms(up) if t.op == 'item' and t.a[0].op in ('elem', 'item') and t.a[0] is not X and num(t.a[1])), None)
    ok = X is not None and Y is not None and consecutive(X, Y, L, None) and len(L.a[3]) == 1 and not conj(lp.a[0]) and not L.a[1]
    if not ctx.need(ok, rid, what + ':pieces', 'the pieces of the tempo map are not its neighbouring entries one after the other', loc):
        return True
    S = base_of(L.a[0].a[1]) if L.a[0].op == 'zip' else X.a[0]
    s, en, c, t0 = 100, 350, 0.002, 5.0
    ups = dict(lp.a[3]) if lp.a[3] else {}
    acc = [v for v in ups if v.op == 'lv']
    init = dict(L.a[4])

    def values(extra, i=None):
        def leaf(t):
            if t in extra:
                return extra[t]
            if t.op == 'call' and t.a[0] == 'numpy.arange' and i is not None and len(t.a[1]) == 1:
                return i
            return None
        return Cases(leaf)
    base = {mk('item', X, const(0)): s, mk('item', X, const(1)): c, mk('item', Y, const(0)): en}
    good = False
    for v in acc:
        cs = values(dict(base, **{}) | {v: t0})
        m = next((cs.value(t.a[1][0]) for t in subterms(e.a[1][2]) if t.op == 'call' and t.a[0] == 'numpy.arange' and len(t.a[1]) == 1), None)
        low, high = cs.value(lo), cs.value(up)
        vals = [values(base | {v: t0}, i).value(e.a[1][2]) for i in (0, 7, 250)]
        u = ups[v]
        if u.op == 'item' and u.a[0] is Z:
            follows = high == en + 1 and cs.value(u.a[1]) == en
        else:
            follows = near(cs.value(u), t0 + c * (en - s))
        if low == s and high in (en, en + 1) and m == high - low and follows and all(near(x, t0 + c * i) for x, i in zip(vals, (0, 7, 250))) and \
                v in init and Cases(lambda t: None).value(init[v]) == 0:
            good = True
            last = v
    if not ctx.need(good, rid, what + ':piece', 'a piece of the tempo map is not filled with the time at its start plus its own seconds per tick up to the next '
                    'tempo change', loc):
        return True
    fe = final[0]
    after = [t for t in visible(fe.a[1][2]) if t.op == 'lo' and t.a[1] is last]
    is_last = lambda t, k: t.op == 'item' and is_const(t.a[1], k) and t.a[0].op == 'item' and is_const(t.a[0].a[1], -1) and t.a[0].a[0] is S
    for want, top in ((300, 500), (800, 500), (500, 500)):
        def leaf(t, i=None):
            if is_last(t, 0):
                return 500
            if is_last(t, 1):
                return c
            if after and t is after[0]:
                return t0
            if t.op == 'call' and t.a[0] == 'numpy.arange' and i is not None and len(t.a[1]) == 1:
                return i
            if t.op == 'call' and t.a[0] in ('max', 'numpy.max') and t.a[1] and t.a[1][0].op == 'map' and t.a[1][0].a[0] is S:
                return top
            return requested(t, want)
        cs = Cases(leaf)
        if cs.lits(p.guards) is False:
            continue
        n = cs.value(size)
        ctx.need(isinstance(n, (int, float)) and n >= max(want, top) + 1, rid, what + ':size',
                 'the table has %s entries when ticks up to %d are asked for and the last tempo change is at %d' % (n, want, top), loc)
        hi = fe.a[1][1].a[1]
        m = next((cs.value(t.a[1][0]) for t in visible(fe.a[1][2]) if t.op == 'call' and t.a[0] == 'numpy.arange' and len(t.a[1]) == 1), None)
        vals = [Cases(lambda t, i=i: leaf(t, i)).value(fe.a[1][2]) for i in (0, 7, 250)]
        ctx.need(after and cs.value(fe.a[1][1].a[0]) == 500 and (is_const(hi, None) or cs.value(hi) == n) and m == (n or 0) - 500 and
                 all(near(x, t0 + c * i) for x, i in zip(vals, (0, 7, 250))), rid, what + ':rest',
                 'after the last tempo change the times do not go on with its seconds per tick to the end of the table', loc)
    return True


def reported(ctx, scales):
    """get_tempo_changes gives the time and tempo of every entry"""
    f = ctx.p.func(PM + '.get_tempo_changes')
    for p in ctx.run(f.qualname, opaque=(PM + '.tick_to_time',)):
        if p.kind != 'return':
            continue
        v = p.dvalue
        if not ctx.need(v.op == 'tuple' and len(v.a) == 2, 'reported', f.qualname, 'the result is %s' % short(v, 80), f.loc()):
            continue
        want_time = lambda x, el: (x.op == 'fcall' and x.a[0] == PM + '.tick_to_time' and unwrap(fc_arg(x, 'tick')) is mk('item', el, const(0)))

        def want_bpm(x, el):
            def bpm(scale):
                cs = Cases(lambda t: scale if t is mk('item', el, const(1)) else RES if t.op == 'attr' and t.a[1] == 'resolution' else None)
                return near(cs.value(x), 60.0 / (scale * RES))
            return all(bpm(s) for s in (0.0025, 0.00123456789, 1.7e-5, 0.37))
        for part, want, name in ((v.a[0], want_time, 'times'), (v.a[1], want_bpm, 'tempi')):
            good = False
            while part.op == 'call' and part.a[0] in ('numpy.array', 'numpy.asarray') and part.a[1]:
                part = part.a[1][0]
            if part.op == 'map' and me_attr(part.a[0]) == scales and not part.a[1] and len(part.a[2]) == 1:
                (g, x), = part.a[2]
                good = not g and want(x, mk('elem', part.a[0], part.a[3]))
            elif part.op == 'res':
                for L in top_loops(p.events):
                    if me_attr(L.a[0]) != scales or L.a[1]:
                        continue
                    el, ix = mk('elem', L.a[0], L.a[2]), mk('idx', L.a[0], L.a[2])
                    ok = True
                    for lp in L.a[3]:
                        if lp.a[2].a[0] == 'raise':
                            continue
                        st = [e for e in lp.a[1] if e.a[0] == 'store' and e.a[1][0] is part]
                        ok = ok and lp.a[2].a[0] in ('fall', 'continue') and len(st) == 1 and st[0].a[1][1] is ix and want(st[0].a[1][2], el)
                    n = part.a[0].a[1][0] if part.a[0].a[1] else NONE
                    good = good or ok and n.op == 'call' and n.a[0] == 'len' and me_attr(n.a[1][0]) == scales
            ctx.need(good, 'reported', f.qualname + ':' + name, 'the %s reported are not those of every entry of the tempo list' % name, f.loc())


def to_time(ctx, times):
    f = ctx.p.func(PM + '.tick_to_time')
    tick = mk('param', 'tick')
    seen = 0
    for p in ctx.run(f.qualname):
        if p.kind == 'raise':
            ctx.need(holds(p.guards, lambda a, q: a.op == 'lt' and not q and a.a[0] is tick and num(a.a[1]) and a.a[1].a[0] >= 1e8) or not raised_here(p), 'to_time', f.qualname,
                     'a tick is refused although it is not too large', f.loc())
            continue
        v = p.value
        if not ctx.need(v.op == 'item' and unwrap(v.a[1]) is tick, 'to_time', f.qualname, 'the result is %s, not the time of the tick' % short(v, 100), f.loc()):
            continue
        seen += 1
        if me_attr(v.a[0]) == times:
            ctx.need(holds(p.guards, lambda a, q: a.op == 'lt' and q and a.a[0] is tick and a.a[1].op == 'call' and a.a[1].a[0] == 'len' and
                           me_attr(a.a[1].a[1][0]) == times), 'to_time', f.qualname, 'the table is read without knowing that it covers the tick', f.loc())
            continue
        ctx.need(any(o.op == 'param' and a == times and x is v.a[0] for (o, a), x in p.st.heap.items()), 'to_time', f.qualname,
                 'the time is read from %s' % short(v.a[0], 80), f.loc())
        ctx.need(fill(ctx, 'filled', f.qualname, p, times, lambda t, w: w if t is tick else None, f.loc()), 'to_time', f.qualname,
                 'the table is not rebuilt for a tick beyond it', f.loc())
    ctx.need(seen >= 2, 'to_time', f.qualname, 'no time is found for ticks beyond the table', f.loc())


def raised_here(p):
    x = p.value
    return isinstance(x, T) and x.op == 'exc'


def to_tick(ctx, scales, times):
    f = ctx.p.func(PM + '.time_to_tick')
    when = mk('param', 'time')
    table = [0.0, 1.0, 2.0, 4.0, 7.0]
    import bisect
    ps = [p for p in ctx.run(f.qualname) if p.kind == 'return']
    for time, want in ((-0.5, (0,)), (0.0, (0,)), (0.3, (0,)), (0.8, (1,)), (1.0, (1,)), (1.4, (1,)), (1.6, (2,)), (2.9, (2,)), (3.2, (3,)), (4.0, (3,)),
                       (5.0, (3,)), (6.9, (4,)), (7.0, (4,)), (7.3, (4,)), (8.1, (6,)), (9.9, (10,))):
        def leaf(t):
            if t is when:
                return time
            if t.op == 'call' and t.a[1] and me_attr(t.a[1][0]) == times:
                name = t.a[0].split('.')[-1]
                if name == 'len':
                    return len(table)
                if name == 'searchsorted' and len(t.a[1]) == 2 and cs.value(t.a[1][1]) == time:
                    side = kw_of(t.a[2], 'side')
                    return (bisect.bisect_right if side is not None and is_const(side, 'right') else bisect.bisect_left)(table, time)
                if name in ('bisect_left', 'bisect', 'bisect_right') and len(t.a[1]) == 2 and t.a[1][1] is when:
                    return getattr(bisect, name)(table, time)
            if t.op == 'item' and me_attr(t.a[0]) == times:
                i = cs.value(t.a[1])
                return table[int(i)] if isinstance(i, int) and -5 <= i < 5 else None
            if t.op == 'item' and is_const(t.a[1], 1) and t.a[0].op == 'item' and is_const(t.a[0].a[1], -1) and me_attr(t.a[0].a[0]) == scales:
                return 0.5
            return None
        cs = Cases(leaf)
        got = []
        for p in ps:
            ok = cs.lits(p.guards)
            if ok is None:
                got.append(None)
            elif ok:
                got.append(cs.value(p.value))
        case = 'before the table' if time < 0 else 'on a tick' if time in table else 'beyond the table' if time > 7 else 'between two ticks'
        ctx.need(len(got) >= 1 and all(g in want or (time > 7 and g is not None and near(g, round(4 + (time - 7) / 0.5))) for g in got), 'to_tick', f.qualname + ':' + case,
                 'a time %s is given tick %s, not the nearest' % (case, got), f.loc())


@prop('P03', 'The tempo list left by loading, the table of tick times filled from it and the conversions between ticks and seconds are read off the abstract paths and compared, case by case '
      '(first tick or later, same tempo or another, tick inside or beyond the table, time on, between or beyond ticks), with the piecewise linear map they stand for.',
      assumptions=['event ticks are absolute and never decrease (P01, rule ticks)'])
def p03(ctx):
    ctx.rule('list', 'the tempo list starts with 120 beats per minute, is replaced by a tempo at tick 0 and extended by every other change, in seconds per tick of the file resolution')
    ctx.rule('filled', 'the time of a tick is the time at the last tempo change before it plus its ticks times the seconds per tick in force, for every tick of the file')
    ctx.rule('reported', 'the tempo changes reported are the time and tempo of every entry of the list')
    ctx.rule('to_time', 'the time of a tick is read from a table that covers it')
    ctx.rule('to_tick', 'the tick of a time is the nearest one, also beyond the table')
    scales, times = tempo_attrs(ctx)
    f = ctx.p.func(PM + '.from_file')
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            continue
        tempo_list(ctx, f, p, scales)

        def requested(t, want):
            if t.op == 'call' and t.a[0] in ('max', 'numpy.max') and t.a[1] and t.a[1][0].op == 'map' and is_attr(t.a[1][0].a[0], 'tracks'):
                m = t.a[1][0]
                (g, x), = m.a[2] if len(m.a[2]) == 1 else ((1, x),)
                inner = x.a[1][0] if x.op == 'call' and x.a[0] in ('max', 'numpy.max') and len(x.a[1]) == 1 else None
                if not g and inner is not None and inner.op == 'map' and inner.a[0] is mk('elem', m.a[0], m.a[3]) and \
                        inner.a[2] == frozenset([(frozenset(), mk('attr', mk('elem', inner.a[0], inner.a[3]), 'time'))]):
                    return want
            return None
        ctx.need(fill(ctx, 'filled', f.qualname, p, times, requested, f.loc()), 'filled', f.qualname, 'loading does not compute the times of the ticks', f.loc())
    reported(ctx, scales)
    to_time(ctx, times)
    to_tick(ctx, scales, times)
    for r, n in (('list', 20), ('filled', 15), ('reported', 2), ('to_time', 3), ('to_tick', 14)):
        ctx.floor(r, n)


# ---------------------------------------------------------------- P04
MSG = ('mido.Message', 'mido.MetaMessage')


def messages(events):
    """-> [(event, list it is put into, message type, fields, object)] of the messages made and appended in these events themselves"""
    made = {e.a[1][0]: e.a[1][1] for e in events if e.a[0] == 'extnew' and e.a[1][1].a[0] in MSG}
    out = []
    for e in events:
        if e.a[0] == 'mut' and e.a[1][1] == 'append' and e.a[1][2] and e.a[1][2][0] in made:
            c = made[e.a[1][2][0]]
            typ = c.a[1][0] if c.a[1] else kw_of(c.a[2], 'type')
            if typ is not None and typ.op == 'const':
                out.append((e, as_new(e.a[1][0]), typ.a[0], dict(c.a[2]), e.a[1][2][0]))
    return out


def at_tick(t, when):
    return t is not None and t.op == 'fcall' and t.a[0] == PM + '.time_to_tick' and fc_arg(t, 'time') is when


def file_of(p):
    """(the MIDI file returned, its track list)"""
    return p.value, mk('attr', p.value, 'tracks')


def track_added(events, tracks):
    """tracks appended to the file in these events"""
    return [(i, as_new(e.a[1][2][0])) for i, e in enumerate(events) if e.a[0] == 'mut' and e.a[1][1] == 'append' and e.a[1][0] is tracks and e.a[1][2]]


KEY_NAMES = None


def key_number(name):
    """number of a key signature name (as the MIDI library reads it): major keys by semitone, minor keys 12 higher"""
    if not isinstance(name, str) or not name or name[0] not in 'CDEFGAB':
        return None
    n = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}[name[0]]
    rest = name[1:]
    minor = rest.endswith('m')
    rest = rest[:-1] if minor else rest
    n += {'': 0, '#': 1, 'b': -1}.get(rest, 99)
    return (n % 12 + (12 if minor else 0)) if n < 90 else None


def per_element(ctx, f, what, p, src, made, where, loc):
    """every element of the list src puts exactly the given messages into list `where`. made(el) -> {type: {field: test(term)}}"""
    Ls = [L for L in top_loops(p) if L.a[0] is src]
    if len(Ls) != 1:
        return ctx.bad('written', '%s:%s' % (f.qualname, what), 'the %s are walked %d times' % (what, len(Ls)), loc)
    L, = Ls
    el = mk('elem', L.a[0], L.a[2])
    if any(o[0] not in ('sorted', 'reversed') for o in L.a[1]):
        ctx.bad('written', '%s:%s' % (f.qualname, what), 'not every one of the %s is walked' % what, loc)
    for lp in L.a[3]:
        if lp.a[2].a[0] == 'raise':
            continue
        msgs = messages(lp.a[1])
        want = made(el)
        ctx.need(lp.a[2].a[0] in ('fall', 'continue') and sorted(m[2] for m in msgs) == sorted(t for t, _ in want) and all(m[1] is where for m in msgs) and
                 not any(e.a[0] == 'loop' and messages(q.a[1]) for e in lp.a[1] if e.a[0] == 'loop' for q in e.a[1][0].a[3]),
                 'written', '%s:%s' % (f.qualname, what), 'one of the %s gives the messages %s' % (what, [m[2] for m in msgs]), loc)
        left = list(want)
        for m in msgs:
            ok = None
            for i, (typ, fields) in enumerate(left):
                if typ != m[2]:
                    continue
                wrong = [k for k, test in fields.items() if k not in m[3] or not test(m[3][k])] + [k for k in m[3] if k not in fields]
                if not wrong:
                    ok = i
                    break
                bad = wrong
            if ok is not None:
                left.pop(ok)
                ctx.ok('values')
            else:
                ctx.bad('values', '%s:%s' % (f.qualname, what), 'the %s message of one of the %s has %s = %s' % (
                    m[2], what, bad[0] if msgs else '', short(m[3].get(bad[0], NONE), 90)), eloc(m[0]))


def sample_list(t, drum):
    """numbers in a local list, given the drum channel"""
    if t.op == 'call' and t.a[0] in ('list', 'tuple') and len(t.a[1]) == 1:
        return sample_list(t.a[1][0], drum)
    if t.op == 'range':
        v = [Cases(lambda x: None).value(x) for x in t.a]
        return list(range(*v)) if all(isinstance(x, int) for x in v) else None
    if t.op in ('list', 'tuple'):
        v = [Cases(lambda x: drum if is_attr(x, 'drum_channel') else None).value(x) for x in t.a]
        return None if None in v else v
    if t.op == 'map':
        base = sample_list(t.a[0], drum)
        if base is None or t.a[1]:
            return None
        out = []
        for b in base:
            cs = Cases(lambda x: b if x is mk('elem', t.a[0], t.a[3]) else drum if is_attr(x, 'drum_channel') else None)
            for g, v in t.a[2]:
                ok = cs.lits(g)
                if ok is None or ok and not isinstance(cs.value(v), int):
                    return None
                if ok:
                    out.append(cs.value(v))
        return out
    if t.op == 'content':
        out = None
        for part in t.a[1]:
            if part[0] == 'copy' and not part[2]:
                out = sample_list(part[1], drum)
            elif part[0] == 'lit':
                v = [Cases(lambda x: drum if is_attr(x, 'drum_channel') else None).value(x) for x in part[1]]
                out = (out or []) + v
            elif part[0] == 'mut' and part[1] == 'remove' and out is not None and len(part) > 2:
                x = Cases(lambda x: drum if is_attr(x, 'drum_channel') else None).value(part[2][0])
                if x not in out:
                    return None
                out = list(out)
                out.remove(x)
            elif part[0] == 'delitem' and out is not None:
                x = Cases(lambda x: drum if is_attr(x, 'drum_channel') else None).value(part[1])
                if not isinstance(x, int) or not -len(out) <= x < len(out):
                    return None
                out = list(out)
                del out[x]
            else:
                return None
        return out if out is None or None not in out else None
    return None


def channel_value(t, index, n, drum, is_drum, el):
    def leaf(x):
        if x in index:
            return n
        if is_attr(x, 'drum_channel'):
            return drum
        if x is mk('truthy', mk('attr', el, 'is_drum')) or x is mk('attr', el, 'is_drum'):
            return is_drum
        if x.op == 'call' and x.a[0] == 'len' and len(x.a[1]) == 1:
            got = sample_list(x.a[1][0], drum)
            return None if got is None else len(got)
        if x.op == 'item':
            got = sample_list(x.a[0], drum)
            i = cs.value(x.a[1]) if got is not None else None
            return got[i] if isinstance(i, int) and -len(got) <= i < len(got) else None
        return None
    cs = Cases(leaf)
    return cs.value(t)


def order_of(ctx, p, keyt):
    """compare(a, b) -> sign or None, for messages given as dicts"""
    fv = next((t for t in subterms(keyt) if t.op == 'lambda'), None) if isinstance(keyt, T) else None
    en = p.engine
    if fv is None or fv not in en.closures:
        return None
    cl = en.closures[fv]
    two = any(t.op == 'call' and 'cmp_to_key' in t.a[0] for t in subterms(keyt))
    A, B = mk('param', '<a>'), mk('param', '<b>')

    def results(args):
        st = p.st.fork()
        st.guards = {}
        for x, d in args:
            for k, v in d.items():
                if isinstance(v, str):
                    st.heap[(x, k)] = const(v)
        return en.call_closure(st, fv, [x for x, _ in args], {}, cl.fr, cl.node)

    def compare(a, b):
        cs = Cases(lambda t: (a if t.a[0] is A else b).get(t.a[1]) if t.op == 'attr' and t.a[0] in (A, B) else None)
        if two:
            got = {cs.value(v) for s, v in results([(A, a), (B, b)]) if cs.lits(s.guards) is not False}
            v = got.pop() if len(got) == 1 else None
            return None if not isinstance(v, (int, float)) else (v > 0) - (v < 0)
        ks = []
        for x, d in ((A, a), (B, b)):
            got = [v for s, v in results([(x, d)]) if cs.lits(s.guards) is not False]
            if len(got) != 1:
                return None
            v = got[0]
            k = tuple(cs.value(y) for y in v.a) if v.op == 'tuple' else cs.value(v)
            ks.append(k)
        if None in ks or any(isinstance(k, tuple) and None in k for k in ks):
            return None
        return (ks[0] > ks[1]) - (ks[0] < ks[1])
    return compare


ON = lambda t, n, v: {'type': 'note_on', 'time': t, 'note': n, 'velocity': v}
ORDERS = [({'type': 'program_change', 'time': 5, 'program': 3}, ON(5, 60, 64), 'a program change and a note'),
          (ON(5, 60, 0), ON(5, 60, 1), 'the end and the start of a note of one pitch'), (ON(5, 60, 0), ON(5, 60, 100), 'the end and the start of a note of one pitch'),
          (ON(4, 60, 100), ON(5, 60, 0), 'messages at two ticks'), (ON(4, 61, 100), ON(5, 60, 0), 'messages at two ticks'),
          ({'type': 'control_change', 'time': 4, 'control': 64, 'value': 127}, {'type': 'program_change', 'time': 5, 'program': 0}, 'messages at two ticks'),
          ({'type': 'program_change', 'time': 5, 'program': 3}, {'type': 'pitchwheel', 'time': 5, 'pitch': -8000}, 'a program change and a bend'),
          ({'type': 'program_change', 'time': 5, 'program': 3}, {'type': 'control_change', 'time': 5, 'control': 7, 'value': 1}, 'a program change and a controller')]


def ordering(ctx, f, p, keyt, what, loc):
    cmp = order_of(ctx, p, keyt)
    for a, b, name in ORDERS:
        x, y = (cmp(a, b), cmp(b, a)) if cmp else (None, None)
        ctx.need(x == -1 and y == 1, 'ordered', '%s:%s' % (f.qualname, name), '%s: %s are not put in their order' % (what, name), loc)


def ended(events, made_at, track, loc):
    """an end_of_track message after the last message is put at the end"""
    for m in messages(events):
        if m[2] == 'end_of_track' and m[1] is track:
            tm = m[3].get('time')
            last = lambda x: x.op == 'attr' and x.a[1] == 'time' and x.a[0].op == 'item' and is_const(x.a[0].a[1], -1)
            v = Cases(lambda x: 100 if last(x) else None).value(tm) if tm is not None else None
            return isinstance(v, (int, float)) and v >= 100
    return False


@prop('P04', 'Serialising is read off its abstract paths: which messages each tempo entry, signature, lyric, note, bend and controller becomes and with which fields, the channel of every '
      'instrument for sample positions and drum channels, the comparison messages are sorted with (interpreted on sample pairs), and the conversion to relative times.',
      assumptions=['time_to_tick gives the nearest tick (P03)', 'list.sort and sorted are stable sorts'])
def p04(ctx):
    ctx.rule('written', 'every tempo entry, signature, lyric, note, bend and controller becomes its messages, once, in the track of its instrument or the timing track')
    ctx.rule('values', 'the messages carry the value, channel and tick of what they are made from')
    ctx.rule('channels', 'drum instruments are on the drum channel, others on a channel of 0-15 that is not, the first fifteen on different ones')
    ctx.rule('ordered', 'the messages of a track are sorted by tick; at one tick programs come first and notes end before the same pitch starts')
    ctx.rule('tracks', 'the timing track and one track per instrument are added to the file, ended after their last message')
    ctx.rule('relative', 'the absolute ticks are turned into differences in every track')
    scales, _ = tempo_attrs(ctx)
    f = ctx.p.func(PM + '.serialize')
    me = mk('param', 'self')
    for p in ctx.run(f.qualname, opaque=(PM + '.time_to_tick',)):
        if p.kind != 'return':
            continue
        loc = f.loc()
        out, tracks = file_of(p)
        # the resolution
        res = None
        for e in p.events:
            if e.a[0] == 'extnew' and e.a[1][0] is out:
                res = kw_of(e.a[1][1].a[2], 'ticks_per_beat', e.a[1][1].a[1][2] if len(e.a[1][1].a[1]) > 2 else None)
            if e.a[0] == 'setattr' and e.a[1][0] is out and e.a[1][1] == 'ticks_per_beat':
                res = e.a[1][2]
        ctx.need(res is mk('attr', me, 'resolution'), 'tracks', f.qualname + ':resolution', 'the ticks per beat of the file are %s' % (short(res, 60) if res else 'not set'), loc)
        own = track_added(p.events, tracks)
        if not ctx.need(len(own) == 1, 'tracks', f.qualname + ':timing', '%d timing tracks are added to the file' % len(own), loc):
            continue
        tt = own[0][1]

        def tempo(el):
            cs = Cases(lambda t: 0.0025 if t is mk('item', el, const(1)) else RES if is_attr(t, 'resolution') else None)
            good = lambda t: isinstance(cs.value(t), int) and abs(cs.value(t) - 0.0025 * RES * 1e6) <= 1
            return [('set_tempo', {'time': lambda t: unwrap(t) is mk('item', el, const(0)), 'tempo': good})]
        per_element(ctx, f, 'tempo changes', p.events, mk('attr', me, scales), tempo, tt, loc)
        fld = lambda el, n: (lambda t: unwrap(t) is mk('attr', el, n))
        per_element(ctx, f, 'time signatures', p.events, mk('attr', me, 'time_signature_changes'), lambda el: [('time_signature', {
            'numerator': fld(el, 'numerator'), 'denominator': fld(el, 'denominator'), 'time': lambda t: at_tick(t, mk('attr', el, 'time'))})], tt, loc)

        def keyname(el):
            def test(t):
                if t.op == 'item' and unwrap(t.a[1]) is mk('attr', el, 'key_number'):
                    names = [x.a[0] if x.op == 'const' else None for x in t.a[0].a] if t.a[0].op in ('list', 'tuple') else []
                    return [key_number(n) for n in names] == list(range(24))
                return t.op == 'call' and t.a[0].endswith('key_number_to_mido_key_name')
            return [('key_signature', {'key': test, 'time': lambda t: at_tick(t, mk('attr', el, 'time'))})]
        per_element(ctx, f, 'key signatures', p.events, mk('attr', me, 'key_signature_changes'), keyname, tt, loc)
        per_element(ctx, f, 'lyrics', p.events, mk('attr', me, 'lyrics'), lambda el: [('lyrics', {'text': fld(el, 'text'), 'time': lambda t: at_tick(t, mk('attr', el, 'time'))})], tt, loc)
        # what else is in the timing track
        ts = mk('attr', me, 'time_signature_changes')
        extra = [m for m in messages(p.events) if m[1] is tt and m[2] != 'end_of_track']
        for have, first, want in ((False, None, 1), (True, 0.5, 1), (True, 0.0, 0)):
            def leaf(t):
                if t is mk('truthy', ts) or t.op == 'truthy' and t.a[0].op == 'call' and t.a[0].a[0] == 'len' and t.a[0].a[1][0] is ts:
                    return have
                if t.op == 'call' and t.a[0] == 'len' and t.a[1][0] is ts:
                    return 2 if have else 0
                if t.op == 'call' and t.a[0] in ('min',) and t.a[1] and t.a[1][0].op == 'map' and t.a[1][0].a[0] is ts:
                    return first
                if t.op == 'any' and t.a[0] is ts:
                    # the first is the earliest, others come later
                    el = mk('elem', ts, t.a[2])
                    if not have:
                        return False
                    got = [[Cases({mk('attr', el, 'time'): x}.get).lits(g) for g in t.a[1]] for x in (first, first + 3)]
                    return True if any(True in g for g in got) else None if any(None in g for g in got) else False
                return None
            if Cases(leaf).lits(p.guards) is False:
                continue
            good = len(extra) == want and all(m[2] == 'time_signature' and [Cases(lambda t: None).value(m[3].get(k, NONE)) for k in ('time', 'numerator', 'denominator')] ==
                                              [0, 4, 4] for m in extra)
            ctx.need(good, 'written', f.qualname + ':default', 'with %s the timing track starts with %s' % (
                'no time signature' if not have else 'a first time signature at %s' % first, [m[2] for m in extra]), loc)
        sorts = [e for e in p.events if e.a[0] == 'mut' and e.a[1][1] == 'sort' and as_new(e.a[1][0]) is tt]
        ctx.need(len(sorts) == 1, 'ordered', f.qualname + ':timing', 'the timing track is sorted %d times' % len(sorts), loc)
        for e in sorts:
            ordering(ctx, f, p, kw_of(e.a[1][3], 'key'), 'timing track', eloc(e))
            later = p.events[p.events.index(e):]
            ctx.need(all(e.a[0] != 'loop' or not messages(q.a[1]) or messages(q.a[1])[0][1] is not tt for e in later if e.a[0] == 'loop' for q in e.a[1][0].a[3]),
                     'ordered', f.qualname + ':timing', 'messages are added to the timing track after it is sorted', loc)
        ctx.need(ended(p.events, None, tt, loc), 'tracks', f.qualname + ':timing end', 'the timing track is not ended after its last message', loc)
        first = own[0][0] < min([i for i, e in enumerate(p.events) if e.a[0] == 'loop' and any(track_added(lp.a[1], tracks) for lp in e.a[1][0].a[3])], default=0)
        ctx.need(first, 'tracks', f.qualname + ':first', 'the timing track is not the first track of the file', loc)
        instruments(ctx, f, p, tracks, loc)
        relative(ctx, f, p, tracks, loc)
    for r, n in (('written', 30), ('values', 20), ('channels', 10), ('ordered', 16), ('tracks', 6), ('relative', 1)):
        ctx.floor(r, n)


def counters(L):
    """loop variables that count the iterations from 0"""
    out = set()
    for v, init in dict(L.a[4]).items():
        ups = [dict(lp.a[3]).get(v) for lp in L.a[3] if lp.a[2].a[0] in ('fall', 'continue')]
        if is_const(init, 0) and ups and all(u is not None and Cases(lambda t: 7 if t is v else None).value(u) == 8 for u in ups):
            out.add(v)
    return out


def instruments(ctx, f, p, tracks, loc):
    me = mk('param', 'self')
    Ls = [L for L in top_loops(p.events) if L.a[0] is mk('attr', me, 'instruments') and any(track_added(lp.a[1], tracks) for lp in L.a[3])]
    if len(Ls) != 1:
        return ctx.bad('tracks', f.qualname + ':instruments', '%d loops add a track per instrument' % len(Ls), loc)
    L, = Ls
    el, index = mk('elem', L.a[0], L.a[2]), {mk('idx', L.a[0], L.a[2])} | counters(L)
    ctx.need(not any(o[0] not in ('sorted', 'reversed') for o in L.a[1]), 'tracks', f.qualname + ':instruments', 'not every instrument is written', loc)
    drum_atom = mk('truthy', mk('attr', el, 'is_drum'))
    for lp in L.a[3]:
        if lp.a[2].a[0] == 'raise':
            continue
        added = track_added(lp.a[1], tracks)
        if not ctx.need(lp.a[2].a[0] in ('fall', 'continue') and len(added) == 1, 'tracks', f.qualname + ':instruments',
                        'an instrument adds %d tracks to the file' % len(added), loc):
            continue
        final = added[0][1]
        head = [m for m in messages(lp.a[1]) if m[2] == 'program_change']
        if not ctx.need(len(head) == 1, 'written', f.qualname + ':program', 'an instrument has %d program changes' % len(head), loc):
            continue
        track, chan = head[0][1], head[0][3].get('channel', NONE)
        ctx.need(unwrap(head[0][3].get('program', NONE)) is mk('attr', el, 'program') and Cases(lambda t: None).value(head[0][3].get('time', const(0))) == 0, 'values',
                 f.qualname + ':program', 'the program change is %s' % {k: short(v, 50) for k, v in head[0][3].items()}, eloc(head[0][0]))
        named = holds(lp.a[0], lambda a, v: v and mk('attr', el, 'name') in subterms(a))
        unnamed = holds(lp.a[0], lambda a, v: not v and mk('attr', el, 'name') in subterms(a))
        names = [m for m in messages(lp.a[1]) if m[2] == 'track_name']
        ctx.need(len(names) == 1 and unwrap(names[0][3].get('name', NONE)) is mk('attr', el, 'name') or not names and unnamed and not named, 'written',
                 f.qualname + ':name', 'a named instrument has %d track names' % len(names), loc)
        others = [m for m in messages(lp.a[1]) if m[2] not in ('program_change', 'track_name', 'end_of_track', 'instrument_name')]
        ctx.need(not others, 'written', f.qualname + ':program', 'an instrument starts with a %s message' % [m[2] for m in others][:1], loc)
        cs = Cases(lambda t: None)
        for is_drum in (True, False):
            if Cases(lambda t: is_drum if t is drum_atom else None).lits(lp.a[0]) is False:
                continue
            for drum in (9, 3):
                got = [channel_value(chan, index, n, drum, is_drum, el) for n in range(40)]
                if is_drum:
                    good = all(g == drum for g in got)
                else:
                    good = all(isinstance(g, int) and 0 <= g <= 15 and g != drum for g in got) and len(set(got[:15])) == 15
                ctx.need(good, 'channels', f.qualname + (':drum' if is_drum else ':melodic'), '%s instruments are put on channel %s when drums are on channel %d' % (
                    'drum' if is_drum else 'the melodic', sorted(set(got), key=str)[:4] if is_drum else 'numbers ' + str(got[:16]), drum), loc)
        ch = lambda t: t is chan
        fld = lambda x, n: (lambda t: unwrap(t) is mk('attr', x, n))
        tick = lambda x, n: (lambda t: at_tick(t, mk('attr', x, n)))
        zero = lambda t: cs.value(t) == 0

        def note(x):
            return [('note_on', {'time': tick(x, 'start'), 'channel': ch, 'note': fld(x, 'pitch'), 'velocity': fld(x, 'velocity')}),
                    ('note_on', {'time': tick(x, 'end'), 'channel': ch, 'note': fld(x, 'pitch'), 'velocity': zero})]

        def note_off(x):
            return [note(x)[0], ('note_off', {'time': tick(x, 'end'), 'channel': ch, 'note': fld(x, 'pitch')})]
        uses_off = any(m[2] == 'note_off' for I in top_loops(lp.a[1]) for q in I.a[3] for m in messages(q.a[1]))
        evs = lp.a[1]
        per_element(ctx, f, 'notes', evs, mk('attr', el, 'notes'), note_off if uses_off else note, track, loc)
        per_element(ctx, f, 'pitch bends', evs, mk('attr', el, 'pitch_bends'),
                    lambda x: [('pitchwheel', {'time': tick(x, 'time'), 'channel': ch, 'pitch': fld(x, 'pitch')})], track, loc)
        per_element(ctx, f, 'control changes', evs, mk('attr', el, 'control_changes'),
                    lambda x: [('control_change', {'time': tick(x, 'time'), 'channel': ch, 'control': fld(x, 'number'), 'value': fld(x, 'value')})], track, loc)
        ctx.need(len({m[1] for m in messages(lp.a[1]) if m[2] != 'end_of_track'}) == 1 and ended(lp.a[1], None, final, loc), 'tracks', f.qualname + ':end',
                 'the track of an instrument is not ended after its last message', loc)
        # sorted: in place, or the track added is a sorted copy of the one filled
        keyt = None
        if final is track:
            for e in lp.a[1]:
                if e.a[0] == 'mut' and e.a[1][1] == 'sort' and as_new(e.a[1][0]) is track:
                    keyt = kw_of(e.a[1][3], 'key')
        else:
            d = [dargs(e)[2][0] for e in lp.a[1] if e.a[0] == 'mut' and e.a[1][1] == 'append' and e.a[1][0] is tracks]
            for t in subterms(d[0]):
                if t.op == 'sorted' and as_new(t.a[0]) is track:
                    keyt = t.a[1]
                if t.op == 'content':
                    for part in t.a[1]:
                        if part[0] == 'copy' and as_new(part[1]) is track:
                            for o in part[2]:
                                if o[0] == 'sorted' and (o[2] is False or is_const(o[2], False)):
                                    keyt = o[1]
        ctx.need(keyt is not None, 'ordered', f.qualname + ':instruments', 'the track added is not the sorted track of the messages', loc)
        if keyt is not None:
            ordering(ctx, f, p, keyt, 'track of an instrument', loc)
        swaps(ctx, f, lp, final, loc)


def swaps(ctx, f, lp, final, loc):
    """whatever is moved afterwards stays at its tick"""
    for I in top_loops(lp.a[1]):
        for q in I.a[3]:
            st = [e for e in q.a[1] if e.a[0] == 'store' and as_new(e.a[1][0]) is final]
            if not st:
                continue
            vals = [e.a[1][2] for e in st]
            cond = holds(q.a[0], lambda a, v: v and a.op == 'eq' and all(x.op == 'attr' and x.a[1] == 'time' for x in a.a) and {x.a[0] for x in a.a} == set(vals))
            ctx.need(len(st) == 2 and len(set(vals)) == 2 and all(v.op == 'elem' for v in vals) and cond, 'written', f.qualname + ':moved',
                     'messages of a sorted track are overwritten', eloc(st[0]))


def relative(ctx, f, p, tracks, loc):
    good = False
    for i, e in enumerate(p.events):
        if e.a[0] != 'loop' or e.a[1][0].a[0] is not tracks or e.a[1][0].a[1]:
            continue
        L = e.a[1][0]
        ok = len(L.a[3]) >= 1
        for lp in L.a[3]:
            Is = [I for I in top_loops(lp.a[1]) if I.a[0] is mk('elem', L.a[0], L.a[2]) and not I.a[1]]
            ok = ok and len(Is) == 1 and lp.a[2].a[0] in ('fall', 'continue')
            for I in Is:
                x = mk('elem', I.a[0], I.a[2])
                for ip in I.a[3]:
                    sets = [s for s in ip.a[1] if s.a[0] == 'setattr' and s.a[1][0] is x and s.a[1][1] == 'time']
                    ups = dict(ip.a[3]) if ip.a[3] else {}
                    fine = False
                    for v in ups:
                        cs = Cases(lambda t: 105 if t is mk('attr', x, 'time') else 100 if t is v else None)
                        fine = fine or (len(sets) == 1 and cs.value(dargs(sets[0])[2]) == 5 and cs.value(ups[v]) == 105 and is_const(dict(I.a[4]).get(v, NONE), 0))
                    ok = ok and fine and ip.a[2].a[0] in ('fall', 'continue')
        later = [x for x in p.events[i + 1:] if x.a[0] == 'mut' and x.a[1][0] is tracks]
        good = good or ok and not later
    ctx.need(good, 'relative', f.qualname, 'the times of the messages are not turned into differences after all tracks are complete', loc)


# ------------------------------------------------------------------ P05
META = {'key_signature': ('KeySignature', 'key_signature_changes', {'key_number': 'key'}),
        'time_signature': ('TimeSignature', 'time_signature_changes', {'numerator': 'numerator', 'denominator': 'denominator'}),
        'lyrics': ('Lyric', 'lyrics', {'text': 'text'})}
META_SIG = {'KeySignature': ('key_number', 'time'), 'TimeSignature': ('numerator', 'denominator', 'time'), 'Lyric': ('text', 'time')}
KEY_NUMBER = ('pretty_midi.key_name_to_key_number', 'pretty_midi.utilities.key_name_to_key_number')


def first_track(t, tracks):
    """t walks the first track"""
    return t.op == 'item' and t.a[0] is tracks and t.a[1] is const(0)


@prop('P05', 'Loading a file is analysed per kind of event of the first track: the key signature, time signature or lyric it becomes, its arguments and the list it is put into; the name '
      'an instrument is created with is traced to the table the track names are stored in, and the file opened to the argument.',
      assumptions=['event ticks are absolute (P01, rule ticks)', 'key_name_to_key_number knows the key names of MIDI files'])
def p05(ctx):
    ctx.rule('meta', 'every key signature, time signature and lyric of the first track becomes one entry of its list, and no other event does')
    ctx.rule('values', 'the entry has the values of the event and the time of its tick')
    ctx.rule('name', 'an instrument is named after its track')
    ctx.rule('source', 'the file loaded is the one given')
    f, got = loads(ctx)
    if not got:
        raise Unproved('from_file has no loop over the events of the tracks that makes notes')
    src = mk('param', f.params[1])
    kinds = set()
    for p, tr, ins in got:
        tracks = tr.outer.a[0]
        data = tracks.a[0] if tracks.op == 'attr' and tracks.a[1] == 'tracks' else None
        given = holds(p.guards, lambda a, q: q and a.op == 'isinst' and a.a[0] is src and 'MidiFile' in show(a))
        text = holds(p.guards, lambda a, q: q and a.op == 'isinst' and a.a[0] is src and 'MidiFile' not in show(a))
        nogiven = holds(p.guards, lambda a, q: not q and a.op == 'isinst' and a.a[0] is src and 'MidiFile' in show(a))
        c = data
        while c is not None and c.op == 'res':
            c = c.a[0]
        if data is src:
            ctx.need(given, 'source', f.qualname, 'the argument is taken for a loaded file, whatever it is', f.loc())
            kinds.add('given')
        else:
            made = {e.a[1][0]: e.a[1][1] for e, _ in walk(p.events) if e.a[0] == 'extnew'}
            c = made.get(c, c)
            ok = c is not None and c.op == 'call' and c.a[0].split('.')[-1] == 'MidiFile'
            kw = dict(c.a[2]) if ok else {}
            a = {'filename': kw.get('filename', c.a[1][0] if ok and c.a[1] else None), 'file': kw.get('file', c.a[1][1] if ok and len(c.a[1]) > 1 else None)} if ok else {}
            a = {k: v for k, v in a.items() if v is not None and v is not NONE}
            ok = ok and len(a) == 1 and list(a.values()) == [src] and set(kw) <= {'file', 'filename', 'charset', 'debug'}
            ok = ok and not given and (text if 'filename' in a else holds(p.guards, lambda x, q: x.op == 'isinst' and x.a[0] is src and (q != ('str' in show(x)))))
            ctx.need(ok, 'source', f.qualname, 'the file loaded is %s' % short(c, 80), f.loc())
            kinds |= set(a)
        # metadata
        lists = {}
        for e in p.events:
            if e.a[0] == 'setattr' and e.a[1][0].op == 'param' and e.a[1][1] in {m[1] for m in META.values()}:
                lists[e.a[1][1]] = dargs(e)[2], e.a[1][2]
        spots = {}                                     # event of the first track -> [(guards, made class, arguments, list)]
        walked = {}
        for e, ch in walk(p.events):
            if e.a[0] != 'mut' or e.a[1][1] not in ('append', 'insert') or not ch:
                continue
            L, lp = ch[-1]
            objs = made_here(lp.a[1])
            o = e.a[1][2][-1]
            if o in objs and objs[o].a[0].split('.')[-1] in META_SIG:
                to = [n for n, (v, raw) in lists.items() if same_obj(e.a[1][0], raw) or e.a[1][0] is mk('attr', mk('param', 'self'), n)]
                walked.setdefault(objs[o].a[0].split('.')[-1], []).append((L, lp, objs, o, to, ch, e))
        for typ, (cls, name, fields) in META.items():
            key = '%s:%s' % (f.qualname, typ)
            v = lists.get(name)
            if not ctx.need(v is not None, 'meta', key, 'the list %s is never set' % name, f.loc()):
                continue
            hits = walked.get(cls, [])
            v = v[0]
            if not hits and v.op == 'map':
                ok = first_track(v.a[0], tracks) and all(o[0] not in ('set', 'slice') for o in v.a[1])
                ctx.need(ok, 'meta', key, 'the events come from %s' % short(v.a[0], 60), f.loc())
                el = mk('elem', v.a[0], v.a[3])
                for t2 in list(EVENTS) + list(META):
                    cs = Cases({mk('attr', el, 'type'): EVENTS.get(t2, (t2,))[0]}.get)
                    n = sum(cs.lits(g) is not False for g, _ in v.a[2])
                    ctx.need(n == (t2 == typ), 'meta', key, 'a %s event makes %d entries' % (t2, n), f.loc())
                for g, x in v.a[2]:
                    objs = {e.a[1][0]: e.a[1][1] for e, _ in walk(p.events) if e.a[0] == 'extnew'}
                    meta_values(ctx, key, tr, el, x if x.op == 'call' else objs.get(x), cls, fields, f)
                continue
            Ls = {L for L, *_ in hits}
            if not ctx.need(len(Ls) == 1 and all(len(h[5]) == 1 for h in hits), 'meta', key, 'the events are walked %d times' % len(Ls), f.loc()):
                continue
            L, = Ls
            ctx.need(first_track(L.a[0], tracks) and all(o[0] not in ('set', 'slice') for o in L.a[1]), 'meta', key, 'the events come from %s' % short(L.a[0], 60), f.loc())
            el = mk('elem', L.a[0], L.a[2])
            for t2 in list(EVENTS) + list(META):
                cs = Cases({mk('attr', el, 'type'): EVENTS.get(t2, (t2,))[0]}.get)
                for lp in L.a[3]:
                    if cs.lits(lp.a[0]) is False or lp.a[2].a[0] == 'raise':
                        continue
                    n = sum(h[1] is lp for h in hits)
                    ctx.need(n == (t2 == typ) and lp.a[2].a[0] in ('fall', 'continue'), 'meta', key, 'a %s event makes %d entries or ends the loop' % (t2, n), f.loc())
            for _, lp, objs, o, to, ch, e in hits:
                ctx.need(to == [name], 'meta', key, 'the entry goes into %s' % (to or short(e.a[1][0], 60)), eloc(e))
                meta_values(ctx, key, tr, el, objs[o], cls, fields, f)
        # names
        if ins.map is None:
            ctx.bad('name', f.qualname, 'no instruments are listed', f.loc())
            continue
        tables = set()
        for e, ch in walk(p.events):
            if e.a[0] == 'store' and same_cell(e.a[1][0], ins.map) and e.a[1][2].op == 'new':
                c = made_here(ch[-1][1].a[1] if ch else p.events).get(e.a[1][2])
                d = dict(zip(('program', 'is_drum', 'name'), c.a[1])) if c is not None else {}
                d.update(dict(c.a[2]) if c is not None else {})
                nm = d.get('name')
                late = [x for x in walk(p.events) if x[0].a[0] == 'setattr' and x[0].a[1][0] is e.a[1][2] and x[0].a[1][1] == 'name']
                s = slot(nm) if nm is not None and not late else None
                if blank(nm) and not late:                # the default of a table that has no name for the track
                    absent = [x for _, q in ch for x, v in all_lits(q.a[0]) if x.op == 'in' and x.a[0] is tr.index and not v]
                    s = (absent[0].a[1], tr.index) if absent else None
                ok = s is not None and s[1] is tr.index
                ctx.need(ok, 'name', '%s:instrument' % f.qualname, 'an instrument is named %s' % (short(nm, 60) if nm is not None else 'nothing'), eloc(e))
                if ok:
                    tables.add(as_new(s[0]))
        if not ctx.need(len(tables) == 1, 'name', f.qualname, 'there are %d tables of track names' % len(tables), f.loc()):
            continue
        N, = tables
        for t2 in EVENTS:
            cs = tr.case(t2)
            for lp in tr.possible(tr.L, cs):
                st = [e for e, ch in walk(lp.a[1]) if e.a[0] in ('store', 'delitem') and same_obj(e.a[1][0], N) and
                      not (e.a[0] == 'store' and e.a[1][1] is tr.index and blank(e.a[1][2]))]
                if t2 != 'track_name':
                    ctx.need(not st, 'name', '%s:%s' % (f.qualname, t2), 'a %s event renames a track' % t2, f.loc())
                else:
                    ok = len(st) == 1 and st[0].a[0] == 'store' and st[0].a[1][1] is tr.index and st[0].a[1][2] is tr.at('name')
                    ctx.need(ok, 'name', '%s:%s' % (f.qualname, t2), 'the name of a track is not noted', f.loc())
    for k in ('given', 'filename', 'file'):
        ctx.need(k in kinds, 'source', '%s:%s' % (f.qualname, k), 'a source of this kind cannot be loaded', f.loc())
    # the constructor loads what it is given
    g = ctx.p.func(PM + '.__init__')
    for p in ctx.run(g.qualname, opaque=(PM + '.from_file',)):
        if p.kind != 'return':
            continue
        arg = mk('param', 'midi_file')
        calls = [args(e)[0] for e, ch in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == PM + '.from_file']
        some = holds(p.guards, lambda a, q: not q and a.op == 'isnone' and a.a[0] is arg or q and a.op == 'truthy' and a.a[0] is arg)
        ctx.need(len(calls) == int(some) and all(fc_arg(c, 'midi_file') is arg for c in calls) and (some or holds(p.guards, lambda a, q: a.op in ('isnone', 'truthy') and a.a[0] is arg)),
                 'source', g.qualname, 'a given file is loaded %d times' % len(calls), g.loc())
    ctx.floor('meta', 20)
    ctx.floor('values', 3)
    ctx.floor('name', 10)
    ctx.floor('source', 5)


def blank(t):
    return t is not None and (t is const('') or t.op == 'call' and t.a[0] == 'str' and not t.a[1])


def meta_values(ctx, key, tr, el, c, cls, fields, f):
    if not ctx.need(c is not None and c.op == 'call' and c.a[0].split('.')[-1] == cls, 'values', key, 'the entry is %s' % (short(c, 80) if c is not None else 'something else'), f.loc()):
        return
    a = dict(zip(META_SIG[cls], c.a[1]))
    a.update(dict(c.a[2]))
    for n, s in fields.items():
        v = a.get(n)
        want = mk('attr', el, s)
        ok = v is want or n == 'key_number' and v is not None and v.op == 'call' and v.a[0] in KEY_NUMBER and v.a[1] == (want,)
        ctx.need(ok and (n != 'key_number' or v is not want), 'values', '%s.%s' % (key, n), 'it is %s' % (short(v, 80) if v is not None else 'not given'), f.loc())
    t = a.get('time')
    ctx.need(isinstance(t, T) and tr.seconds(t, mk('attr', el, 'time')), 'values', '%s.time' % key, 'it is %s' % (short(t, 80) if t is not None else 'not given'), f.loc())


# ---------------------------------------------------------------- P07

MOVED = {('instruments', 'notes', 'start'), ('instruments', 'notes', 'end'), ('instruments', 'pitch_bends', 'time'), ('instruments', 'control_changes', 'time'),
         ('key_signature_changes', 'time'), ('lyrics', 'time'), ('time_signature_changes', 'time')}


class Flat:
    """lists that go through the lists of one object: which lists, and which field of each element"""

    def __init__(self, p, obj):
        self.p, self.obj = p, obj

    def over(self, t):
        """the lists whose elements t holds, in order, or None"""
        if t.op == 'attr' and t.a[0] is self.obj:
            return (t.a[1],)
        if t.op == 'attr' and t.a[0].op == 'elem':
            b = self.over(t.a[0].a[0])
            return b + (t.a[1],) if b else None
        r = self.flat(t)
        return r[0] if r and r[1] is None else None

    def value(self, v, base, lid):
        b = self.over(base)
        if b is None:
            return None
        if v.op == 'elem' and v.a[0] is base:
            return b, None
        if v.op == 'attr' and v.a[0].op == 'elem' and v.a[0].a[0] is base:
            return b, v.a[1]
        if v.op == 'copyof':
            return self.value(v.a[1], base, lid)
        return None

    def flat(self, t):
        if t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list', 'tuple', 'iter', 'numpy.fromiter') and t.a[1]:
            r = self.flat(t.a[1][0])
            if r is None:
                b = self.over(t.a[1][0]) if t.a[1][0].op == 'attr' else None
                r = (b, None) if b else None
            return r
        if t.op == 'map' and not t.a[1] and len(t.a[2]) == 1:
            (g, v), = t.a[2]
            return self.value(v, t.a[0], t.a[3]) if not conj(g) else None
        parts = None
        if t.op == 'new':
            parts = self.p.st.cont.get(t)
        elif t.op == 'content':
            parts = t.a[1]
        if parts is None:
            return None
        me = t if t.op == 'new' else as_new(t)
        parts = [q for q in parts if not (q[0] == 'lit' and not q[1])]
        if len(parts) == 1 and parts[0][0] in ('copy', 'extend'):
            return self.flat(parts[0][1])
        if len(parts) != 1 or parts[0][0] != 'loop':
            return None
        return self.loop(parts[0][1], me)

    def loop(self, L, me):
        if L.a[1]:
            return None
        got = set()
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            found = []
            for e in lp.a[1]:
                if e.a[0] == 'loop':
                    if any(kind(x) == 'mut' and same_obj(args(x)[0], me) for x, _ in walk([e])):
                        found.append(self.loop(e.a[1][0], me))
                elif kind(e) == 'mut' and same_obj(args(e)[0], me):
                    x = args(e)[2][0]
                    if args(e)[1] == 'extend' and x.op == 'attr' and x.a[0].op == 'elem' and x.a[0].a[0] is L.a[0]:
                        b = self.over(x)
                        found.append((b, None) if b else None)
                    else:
                        found.append(self.value(x, L.a[0], L.a[2]) if args(e)[1] == 'append' else None)
            if len(found) != 1 or not normal(lp):
                return None
            got.add(found[0])
        return got.pop() if len(got) == 1 else None


def clipped(v):
    """x, also when written so that it is not below zero"""
    if v.op == 'bin' and v.a[0] == '*':
        for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if y.op == 'lt' and y.a[0] is const(0) and y.a[1] is x:
                return x
    if v.op == 'call' and v.a[0] in ('max', 'numpy.maximum') and len(v.a[1]) == 2 and any(x.op == 'const' and x.a[0] == 0 for x in v.a[1]):
        return next(x for x in v.a[1] if not (x.op == 'const' and x.a[0] == 0))
    if v.op == 'mm' and v.a[0] == 'max':
        rest = [x for x in v.a[1] if not (x.op == 'const' and x.a[0] == 0)]
        if len(rest) == 1:
            return rest[0]
    if v.op == 'call' and v.a[0] == 'float' and len(v.a[1]) == 1:
        return clipped(v.a[1][0])
    return v


def as_content(p, t):
    v = p.engine.deref(p.st, t)
    return v if v.op != 'new' else t


def tallies(ch, t):
    """t counts the iterations of the innermost loop from 0, through all iterations of the loops around it"""
    inner = None
    for i, (L, lp) in reversed(list(enumerate(ch))):
        init = dict(L.a[4]).get(t)
        for q in L.a[3]:
            if out_kind(q) == 'raise':
                continue
            u = dict(q.a[3]).get(t)
            if u is None or not normal(q):
                return False
            if i == len(ch) - 1:
                if Cases(lambda x: 7 if x is t else None).value(u) != 8:
                    return False
            elif u.op != 'lo' or u.a[0] is not ch[i + 1][0] and u.a[0].a[0] is not ch[i + 1][0].a[0] or u.a[1] is not inner:
                return False
        if init is None:
            return False
        if is_const(init, 0):
            return i == 0
        if init.op != 'lv':
            return False
        inner, t = t, init
    return False


def filters(fl, x, found):
    """the conditions under which elements of lists are taken, in all the passes of a value"""
    if isinstance(x, (tuple, list, frozenset)):
        for y in x:
            filters(fl, y, found)
        return
    if not isinstance(x, T):
        return
    if x.op == 'item' and x.a[1].op == 'slice' and x.a[1].a[0] is const(-1) and x.a[1].a[1] in (NONE, None):
        inner = []
        filters(fl, x.a[0], inner)
        found.extend((o, g, True) for o, g, _ in inner)
        return
    if x.op == 'item' and x.a[1] is const(-1):
        inner = []
        filters(fl, x.a[0], inner)
        found.extend((o, g, True) for o, g, _ in inner)
        return
    if x.op == 'item' and x.a[1].op == 'item' and x.a[1].a[1] is const(-1):          # base[[i for i, .. in enumerate(base) if ..][-1]]
        at = x.a[1].a[0]
        at = as_content(fl.p, at)
        if at.op == 'map' and at.a[0] is x.a[0]:
            for g, v in at.a[2]:
                o = fl.over(at.a[0]) if v.op == 'idx' and v.a[0] is at.a[0] else None
                found.append((o, conj(g), True))
        return
    if x.op == 'lo' and x.a[1].op == 'lv':
        # the last element of a pass that a variable was set to
        L, var = x.a
        for lp in L.a[3]:
            v = dict(lp.a[3]).get(var, var)
            if v is var:
                continue
            r = fl.value(v, L.a[0], L.a[2])
            found.append((r[0] if r and r[1] is None and normal(lp) else None, conj(lp.a[0]), True))
        return
    if x.op == 'map':
        for g, v in x.a[2]:
            r = fl.value(v, x.a[0], x.a[3])
            found.append((r[0] if r and r[1] is None else None, conj(g), False))
        return
    if x.op == 'content':
        for q in x.a[1]:
            if q[0] == 'loop':
                L = q[1]
                for lp in L.a[3]:
                    for e in lp.a[1]:
                        if kind(e) == 'mut' and same_obj(args(e)[0], as_new(x)):
                            r = fl.value(args(e)[2][0], L.a[0], L.a[2])
                            found.append((r[0] if r and r[1] is None else None, conj(lp.a[0]), False))
            elif q[0] in ('copy', 'extend', 'lit', 'append', 'cell'):
                filters(fl, q[1:], found)
        return
    if x.op in ('list', 'tuple', '+', 'bin', 'call', 'sorted', 'copyof', 'res', 'new'):
        filters(fl, x.a, found)


@prop('P07', 'Every path of adjust_times is enumerated; each assignment of a time is matched with one place of one interpolation over '
      'the same field of the same lists, passes over the lists of all instruments being reduced to the lists they go through, and the '
      'conditions under which notes and events stay are compared literal by literal.')
def p07(ctx):
    ctx.rule('moved', 'every start, end and event time becomes the interpolation of that very time')
    ctx.rule('mapping', 'all times are moved by one and the same mapping, from the original to the new times')
    ctx.rule('notes', 'exactly the notes that lie within the original times stay')
    ctx.rule('valid', 'notes that no longer last are removed from every instrument after they were moved')
    ctx.rule('events', 'exactly the events strictly between the new ends, and the last one at the new start, stay')
    f = ctx.p.func(PM + '.adjust_times')
    obj, a, b = mk('param', 's'), mk('param', 'a'), mk('param', 'b')
    n = 0
    last_one = set()
    for p in ctx.drive(PM.rpartition('.')[0], 'def use(s: %s, a, b):\n    return s.adjust_times(a, b)\n' % PM.rpartition('.')[2],
                       opaque=tuple(PM + '.' + x for x in ('get_downbeats', '_update_tick_to_time', 'get_tempo_changes', 'time_to_tick'))):
        if p.kind != 'return':
            continue
        n += 1
        fl = Flat(p, obj)
        maps, done, kept, taken = set(), [], None, {}
        for e, ch in walk(p.events):
            if kind(e) != 'setattr' or args(e)[1] not in ('time', 'start', 'end'):
                continue
            x, field, v = args(e)
            if x.op != 'elem':
                continue
            L = ch[-1][0] if ch else None
            zipped = L is not None and L.a[0].op == 'zip'
            base = x.a[0]
            names = fl.over(base)
            if names is None or names + (field,) not in MOVED:
                ctx.bad('moved', 'adjust_times: %s' % field, 'the %s of %s is set' % (field, short(x, 70)), f.loc())
                continue
            done.append(names + (field,))
            what = 'adjust_times: %s' % '.'.join(names + (field,))
            ctx.need(not conj(ch[-1][1].a[0]) if ch else False, 'moved', what, 'it is only moved under a condition', f.loc())
            v = clipped(v)
            pick = None
            if v.op == 'item' and v.a[1].op == 'idx' and L is not None and v.a[1].a[0] is L.a[0] and base is L.a[0]:
                pick = v.a[0]
            elif v.op == 'item' and v.a[1].op == 'lv' and base is L.a[0] and tallies(ch, v.a[1]):
                pick = v.a[0]
            elif v.op == 'elem' and zipped and v.a[0] in L.a[0].a and base in L.a[0].a:
                pick = v.a[0]
            elif v.op == 'call' and v.a[0] == 'numpy.interp' and v.a[1] and v.a[1][0].op == 'attr' and v.a[1][0].a[0] is x and v.a[1][0].a[1] == field:
                maps.add(tuple(v.a[1][1:]) + tuple(v.a[2]))
                ctx.ok('moved')
                continue
            if pick is None or pick.op != 'call' or pick.a[0] != 'numpy.interp' or len(pick.a[1]) < 1:
                ctx.bad('moved', what, 'it becomes %s' % short(v, 100), f.loc())
                continue
            src = fl.flat(pick.a[1][0])
            ctx.need(src == (names, field), 'moved', what, 'it becomes the interpolation of %s' % ('.'.join(src[0] + ((src[1],) if src[1] else ())) if src else short(pick.a[1][0], 70)), f.loc())
            maps.add(tuple(pick.a[1][1:]) + tuple(pick.a[2]))
        for k in sorted(MOVED):
            ctx.need(done.count(k) == 1, 'moved', 'adjust_times: %s' % '.'.join(k), 'it is moved %s' % ('never' if k not in done else 'more than once'), f.loc())
        # the mapping
        if len(maps) != 1 or len(next(iter(maps))) != 2:
            ctx.bad('mapping', 'adjust_times', 'times are moved by %d mappings' % len(maps), f.loc())
            continue
        old, new = next(iter(maps))
        ctx.need(mentions(old, a) and not mentions(old, b), 'mapping', 'adjust_times: from', 'times are moved from %s' % short(old, 80), f.loc())
        uniq = [t for t in subterms(new) if t.op == 'item' and t.a[0].op == 'call' and t.a[0].a[0].endswith('asarray') and t.a[0].a[1][0] is b]
        ctx.need(bool(uniq), 'mapping', 'adjust_times: to', 'times are moved to %s' % short(new, 80), f.loc())
        ends = {(old, 0): mk('item', old, const(0)), (old, -1): mk('item', old, const(-1)), (new, 0): mk('item', new, const(0)), (new, -1): mk('item', new, const(-1))}

        def lit(side, q, fld, bound, g):
            want = (bound, fld)
            for x, s in g:
                if x.op == 'lt' and s is q:
                    l, r = x.a
                    if side == 'below' and l.op == 'attr' and l.a[1] == fld and r is bound or side == 'above' and r.op == 'attr' and r.a[1] == fld and l is bound:
                        return True
            return False
        # notes that stay
        for e, ch in walk(p.events):
            if kind(e) == 'setattr' and args(e)[1] == 'notes' and ch:
                got = []
                filters(fl, dargs(e)[2], got)
                mine = fl.over(mk('attr', args(e)[0], 'notes'))
                for o, g, last in got:
                    ok = o == ('instruments', 'notes') and mine == o and not last and len(g) == 2 and lit('below', False, 'start', ends[(old, 0)], g) and lit('above', False, 'end', ends[(old, -1)], g)
                    ctx.need(ok, 'notes', 'adjust_times: notes', 'notes stay when %s' % (' and '.join(show_lit(l) for l in g)[:120] or 'ever'), f.loc())
                kept = len(got) == 1
        ctx.need(bool(kept), 'notes', 'adjust_times: notes', 'the notes that stay are not chosen in one pass', f.loc())
        gone = last = None
        for i, (e, ch) in enumerate(walk(p.events)):
            if kind(e) == 'setattr' and args(e)[1] in ('start', 'end'):
                last = i
            if kind(e) == 'mut' and args(e)[1] == 'remove_invalid_notes' and len(ch) == 1 and fl.over(mk('attr', args(e)[0], 'notes')) == ('instruments', 'notes') and \
                    args(e)[0] is mk('elem', ch[0][0].a[0], ch[0][0].a[2]) and all(not lp.a[0] or any(args(x)[1] == 'remove_invalid_notes' for x in lp.a[1] if kind(x) == 'mut') for lp in ch[0][0].a[3]):
                gone = i
        ctx.need(gone is not None and last is not None and gone > last, 'valid', 'adjust_times', 'notes that end before they start may stay', f.loc())
        # events that stay
        into = {}
        for e, ch in walk(p.events):
            tgt = args(e)[0] if kind(e) == 'store' else mk('attr', args(e)[0], args(e)[1]) if kind(e) == 'setattr' and isinstance(args(e)[1], str) else None
            k = fl.over(tgt) if tgt is not None else None
            if k is None or k + ('time',) not in MOVED or k == ('instruments', 'notes'):
                continue
            if k == ('time_signature_changes',) and kind(e) == 'setattr':
                continue                                  # (those before the first downbeat)
            val = args(e)[2]
            more = [dargs(x)[2] for x, c2 in walk(p.events) if kind(x) == 'mut' and args(x)[1] == 'extend' and same_obj(args(x)[0], val)]
            got = []
            filters(fl, dargs(e)[2], got)
            for m in more:
                filters(fl, m, got)
            if val.op != 'new':
                for x, c2 in walk(p.events):
                    if kind(x) == 'mut' and args(x)[1] == 'append' and same_obj(args(x)[0], val) and c2:
                        r = fl.value(args(x)[2][0], c2[-1][0].a[0], c2[-1][0].a[2])
                        got.append((r[0] if r and r[1] is None else None, conj(c2[-1][1].a[0]), False))
            into.setdefault(k, []).append([x for x in got])
        for k in sorted({m[:-1] for m in MOVED if m[-1] == 'time'}):
            what = 'adjust_times: %s' % '.'.join(k)
            ctx.need(k in into, 'events', what, 'the events that stay are not chosen', f.loc())
            for got in into.get(k, ()):
                between = False
                for o, g, last in got:
                    if any(x.op == 'lt' for x, _ in g):      # strictly on one side, so not equal
                        g = frozenset(l for l in g if not (l[0].op == 'eq' and not l[1] and any(x.op == 'lt' and q and set(x.a) == set(l[0].a) for x, q in g)))
                    if o != k:
                        ctx.bad('events', what, 'events of %s are taken' % ('.'.join(o) if o else 'another list'), f.loc())
                        continue
                    if len(g) == 2 and lit('above', True, 'time', ends[(new, 0)], g) and lit('below', True, 'time', ends[(new, -1)], g):
                        between = True
                        ctx.ok('events')
                    else:
                        x = next(iter(g)) if len(g) == 1 else None
                        ok = x is not None and x[0].op == 'eq' and x[1] and ends[(new, 0)] in x[0].a and any(y.op == 'attr' and y.a[1] == 'time' for y in x[0].a)
                        if ok and last:
                            last_one.add(k)
                        ctx.need(ok, 'events', what, 'events stay when %s' % (' and '.join(show_lit(l) for l in g)[:120] or 'ever'), f.loc())
                ctx.need(between, 'events', what, 'those between the ends do not stay', f.loc())
    for k in sorted({m[:-1] for m in MOVED if m[-1] == 'time'}):
        ctx.need(k in last_one, 'events', 'adjust_times: %s' % '.'.join(k), 'the last event at the new start does not stay', f.loc())
    ctx.floor('moved', 14)
    ctx.floor('mapping', 2)
    ctx.floor('notes', 1)
    ctx.floor('events', 10)


def mentions(t, x):
    return x is t or any(y is x for y in subterms(t))
