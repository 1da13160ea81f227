"""Rules about note sequences and their collection: S01..S09."""
from . import prop
from ..lib import *
from ..loader import Unproved
from ..cases import Cases, all_scales
from ..terms import binop, lenarg

SEQ = PKG + 'midi.midi_sequence.MidiNoteSequence'
SEQS = PKG + 'midi.midi_sequences.MidiNoteSequences'
NOTE = PKG + 'midi.midi_note.MidiNote'
INSTR = PKG + 'midi.midi_instruments.MidiInstrumentInfo'
TT = '_MidiNoteSequence__total_time'
ME = mk('param', 'self')
LISTS = ('_notes', '_drum_events')
ENDS = ('_end_time', 'end_time')


def seq_state(en, st):
    """initial state of a sequence: two lists of notes whose later changes are followed, an instrument object"""
    p = en.p
    for nm in LISTS:
        a = mk('attr', ME, nm)
        o = mk('new', 'list', 'init:' + nm, 0)
        st.cont[o] = (('copy', a, ()),)
        st.heap[(ME, nm)] = o
        en.types[a] = ('list', ('cls', p.cls(NOTE)))
    i = mk('attr', ME, 'instrument')
    en.types[i] = ('cls', p.cls(INSTR))
    st.guards[mk('isnone', i)] = False


def strip_float(t):
    while True:
        if t.op == 'call' and t.a[0] in ('float', 'numpy.float64') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


class Bounds:
    """What is known to be at least as large as what: `ge` for two numbers, `ge_ends` for the end times of a list.
    inv(t, base): t covers every note of base by the invariant that held before the operation."""

    def __init__(self, path, facts, inv=lambda t, b: False, heap=None):
        self.path, self.facts, self.inv = path, conj(facts), inv
        self.heap = heap if heap is not None else path.st.heap
        self.busy = set()

    def with_facts(self, more, heap=None):
        b = Bounds(self.path, self.facts | conj(more), self.inv, heap if heap is not None else self.heap)
        b.busy = self.busy
        return b

    def end_of(self, n):
        for k in ENDS:
            if (n, k) in self.heap:
                return self.heap[(n, k)]
        if n.op == 'copyof':
            return self.end_of(n.a[1])
        return mk('attr', n, '_end_time')

    def norm(self, t):
        t = strip_float(t)
        if t.op == 'attr' and t.a[1] in ENDS:
            b = t.a[0]
            if b.op == 'copyof':
                return self.norm(mk('attr', b.a[1], '_end_time'))
            return mk('attr', b, '_end_time')
        return t

    def elem_base(self, x):
        """x is the end time of an element of a list -> that list"""
        if x.op == 'attr' and x.a[1] in ENDS and x.a[0].op == 'elem':
            return x.a[0].a[0]
        return None

    def ge(self, t, x):
        t, x = self.norm(t), self.norm(x)
        if t is x:
            return True
        if t.op == 'ext' and t.a[0] in ('math.inf', 'numpy.inf'):
            return True
        if num(t) and num(x):
            return t.a[0] >= x.a[0]
        k = (t, x)
        if k in self.busy:
            return False
        self.busy.add(k)
        try:
            if x.op == 'mm' and x.a[0] == 'max':
                return all(self.ge(t, y) for y in x.a[1])
            if x.op == 'or_value':
                return all(self.ge(t, y) for y in x.a)
            if t.op == 'mm' and t.a[0] == 'max' and any(self.ge(y, x) for y in t.a[1]):
                return True
            if t.op == 'mm' and t.a[0] == 'min' and all(self.ge(y, x) for y in t.a[1]):
                return True
            if x.op == 'mm' and x.a[0] == 'min' and any(self.ge(t, y) for y in x.a[1]):
                return True
            if holds(self.facts, lambda a, p: a.op == 'lt' and (
                    not p and self.norm(a.a[0]) is t and self.norm(a.a[1]) is x or
                    p and self.norm(a.a[0]) is x and self.norm(a.a[1]) is t)):
                return True
            b = self.elem_base(x)
            if b is not None and self.covers_list(t, b):
                return True
            d = binop('-', t, x)
            if num(d) and d.a[0] >= 0:
                return True
            for a, p in self.facts:
                if a.op == 'lt':                # x <= hi <= t
                    lo, hi = (a.a[0], a.a[1]) if p else (a.a[1], a.a[0])
                    if self.norm(lo) is x and self.ge(t, hi):
                        return True
            if t.op == 'lo':
                return self.lo_ge(t, x)
            return False
        finally:
            self.busy.discard(k)

    def lo_ge(self, t, x):
        """value after a loop: a running maximum that started at least as large"""
        L, var = t.a
        if L.op != 'loop':
            return False
        init = dict(L.a[4]).get(var)
        if init is None or not self.ge(init, x):
            return False
        for lp in L.a[3]:
            if out_kind(lp) in ('raise', 'return'):
                continue
            new = dict(lp.a[3]).get(var)
            if new is None or not self.with_facts(lp.a[0]).ge(new, var):
                return False
        return True

    def lo_covers(self, t, b):
        """a running maximum over the end times of the list"""
        L, var = t.a
        if L.op != 'loop':
            return False
        init = dict(L.a[4]).get(var, var.a[0] if var.op in ('lh', 'lv') and isinstance(var.a[0], T) else None)
        if init is not None and self.covers_list(init, b) and all(
                self.with_facts(lp.a[0]).ge(dict(lp.a[3]).get(var, var), var) for lp in L.a[3] if out_kind(lp) not in ('raise', 'return')):
            return True
        if not self.subset(b, L.a[0]):
            return False
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            if out_kind(lp) not in ('fall', 'continue'):
                return False
            new = dict(lp.a[3]).get(var, var)
            f = self.with_facts(lp.a[0])
            e = mk('elem', L.a[0], L.a[2])
            if not (f.ge(new, var) and f.ge(new, f.end_of(e))):
                return False
        return True

    def exact_run(self, t, b):
        """exactly the largest end time of the list (0 when there is none)"""
        t = strip_max(t)
        if t.op != 'lo' or t.a[0].op != 'loop':
            return False
        L, var = t.a
        init = dict(L.a[4]).get(var)
        if init is None or not num(init) or init.a[0] > 0 or not self.subset(L.a[0], b) or not self.lo_covers(t, b):
            return False
        e = self.norm(self.end_of(mk('elem', L.a[0], L.a[2])))

        def one(x):
            x = self.norm(strip_max(x))
            return x is var or x is e or x.op == 'mm' and x.a[0] == 'max' and all(one(y) or num(y) and y.a[0] <= 0 for y in x.a[1])
        return all(one(dict(lp.a[3]).get(var, var)) for lp in L.a[3] if out_kind(lp) != 'raise')

    # -- lists
    def sources(self, b):
        """list a list's elements all come from, one after another"""
        seen = []
        while True:
            seen.append(b)
            if b.op == 'item' and b.a[1].op == 'slice':
                b = b.a[0]
            elif b.op in ('sorted', 'reversed'):
                b = b.a[0]
            elif b.op == 'copyof':
                b = b.a[1]
            elif b.op == 'call' and b.a[0] in ('list', 'tuple', 'iter') and len(b.a[1]) == 1:
                b = b.a[1][0]
            elif b.op == 'new' and b in self.path.st.cont:
                parts = [p for p in self.path.st.cont[b] if p[0] != 'order' and not (p[0] == 'lit' and not p[1])]
                if len(parts) == 1 and parts[0][0] == 'copy':
                    b = parts[0][1]
                else:
                    d = self.path.engine.deref(self.path.st, b)
                    if d.op == 'map':
                        seen.append(d)
                    return seen
            else:
                return seen

    def full_map(self, m):
        """map(B, e -> e.end) without a filter -> B"""
        if m.op == 'map' and len(m.a[2]) == 1:
            (g, v), = m.a[2]
            if not g:
                v = self.norm(v)
                if v.op == 'attr' and v.a[1] == '_end_time' and v.a[0].op == 'elem':
                    return m.a[0]
        return None

    def members(self, b):
        """known parts of a list term (local container, content at some moment, sum, literal) or None"""
        if b.op == 'new' and b in self.path.st.cont:
            return [p for p in self.path.st.cont[b] if not (p[0] == 'lit' and not p[1]) and p[0] != 'order']
        if b.op == 'content':
            return [p for p in b.a[1] if not (p[0] == 'lit' and not p[1]) and p[0] != 'order']
        if b.op == 'list':
            return [('lit', b.a)]
        if b.op == '+':
            return [('extend', x) for x in b.a]
        return None

    def part_ok(self, t, part):
        """every note that one part of a list contributes ends by t"""
        if part[0] == 'lit':
            return all(self.ge(t, self.end_of(n)) for n in part[1])
        if part[0] == 'append':
            return self.ge(t, self.end_of(part[1]))
        if part[0] == 'store':
            return self.ge(t, self.end_of(part[2]))
        if part[0] in ('extend', 'copy'):
            return self.covers_list(t, part[1])
        if part[0] == 'mut' and part[1] in ('insert', 'append', 'add', 'insort', 'insort_left', 'insort_right') and part[2]:
            return self.ge(t, self.end_of(part[2][-1]))
        if part[0] == 'mut' and part[1] in ('pop', 'remove', 'clear', 'sort', 'reverse'):
            return True
        if part[0] == 'delitem':
            return True
        if part[0] == 'loop':
            return self.loop_part(t, part[1])
        return False

    def loop_part(self, t, L):
        """every note put in by a loop ends by t"""
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            heap = {}
            for e in lp.a[1]:
                if kind(e) == 'setattr' and isinstance(args(e)[1], str):
                    heap[(args(e)[0], args(e)[1])] = dargs(e)[2]
            b = self.with_facts(lp.a[0], heap)
            for e in lp.a[1]:
                if kind(e) == 'loop':
                    return False
                if kind(e) != 'mut' or args(e)[1] not in ('append', 'add', 'insert', 'extend', 'insort'):
                    continue
                if not self.is_note_list(args(e)[0]):
                    continue
                x = dargs(e)[2][-1]
                if args(e)[1] == 'extend':
                    if not b.covers_list(t, x):
                        return False
                elif not b.ge(t, b.end_of(x)) and not self.running(t, L, lp, b, b.end_of(x)):
                    return False
        return True

    def running(self, t, L, lp, b, end):
        """t covers the final value of a running maximum that covers `end` at the end of this iteration"""
        for var, new in lp.a[3]:
            lo = mk('lo', L, var)
            if b.ge(new, end) and self.ge(t, lo) and all(
                    self.with_facts(o.a[0]).ge(dict(o.a[3]).get(var, var), var) for o in L.a[3] if out_kind(o) not in ('raise', 'return')):
                return True
        return False

    def is_note_list(self, b):
        return True

    def covers_list(self, t, b):
        """t is at least the end time of every note in list b"""
        t = self.norm(t)
        k = ('list', t, b)
        if k in self.busy:
            return False
        self.busy.add(k)
        try:
            if t.op == 'mm' and t.a[0] == 'max' and any(self.covers_list(y, b) for y in t.a[1]):
                return True
            if t.op == 'mm' and t.a[0] == 'min' and len(t.a[1]) > 0 and all(self.covers_list(y, b) for y in t.a[1]):
                return True
            if t.op == 'ext' and t.a[0] in ('math.inf', 'numpy.inf'):
                return True
            if t.op == 'call' and t.a[0] == 'max' and len(t.a[1]) == 1:
                src = self.full_map(t.a[1][0])
                if src is not None and self.subset(b, src):
                    return True
            if any(self.inv(t, x) for x in self.sources(b)):
                return True
            # above something that covers the list
            for a, p in self.facts:
                if a.op == 'lt':
                    lo, hi = (a.a[0], a.a[1]) if p else (a.a[1], a.a[0])
                    if self.norm(hi) is t and any(self.inv(self.norm(lo), x) for x in self.sources(b)):
                        return True
            if t.op == 'lo' and self.lo_covers(t, b):
                return True
            for x in self.sources(b):
                if self.empty(x):
                    return True
                if t.op == 'call' and t.a[0] == 'max' and len(t.a[1]) == 1 and self.same_ends(t.a[1][0], x):
                    return True
                if x.op == 'map':
                    if all(self.with_facts(g).ge(t, self.with_facts(g).end_of(v)) for g, v in x.a[2]):
                        return True
                    if self.full_map_obj(x) is not None and self.covers_list(t, self.full_map_obj(x)):
                        return True
                m = self.members(x)
                if m is not None and all(self.part_ok(t, p) for p in m):
                    return True
            return False
        finally:
            self.busy.discard(k)

    def empty(self, b):
        """the path knows that the list is empty"""
        for a, p in self.facts:
            if a.op == 'truthy' and not p:
                y = a.a[0]
                if y is b or self.full_map(y) is not None and self.subset(b, self.full_map(y)):
                    return True
        return False

    def same_ends(self, m, lst, exact=False):
        """m = the end times of exactly the notes of lst"""
        if m.op == 'map' and lst.op == 'map' and m.a[0] is lst.a[0]:
            drop = lambda g: frozenset(l for l in conj(g) if l not in self.facts)
            ends = {(drop(g), self.norm(v).a[0]) for g, v in m.a[2] if self.norm(v).op == 'attr' and self.norm(v).a[1] in ENDS}
            own = {(drop(g), self.norm(self.end_of(v)).a[0] if self.norm(self.end_of(v)).op == 'attr' else v) for g, v in lst.a[2]}
            def within(xs, ys):
                return all(any(y[0] <= x[0] and x[1] is y[1] for y in ys) for x in xs)
            return len(ends) > 0 and within(own, ends) and (not exact or within(ends, own) or
                                                            all(any(x[1] is y[1] for x in own) for y in ends))
        if m.op == 'map' and m.a[0] is lst:
            return self.full_map(m) is lst
        return False

    def full_map_obj(self, m):
        """map(B, e -> e or a copy of e) possibly filtered -> B"""
        for g, v in m.a[2]:
            if v.op == 'copyof':
                v = v.a[1]
            if v.op != 'elem':
                return None
        return m.a[0]

    def subset(self, b, B):
        """every element of b is an element of B"""
        src = self.sources(b)
        if any(x is B for x in src):
            return True
        Bs = self.sources(B)
        # only order-changing wrappers of B keep all of its elements
        full = []
        x = B
        while True:
            full.append(x)
            if x.op in ('sorted', 'reversed', 'copyof'):
                x = x.a[1] if x.op == 'copyof' else x.a[0]
            elif x.op == 'call' and x.a[0] in ('list', 'tuple', 'iter') and len(x.a[1]) == 1:
                x = x.a[1][0]
            elif x.op == 'new' and x in self.path.st.cont and len(self.path.st.cont[x]) == 1 and self.path.st.cont[x][0][0] == 'copy':
                x = self.path.st.cont[x][0][1]
            else:
                break
        if any(s is f for s in src for f in full):
            return True
        last = full[-1]
        mb = self.members(last)
        if mb is not None:
            for s in src:
                for p in mb:
                    if p[0] in ('copy', 'extend') and self.subset(s, p[1]):
                        return True
                ms = self.members(s)
                if ms is not None and all(any(self.same_part(q, p) for p in mb) for q in ms):
                    return True
        return False

    @staticmethod
    def same_part(q, p):
        return q == p or (q[0] == p[0] == 'loop' and q[1] is p[1]) or \
            (q[0] in ('copy', 'extend') and p[0] in ('copy', 'extend') and q[1] is p[1])


def own_note(t):
    """a note object held by this sequence (not a copy of one)"""
    while t.op in ('elem', 'item', 'attr', 'sorted', 'reversed'):
        t = t.a[0]
    return t is ME


def instrument_of(path, obj):
    return path.st.heap.get((obj, 'instrument'), mk('attr', obj, 'instrument'))


def drum_flag(path, obj):
    """True / False / None (not determined on this path)"""
    i = instrument_of(path, obj)
    v = path.st.heap.get((i, 'is_drum'), mk('attr', i, 'is_drum'))
    if v.op == 'const':
        return bool(v.a[0])
    for a, p in conj(path.guards):
        if a.op == 'truthy' and a.a[0] is v:
            return p
    return None


def bad_type(guards):
    """the path assumes an instrument attribute that is no instrument object"""
    return holds(guards, lambda a, p: p and (a.op == 'isnone' and is_attr(a.a[0], 'instrument')
                                             or a.op == 'isinst' and is_attr(a.a[0], 'instrument') and
                                             not any(k.op == 'cls' and k.a[0] == INSTR for k in a.a[1])))


def public_methods(ctx, cls):
    c = ctx.p.cls(cls)
    out = []
    for q, f in sorted(ctx.p.functions.items()):
        if f.cls is not c:
            continue
        nm = q[len(cls) + 1:]
        base = nm.split('.')[0]
        if base.startswith('_') and not (base.startswith('__') and base.endswith('__')):
            continue
        out.append((nm, f))
    return out


def holders(path, cls):
    """objects of the class that exist at the end of a path: self and new ones"""
    objs = []
    for (o, nm) in path.st.heap:
        if nm in LISTS and (o is ME or (o.op == 'new' and o.a[0] == cls)) and o not in objs:
            objs.append(o)
    return objs


def touched(path, obj):
    """the path stores or changes one of the note lists of obj, or the end time of notes in it"""
    lists = set()
    for nm in LISTS:
        v = path.st.heap.get((obj, nm))
        if v is not None:
            lists.add(v)
        if obj is ME:
            lists.add(mk('new', 'list', 'init:' + nm, 0))
    for e, ch in walk(path.events):
        if kind(e) == 'setattr' and args(e)[0] is obj and args(e)[1] in LISTS + (TT,):
            return True
        if kind(e) in ('mut', 'store', 'delitem') and args(e)[0] in lists:
            return True
        if kind(e) == 'setattr' and args(e)[1] in ENDS:
            return True
    return False


def last_index(path, pred):
    n = -1
    for i, (e, ch) in enumerate(walk(path.events)):
        if pred(e):
            n = i
    return n


@prop('S01', 'For every operation of a sequence, the final state of the sequence (and of every sequence it creates) on every '
      'path is compared: the stored total time has to bound the end time of every note in the visible note list, by a '
      'small bounds calculus (max/min of terms, maxima over lists, path conditions, the same property of the state '
      'before).', assumptions=('the instrument of a sequence is always an instrument object',
                               'times are not NaN'))
def s01(ctx):
    ctx.rule('setter', 'assigning the total time stores at least the assigned value')
    ctx.rule('covers', 'on every path of an operation that changes notes, the total time stored last is at least the end '
                       'of every note in the note lists')
    ctx.rule('moved', 'when an operation moves end times of notes the total time is recomputed from the notes afterwards')
    ctx.rule('largest', 'a sequence created from a list of notes has the largest of their end times as total time')
    v = None
    for p in ctx.returns(SEQ + '.total_time.setter'):
        st = [e for e in p.events if kind(e) == 'setattr' and args(e)[1] == TT]
        val = next((t for t in subterms(st[-1]) if t.op == 'param' and t.a[0] != 'self'), None) if st else None
        ctx.need(st and val is not None and Bounds(p, p.guards).ge(dargs(st[-1])[2], val), 'setter', 'total_time',
                 'the setter stores %s' % (short(dargs(st[-1])[2]) if st else 'nothing'), eloc(st[-1]) if st else '')
    ctx.floor('setter', 1)
    mutated = 0
    for nm, f in public_methods(ctx, SEQ):
        if nm in ('total_time.setter', 'resolution.setter', 'shift_times'):
            continue
        ps = [p for p in ctx.run(f.qualname, opaque=(NOTE + '.quantize', NOTE + '.__init__'),
                                 setup=None if nm == '__init__' or f.is_static or f.is_classmethod else seq_state)
              if p.kind == 'return' and not bad_type(p.guards)]
        for p in ps:
            inv = (lambda t, b: t is mk('attr', ME, TT) and b.op == 'attr' and b.a[0] is ME and b.a[1] in LISTS) \
                if nm != '__init__' else (lambda t, b: False)
            for obj in holders(p, SEQ):
                if not touched(p, obj):
                    continue
                t = p.st.heap.get((obj, TT), mk('attr', obj, TT))
                d = drum_flag(p, obj)
                vis = LISTS if d is None else (LISTS[1],) if d else (LISTS[0],)
                b = Bounds(p, p.guards, inv)
                for lst in vis:
                    l = p.st.heap.get((obj, lst))
                    if l is None:
                        continue
                    if obj is ME and l is mk('new', 'list', 'init:' + lst, 0) and len(p.st.cont.get(l, ())) == 1 and t is mk('attr', ME, TT):
                        continue
                    mutated += 1
                    ctx.need(b.covers_list(t, l), 'covers', '%s%s' % (nm, '' if obj is ME else ' (new sequence)'),
                             'with notes %s the total time is %s: not shown to be at least every end time'
                             % (short(p.engine.deref(p.st, l), 200), short(t, 200)), f.loc())
            # moved end times
            mv = last_index(p, lambda e: kind(e) == 'setattr' and args(e)[1] in ENDS and own_note(args(e)[0]))
            if mv >= 0:
                tt = last_index(p, lambda e: kind(e) == 'setattr' and args(e)[0] is ME and args(e)[1] == TT)
                t = p.st.heap.get((ME, TT))
                d = drum_flag(p, ME)
                lst = [mk('attr', ME, x) for x in (LISTS if d is None else (LISTS[1],) if d else (LISTS[0],))]
                b = Bounds(p, p.guards)
                ctx.need(tt > mv and all(b.covers_list(t, l) for l in lst), 'moved', nm,
                         'the notes are moved but the total time is %s' % (short(t) if tt > mv else 'not recomputed'), f.loc())
        # notes handed to other sequences held in local lists
    ctx.floor('covers', 20)
    ctx.floor('moved', 1)
    for nm in ('__init__', 'notes.setter', 'from_notes'):
        for p in ctx.returns(SEQ + '.' + nm, **({'setup': seq_state} if nm == 'notes.setter' else {})):
            if bad_type(p.guards):
                continue
            for obj in holders(p, SEQ):
                t = strip_max(p.st.heap.get((obj, TT)))
                d = drum_flag(p, obj)
                lst = LISTS[1] if d else LISTS[0]
                l = p.st.heap.get((obj, lst))
                dl = p.engine.deref(p.st, l)
                b = Bounds(p, p.guards)
                ok = (t.op == 'call' and t.a[0] == 'max' and len(t.a[1]) == 1 and
                      (b.full_map(t.a[1][0]) is not None and b.subset(b.full_map(t.a[1][0]), l) and b.subset(l, b.full_map(t.a[1][0]))
                       or dl.op == 'list' and not dl.a or b.same_ends(t.a[1][0], dl, True)))
                ok = ok or b.exact_run(t, l)
                ok = ok or (num(t) and t.a[0] == 0 and (dl.op == 'list' and not dl.a or b.empty(dl)))
                ctx.need(ok, 'largest', nm, 'the total time of a sequence made of %s is %s' % (short(dl), short(t)), f.loc())
    ctx.floor('largest', 6)


def strip_max(t):
    t = strip_float(t)
    while t.op == 'mm' and t.a[0] == 'max' and len(t.a[1]) == 2 and any(num(x) and x.a[0] == 0 for x in t.a[1]):
        t = strip_float(next(x for x in t.a[1] if not (num(x) and x.a[0] == 0)))
    return t


# ---------------------------------------------------------------- S02
SIGS = {'time_signatures': ('add_time_signatures', 'time_signature', ('numerator', 'denominator')),
        'key_signatures': ('add_key_signatures', 'key_signature', ('mode', 'midi_key')),
        'tempo_signatures': ('add_tempo_signature', 'tempo_signature', ('qpm', 'resolution'))}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'insort', 'insort_left', 'insort_right',
            'update', 'setdefault', 'popitem', 'add', 'discard'}


def time_key(t):
    return t is not None and t.op == 'attr' and t.a[1] == 'midi_time' and t.a[0].op in ('arg', 'elem', 'param')


def changes_of(path, name):
    """events that change the list self.<name>"""
    base = mk('attr', ME, name)
    out = []
    for e, ch in walk(path.events):
        k = kind(e)
        if k in ('setattr', 'delattr') and args(e)[0] is ME and args(e)[1] == name:
            out.append((e, ch))
        elif k in ('mut', 'store', 'delitem') and (args(e)[0] is base or args(e)[0] is path.st.heap.get((ME, name))):
            out.append((e, ch))
    return out


def near_first(guards, lst, v):
    """the path knows that the first signature is (all but) at the time of v"""
    first = mk('attr', mk('item', lst, const(0)), 'midi_time')
    tv = mk('attr', v, 'midi_time')
    d1, d2 = binop('-', first, tv), binop('-', tv, first)

    def pred(a, p):
        if a.op == 'eq' and p and {a.a[0], a.a[1]} == {first, tv}:
            return True
        if a.op == 'lt' and p and a.a[0].op == 'call' and a.a[0].a[0] == 'abs' and a.a[0].a[1][0] in (d1, d2):
            return num(a.a[1]) and a.a[1].a[0] <= 1e-4
        if a.op == 'truthy' and p and a.a[0].op == 'call' and a.a[0].a[0] in ('math.isclose', 'numpy.isclose'):
            return {first, tv} == set(a.a[0].a[1][:2])
        return False
    return holds(guards, pred)


def last_before(idx, lst, t, guards=frozenset()):
    """idx is the position of the last element of lst (in order of time) whose time is <= t, or 0"""
    def times(m):
        if m.op == 'map' and m.a[0] is lst and len(m.a[2]) == 1:
            (g, v), = m.a[2]
            return not g and time_key(v)
        return False

    def is_bisect(b):
        if not (b.op == 'call' and b.a[0] in ('bisect.bisect_right', 'bisect.bisect') and len(b.a[1]) == 2 and b.a[1][1] is t):
            return False
        return b.a[1][0] is lst and time_key(kw_of(b.a[2], 'key')) or not b.a[2] and times(b.a[1][0])

    def positive(a, p):
        """the path knows the bisection is at least 1 (+1) / is 0 (-1)"""
        for k in (-1, 1, 2):                       # a bound of the position moved by k
            if a.op == 'lt' and num(a.a[1]) and is_bisect(binop('-', a.a[0], const(k))) and a.a[1].a[0] - k == 1:
                return -1 if p else 1
            if a.op == 'lt' and num(a.a[0]) and is_bisect(binop('-', a.a[1], const(k))) and a.a[0].a[0] - k == 0:
                return 1 if p else -1
        if a.op == 'lt' and num(a.a[0]) and is_bisect(a.a[1]) and a.a[0].a[0] in (0,):
            return 1 if p else -1
        if a.op == 'lt' and num(a.a[1]) and is_bisect(a.a[0]) and a.a[1].a[0] == 1:
            return -1 if p else 1
        if a.op == 'eq' and any(is_bisect(x) for x in a.a) and any(num(x) and x.a[0] == 0 for x in a.a):
            return -1 if p else 1
        if a.op == 'truthy' and is_bisect(a.a[0]):
            return 1 if p else -1
        return 0
    if idx.op == 'mm' and idx.a[0] == 'max':
        rest = [x for x in idx.a[1] if not (num(x) and x.a[0] == 0)]
        return len(rest) == 1 and len(idx.a[1]) == 2 and is_bisect(binop('+', rest[0], const(1)))
    if num(idx) and idx.a[0] == 0:
        return holds(guards, lambda a, p: positive(a, p) < 0)
    return is_bisect(binop('+', idx, const(1))) and holds(guards, lambda a, p: positive(a, p) > 0)


@prop('S02', 'Every path of the three insertion methods is checked to change its own list in exactly one allowed way (ordered '
      'insertion by time after equal times, or replacement of a first element the path knows to be at the same time); every '
      'path of the three lookups has to return the fields of the element at bisect_right(time)-1 of its own list; every '
      'other writer of the lists in the program has to install a list sorted by time.')
def s02(ctx):
    ctx.rule('insert', 'a signature is inserted by time, after those at the same time, or replaces a first one at its own time')
    ctx.rule('lookup', 'a lookup returns the fields of the last signature at or before the time asked for')
    ctx.rule('default', 'a default is only returned for negative times or when there are no signatures')
    ctx.rule('writers', 'the lists are only ever assigned in order of time')
    for name, (add, look, fields) in SIGS.items():
        lst = mk('attr', ME, name)
        f = ctx.p.func(SEQS + '.' + add)
        for p in ctx.returns(SEQS + '.' + add):
            v = mk('param', [x for x in f.params if x != 'self'][0])
            ch = changes_of(p, name)
            others = [n for n in SIGS if n != name and changes_of(p, n)]
            ok = False
            what = 'nothing is stored'
            if len(ch) == 1 and not ch[0][1]:
                e = ch[0][0]
                what = '%s %s' % (kind(e), short(mk('t', *args(e)[1:]) if False else repr(args(e)[1:]), 120))
                if kind(e) == 'mut' and args(e)[1] in ('insort_right', 'insort') and args(e)[2][0] is v:
                    ok = time_key(kw_of(args(e)[3], 'key'))
                elif kind(e) == 'store' and num(args(e)[1]) and args(e)[1].a[0] == 0 and args(e)[2] is v:
                    ok = near_first(p.guards, lst, v)
                    what = 'the first signature is replaced although it may be at another time'
                elif kind(e) == 'setattr':
                    ok = sorted_with(args(e)[2], dargs(e)[2], lst, v)
            elif len(ch) == 2 and all(kind(e) == 'mut' and not c for e, c in ch):
                (a, _), (b, _) = ch
                ok = args(a)[1] == 'append' and args(a)[2][0] is v and args(b)[1] == 'sort' and time_key(kw_of(args(b)[3], 'key')) \
                    and not truthy_const(kw_of(args(b)[3], 'reverse'))
                what = 'append and %s' % args(b)[1]
            elif len(ch) > 1:
                what = '%d changes of the list' % len(ch)
            ctx.need(ok and not others, 'insert', add, what + (', and %s changes' % others[0] if others else ''), f.loc())
            for e, c in walk(p.events):
                if kind(e) == 'setattr' and args(e)[0] is v and args(e)[1] in ('midi_time',) + fields:
                    ctx.bad('insert', add + ' ' + args(e)[1], 'the signature is changed while it is stored', f.loc())
        lf = ctx.p.func(SEQS + '.' + look)
        t = mk('param', [x for x in lf.params if x != 'self'][0])
        seen = 0
        for p in ctx.returns(SEQS + '.' + look):
            v = p.dvalue
            el = [x for x in v.a] if v.op == 'tuple' else [v]
            el = [x.a[1][0] if x.op == 'call' and x.a[0] in ('int', 'float', 'round') and len(x.a[1]) == 1 else x for x in el]
            if all(x.op == 'const' for x in el):
                ctx.need(no_signature(p.guards, lst, t), 'default', look,
                         'the constant %s is returned when %s' % (short(v), short(' & '.join(show_lit(l) for l in p.guards.items()))), lf.loc())
                continue
            seen += 1
            items = {x.a[0] for x in el if x.op == 'attr'}
            names = tuple(x.a[1].lstrip('_') if x.op == 'attr' else '?' for x in el)
            it = next(iter(items)) if len(items) == 1 else None
            ok = it is not None and it.op == 'item' and it.a[0] is lst and last_before(it.a[1], lst, t, p.guards) and names == fields
            ok = ok or (it is not None and (scan_last(it, lst, t) or picked_last(p, it, lst, t)) and names == fields)
            ctx.need(ok, 'lookup', look, 'the result is %s: not the fields %s of the last signature at or before the time' % (short(v, 300), fields),
                     lf.loc())
        if not seen:
            ctx.bad('lookup', look, 'no path returns a signature', lf.loc())
    # constructor and everyone else
    for p in ctx.returns(SEQS + '.__init__', opaque=(SEQS + '._add_midi_note_sequence', PKG + 'midi.midi_time_signature.MidiTempoSignature.__init__',
                                                     PKG + 'midi.midi_key_signature.MidiKeySignature.__init__',
                                                     PKG + 'midi.midi_time_signature.MidiTimeSignature.__init__')):
        for name in SIGS:
            v = p.st.heap.get((ME, name))
            if v is None:
                ctx.bad('writers', '__init__ ' + name, 'the list is not created')
                continue
            d = p.engine.deref(p.st, v)
            if d.op == 'list':
                ok = len(d.a) < 2
            elif d.op == 'content' and all(q[0] in ('lit', 'order', 'append') for q in d.a[1]):
                grow = sum(len(q[1]) if q[0] == 'lit' and isinstance(q[1], tuple) else 1 for q in d.a[1] if q[0] != 'order')
                ok = grow < 2 or (d.a[1][-1][0] == 'order' and d.a[1][-1][1][0] == 'sorted' and time_key(d.a[1][-1][1][1])
                                  and not truthy_const(d.a[1][-1][1][2]))
            else:
                ok = d.op == 'sorted' and time_key(d.a[1]) and not truthy_const(d.a[2]) and root(d.a[0]) is mk('param', name)
                parts = p.st.cont.get(v)
                ok = ok or bool(parts) and any(q[0] == 'copy' and len(q[2]) == 1 and q[2][0][0] == 'sorted' and time_key(q[2][0][1])
                                               and not truthy_const(q[2][0][2]) and root(q[1]) in (mk('param', name),) for q in parts)
            ctx.need(ok, 'writers', '__init__ ' + name, 'the list becomes %s' % short(d), '')
    import ast
    allowed = {SEQS + '.' + a for a, _, _ in SIGS.values()} | {SEQS + '.__init__'}
    for f in ctx.p.functions.values():
        if f.qualname in allowed:
            continue
        for n in ast.walk(f.node):
            bad = None
            if isinstance(n, ast.Attribute) and n.attr in SIGS:
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    bad = n
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr in SIGS:
                bad = n
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr in SIGS:
                bad = n
            if bad is not None and not helper_of(ctx, f, allowed):
                ctx.bad('writers', f.qualname.replace(PKG, ''), 'changes a signature list directly', f.loc())
    ctx.floor('insert', 6)
    ctx.floor('lookup', 3)
    ctx.floor('writers', 3)


def helper_of(ctx, f, allowed):
    """f is only called from the allowed functions (their own helper)"""
    import ast
    nm = f.node.name
    users = [g for g in ctx.p.functions.values() for n in ast.walk(g.node)
             if g is not f and isinstance(n, (ast.Attribute, ast.Name)) and (n.attr if isinstance(n, ast.Attribute) else n.id) == nm]
    return bool(users) and nm.startswith('_') and all(g.qualname in allowed for g in users)


def truthy_const(t):
    return t is not None and t.op == 'const' and bool(t.a[0]) or (t is not None and t.op not in ('const',))


def sorted_with(v, d, lst, x):
    """list + [x], sorted by time"""
    if d.op == 'sorted' and time_key(d.a[1]) and not truthy_const(d.a[2]):
        b = d.a[0]
        return b.op == '+' and set(b.a) == {lst, mk('list', x)} or b.op == 'content' and any(q[0] == 'append' and q[1] is x for q in b.a[1])
    return False


def no_signature(guards, lst, t):
    def atom(a, p):
        if a.op == 'lt' and p and a.a[0] is t and num(a.a[1]) and a.a[1].a[0] <= 0:
            return True
        if a.op == 'truthy' and not p and a.a[0] is lst:
            return True
        return a.op == 'isnone' and p and a.a[0] in (lst, t)
    return holds(guards, atom)


def not_after(gs, e, t):
    """the condition is just that the time of e is not after t"""
    gs = conj(gs)
    return len(gs) == 1 and all(a.op == 'lt' and not q and a.a[0] is t and a.a[1].op == 'attr' and a.a[1].a[1] == 'midi_time' and a.a[1].a[0] is e for a, q in gs)


def picked_last(p, it, lst, t):
    """it is the last of those not after t, or the first of all when there is none"""
    def those(m, order=()):
        return m.op == 'map' and m.a[0] is lst and tuple(m.a[1] or ()) == order and len(m.a[2]) == 1 and \
            all(v is mk('elem', lst, m.a[3]) and not_after(g, v, t) for g, v in m.a[2])
    first = mk('item', lst, const(0))
    if it.op == 'item' and it.a[1] is const(-1) and those(it.a[0]):
        return holds(p.guards, lambda a, q: q and a.op == 'truthy' and a.a[0] is it.a[0])
    if it.op == 'call' and it.a[0] == 'next' and len(it.a[1]) == 2:
        return those(it.a[1][0], (('reversed',),)) and it.a[1][1] is first
    if it.op == 'elem' and it.a[0] is lst:
        g = [(a, q) for a, q in conj(p.guards) if a.op == 'lt' and any(mentions(x, lambda s: s is it) for x in a.a)]
        return p.engine.searched.get(it) == {(('reversed',),)} and not_after(g, it, t)
    if it is first:
        return holds(p.guards, lambda a, q: not q and (a.op == 'truthy' and those(a.a[0]) or a.op == 'any' and a.a[0] is lst and
                                                       all(not_after(g, mk('elem', lst, a.a[2]), t) for g in a.a[1])))
    if it.op == 'item' and it.a[0] is lst and it.a[1].op == 'lo' and it.a[1].a[0].a[0].op == 'while':
        L, i = it.a[1].a
        nxt = binop('+', i, const(1))
        inside = (mk('lt', nxt, mk('call', 'len', (lst,), ())), True)
        early = (mk('lt', t, mk('attr', mk('item', lst, nxt), 'midi_time')), False)
        if not is_const(dict(L.a[4]).get(i), 0):
            return False
        for lp in L.a[3]:
            u, g = dict(lp.a[3]).get(i, i), conj(lp.a[0])
            if out_kind(lp) in ('fall', 'continue'):
                if u is not nxt or g != {inside, early}:
                    return False
            elif out_kind(lp) == 'break':
                alts = [conj(x) for a, q in g for x in (a.a[0] if a.op == 'or' and q else [frozenset([(a, q)])])]
                if u is not i or not alts or not all({(a, not q) for a, q in alt} & {inside, early} for alt in alts):
                    return False
            else:
                return False
        return True
    return False


def scan_last(it, lst, t):
    """value of a scan for the last element not after t"""
    if it.op != 'lo' or it.a[0].op != 'loop':
        return False
    L, var = it.a
    if L.a[0] is not lst or L.a[1] or dict(L.a[4]).get(var) is not mk('item', lst, const(0)):
        return False
    for lp in L.a[3]:
        new = dict(lp.a[3]).get(var, var)
        at = None
        for a, p in conj(lp.a[0]):
            if a.op == 'lt' and a.a[0] is t and a.a[1].op == 'attr' and a.a[1].a[1] == 'midi_time' and a.a[1].a[0].op == 'elem':
                at = not p
        if at is None or (at and (new.op != 'elem' or out_kind(lp) not in ('fall', 'continue'))) or (not at and new is not var):
            return False
    return True


# ---------------------------------------------------------------- S03
def cached_functions(ctx):
    out = []
    for f in ctx.p.functions.values():
        for d in f.decorators:
            if d.split('(')[0].split('.')[-1] in ('cache', 'lru_cache', 'cached_property'):
                out.append(f)
    return out


def self_reads(ctx, f, seen=None):
    """attributes of self (own class) that f reads, directly or through methods and properties of self"""
    import ast
    from ..engine import mangle, walk_own
    seen = set() if seen is None else seen
    if f.qualname in seen:
        return set()
    seen.add(f.qualname)
    me = f.params[0] if f.params and f.cls is not None and not f.is_static else None
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            nm = mangle(f.cls.name, n.attr)
            g = f.cls.find(nm)
            if g is not None:
                out |= self_reads(ctx, g, seen)
            else:
                out.add(nm)
    return out


@prop('S03', 'All cached functions are found by their decorators; for each, the attributes of the object it reads (through other '
      'methods and properties) are computed, and on every path of every method that assigns or mutates one of them a '
      'cache_clear of that function has to follow the last such change; cached values must not be mutable containers.',
      assumptions=('attributes read by a cached lookup are changed through methods of the class',))
def s03(ctx):
    import ast
    ctx.rule('cleared', 'whatever changes data that a cached function reads clears its cache afterwards')
    ctx.rule('immutable', 'a cached result is not a mutable object that callers could change')
    ctx.rule('key', 'cached methods belong to classes compared by identity, and take hashable arguments')
    ctx.rule('outside', 'code outside the class does not change what a cached function reads')
    ctx.rule('found', 'the cached functions of the library')
    n = 0
    for f in cached_functions(ctx):
        if not f.qualname.startswith(PKG):
            continue
        n += 1
        ctx.ok('found')
        short_q = f.qualname.replace(PKG, '')
        for p in ctx.returns(f.qualname):
            v = p.value
            mutable = v.op in ('list', 'dictlit', 'new', 'content', 'map') or v.op == 'attr' and v.a[0] is ME
            ctx.need(not mutable, 'immutable', short_q, 'a cached call returns %s' % short(v), f.loc())
        if f.cls is None or f.is_static:
            continue
        ctx.need(f.cls.find('__eq__') is None, 'key', short_q, 'objects of this class compare by value, so one object gets the cached '
                 'results of another', f.loc())
        for a in f.node.args.args[1:]:
            t = ast.unparse(a.annotation) if a.annotation is not None else ''
            if t.startswith(('List', 'list', 'Dict', 'dict', 'Set', 'set')):
                ctx.bad('key', short_q, 'argument %s cannot be hashed' % a.arg, f.loc())
            elif not t.startswith(('Tuple', 'tuple', 'str', 'bytes', 'FrozenSet', 'frozenset', 'range')):
                x = mk('param', a.arg)
                for p in ctx.run(f.qualname):
                    ts = [l[0] for l in conj(p.guards)] + [p.dvalue] + [L.a[0] for L, _ in loops(p.events)]
                    if any(L.a[0] is x for L, _ in loops(p.events)) or any(
                            y.op == 'call' and y.a[0] in ('len', 'sum', 'sorted', 'list') and y.a[1] and y.a[1][0] is x or
                            y.op in ('item', 'map', 'elem', 'any', 'sorted') and y.a[0] is x
                            for t in ts if t is not None for y in subterms(t)):
                        ctx.bad('key', short_q, 'argument %s is a collection and may not be hashable' % a.arg, f.loc())
                        break
        reads = self_reads(ctx, f)
        clear = f.qualname
        owners = [c for c in ctx.p.classes.values() if f.cls in c.mro()]
        for g in ctx.p.functions.values():
            if g.cls in owners and g.node.name != '__init__' and g is not f:
                if not any(isinstance(x, ast.Attribute) and x.attr in reads or isinstance(x, ast.Attribute) and x.attr.lstrip('_') in
                           {r.split('__')[-1] for r in reads} for x in ast.walk(g.node)):
                    continue
                for p in ctx.run(g.qualname):
                    last = clr = -1
                    who = None
                    for i, (e, ch) in enumerate(walk(p.events)):
                        if kind(e) in ('setattr', 'mut', 'store', 'delitem', 'delattr'):
                            b = args(e)[0]
                            r, path = attr_path(b if kind(e) != 'setattr' else mk('attr', b, args(e)[1]) if isinstance(args(e)[1], str) else b)
                            x = b
                            hit = None
                            if kind(e) == 'setattr' and b is ME and args(e)[1] in reads:
                                hit = args(e)[1]
                            while x.op in ('attr', 'item', 'elem'):
                                if x.op == 'attr' and x.a[0] is ME and x.a[1] in reads:
                                    hit = x.a[1]
                                x = x.a[0]
                            if hit:
                                last, who = i, hit
                        elif kind(e) == 'cacheclear' and args(e)[0] == clear:
                            clr = i
                    if last >= 0:
                        ctx.need(clr > last, 'cleared', '%s after %s' % (short_q, g.qualname.replace(PKG, '')),
                                 '%s is changed and %s keeps its cached results' % (who, f.node.name), g.loc())
            elif g.cls not in owners:
                for x in ast.walk(g.node):
                    tgt = None
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        tgt = x
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Attribute):
                        tgt = x.func.value
                    if tgt is not None and tgt.attr in reads and tgt.attr in SIGS:
                        ctx.bad('outside', '%s in %s' % (short_q, g.qualname.replace(PKG, '')), '%s is changed from outside' % tgt.attr, g.loc())
    if n:
        ctx.ok('outside')
    ctx.ok('found')


# ---------------------------------------------------------------- S04 / S05
EVENT_LISTS = LISTS + ('control_changes', 'pitch_bends')
DERIVE = ('slice', 'truncate', 'extract', 'split', 'clone', 'clone_empty')


def fresh_note(t):
    """a note object of its own: a copy, or newly made"""
    if t.op == 'copyof':
        return True
    if t.op == 'new':
        return t.a[0] not in ('list', 'dict')
    if t.op == 'fcall':
        return t.a[0].split('.')[-1] in ('make_copy', 'quantize', 'clone', 'copy')
    if t.op == 'mcall':
        return t.a[1] in ('make_copy', 'quantize', 'clone')
    return False


def starts_as_list(ch, v):
    """the loop variable v held a list of the operation's own before the loops it is changed in"""
    for L, lp in reversed(ch):
        v = dict(L.a[4]).get(v, v)
    return v.op in ('list', 'content') or v.op == 'new' and v.a[0] == 'list'


def list_items(path, v):
    """-> list of (what, term) the notes of a list come from: ('note', n) or ('all', base)"""
    st, en = path.st, path.engine
    if v.op == 'new' and v in st.cont:
        out = []
        for q in st.cont[v]:
            if q[0] == 'lit':
                out += [('note', x) for x in q[1]]
            elif q[0] == 'append':
                out.append(('note', q[1]))
            elif q[0] in ('copy', 'extend'):
                out += list_items(path, q[1])
            elif q[0] == 'store':
                out.append(('note', q[2]))
            elif q[0] == 'mut' and q[2]:
                out.append(('note', q[2][-1]))
            elif q[0] == 'loop':
                for lp in q[1].a[3]:
                    for e, _ in walk(lp.a[1]):
                        if kind(e) == 'mut' and args(e)[0] is v and args(e)[2]:
                            x = args(e)[2][-1]
                            out += list_items(path, x) if args(e)[1] == 'extend' else [('note', x)]
        return out
    if v.op == 'map':
        return [('note', x) for g, x in v.a[2]]
    if v.op == 'list':
        return [('note', x) for x in v.a]
    if v.op == '+':
        return [y for x in v.a for y in list_items(path, x)]
    if v.op in ('sorted', 'reversed'):
        return list_items(path, v.a[0])
    if v.op == 'item' and v.a[1].op == 'slice':
        return list_items(path, v.a[0])
    if v.op == 'copyof' and v.a[0] == 'shallow':
        return list_items(path, v.a[1])
    if v.op == 'copyof':
        return []
    return [('all', v)]


def held_by_self(t):
    """object reachable from self without a copy in between"""
    while t.op in ('elem', 'item', 'attr', 'sorted', 'reversed', 'mcall', 'content'):
        if t.op == 'content':
            return False
        t = t.a[0]
    return t is ME


@prop('S04', 'Every path of slice, truncate, extract, split and clone is searched for effects on the original, its lists or its '
      'notes; every note list of every new sequence may only hold copies of notes of the original.')
def s04(ctx):
    ctx.rule('untouched', 'deriving a sequence changes neither the original nor its notes')
    ctx.rule('own', 'the result holds copies of the notes')
    ctx.rule('new', 'the result is a new sequence')
    init = {mk('new', 'list', 'init:' + nm, 0) for nm in LISTS}
    for nm in DERIVE:
        f = ctx.p.func(SEQ + '.' + nm)
        for p in ctx.run(f.qualname, setup=seq_state):
            if bad_type(p.guards):
                continue
            hit = None
            for e, ch in walk(p.events):
                if kind(e) in ('setattr', 'mut', 'store', 'delitem', 'delattr'):
                    b = args(e)[0]
                    if b in init or held_by_self(b):
                        hit = e
            ctx.need(hit is None, 'untouched', nm, '%s of %s' % (kind(hit), short(args(hit)[0])) if hit is not None else '',
                     eloc(hit) if hit is not None else '')
            if p.kind != 'return':
                continue
            ctx.need(p.value is not ME and not held_by_self(p.value), 'new', nm, 'returns %s' % short(p.value), f.loc())
            for obj in holders(p, SEQ):
                if obj is ME:
                    continue
                for lst in EVENT_LISTS:
                    v = p.st.heap.get((obj, lst))
                    if v is None:
                        continue
                    if v in init or held_by_self(v):
                        ctx.bad('own', '%s %s' % (nm, lst), 'the result shares the list %s' % short(v), f.loc())
                        continue
                    for k, x in list_items(p, v):
                        ctx.need(k == 'note' and fresh_note(x), 'own', '%s %s' % (nm, lst), 'the result holds %s itself' % short(x), f.loc())
            # notes handed to sequences kept in a local list
            for e, ch in walk(p.events):
                if kind(e) == 'mut' and args(e)[1] in ('append', 'add_note', 'insert', 'extend') and args(e)[0].op in ('item', 'elem', 'attr', 'lv') and args(e)[2]:
                    x = args(e)[2][-1]
                    if root(args(e)[0]) is ME or args(e)[0].op == 'lv' and starts_as_list(ch, args(e)[0]):
                        continue
                    ctx.need(fresh_note(x) or (args(e)[1] == 'extend' and all(fresh_note(y) and k == 'note' for k, y in list_items(p, x))),
                             'own', nm + ' part', 'the result holds %s itself' % short(x), eloc(e))
    ctx.floor('untouched', 6)
    ctx.floor('own', 4)


@prop('S05', 'The attributes a sequence has are those its constructor assigns; on every path of clone each of them has to be set '
      'on the new sequence to the value of the same attribute of the original (a deep copy for event lists); clone_empty the '
      'same for everything but the events.')
def s05(ctx):
    ctx.rule('field', 'the clone gets the value of the same attribute of the original')
    ctx.rule('list', 'the clone gets a deep copy of each event list of the original')
    fields = set()
    for p in ctx.returns(SEQ + '.__init__'):
        for e, ch in walk(p.events):
            if kind(e) == 'setattr' and args(e)[0] is ME:
                fields.add(args(e)[1])
    fields -= {'logger', 'debug'}
    ctx.need(len(fields) >= 12, 'field', 'attributes', 'only %d attributes found' % len(fields))
    lists = [x for x in fields if x in EVENT_LISTS + ('tempo_signature',)]
    for nm in ('clone', 'clone_empty'):
        f = ctx.p.func(SEQ + '.' + nm)
        for p in ctx.returns(f.qualname, opaque=(SEQ + '.__init__',)):
            if bad_type(p.guards):
                continue
            obj = p.value
            if obj.op == 'copyof' and obj.a[0] == 'deep' and obj.a[1] is ME:
                ctx.ok('field', len(fields))
                ctx.ok('list', len(lists))
                continue
            if obj.op != 'new':
                ctx.bad('field', nm, 'returns %s' % short(obj), f.loc())
                continue
            ctor = p.st.heap.get((obj, '__ctor__'))
            given = {k: v for k, v in ctor.a[1]} if ctor is not None else {}
            for a in sorted(fields):
                v = p.st.heap.get((obj, a))
                own = mk('attr', ME, a)
                if v is None and a.lstrip('_').split('__')[-1] in given and a not in LISTS:
                    v = given[a.lstrip('_').split('__')[-1]]
                if a in lists:
                    if nm == 'clone_empty':
                        continue
                    d = p.engine.deref(p.st, v) if v is not None else None
                    ok = d is not None and (d.op == 'copyof' and d.a[0] == 'deep' and d.a[1] is own or
                                            d.op == 'map' and d.a[0] is own and len(d.a[2]) == 1 and
                                            all(not g and fresh_note(x) and root(x) is root(own) for g, x in d.a[2]))
                    ctx.need(ok, 'list', '%s %s' % (nm, a), 'the clone gets %s' % (short(d) if d is not None else 'no copy of it'), f.loc())
                else:
                    w = strip_max(v) if v is not None else None
                    ok = w is not None and (w is own or w.op == 'copyof' and w.a[1] is own)
                    ctx.need(ok, 'field', '%s %s' % (nm, a), 'the clone gets %s' % (short(v) if v is not None else 'the default'), f.loc())
    ctx.floor('field', 20)
    ctx.floor('list', 5)


# ---------------------------------------------------------------- S06
@prop('S06', 'Every path of add_note is classified: paths that know the instruments differ have to raise before any effect, '
      'all others must know them equal and append the note exactly once to the list chosen by its drum flag; merge must know '
      'instrument and resolution equal and leave exactly the notes of both lists, in order.')
def s06(ctx):
    ctx.rule('reject', 'a note of another instrument is rejected before anything changes')
    ctx.rule('route', 'an accepted note is stored exactly once, with the notes of its kind')
    ctx.rule('merge', 'merging requires equal instrument and resolution')
    ctx.rule('content', 'after merging the notes are those of both sequences, each once, in order')
    ctx.rule('other', 'merging leaves the other sequence as it was')
    ctx.rule('validate', 'validation raises exactly when a note has another instrument')
    f = ctx.p.func(SEQ + '.add_note')
    note = mk('param', [x for x in f.params if x != 'self'][0])
    for p in ctx.run(f.qualname, setup=seq_state):
        if bad_type(p.guards):
            continue
        own = mk('attr', mk('attr', ME, 'instrument'), 'instrument_num')
        names = ('_instrument', 'instrument')
        eq = None
        for a, q in conj(p.guards):
            if a.op == 'eq' and own in a.a and any(x.op == 'attr' and x.a[1] in names and x.a[0] is note or
                                                   x.op == 'attr' and x.a[1] == 'instrument_num' and root(x) is note for x in a.a):
                eq = q
        eff = [e for e, ch in walk(p.events) if kind(e) in ('setattr', 'mut', 'store', 'delitem')]
        if p.kind == 'raise':
            if eq is False:
                ctx.need(not eff, 'reject', 'add_note', 'the sequence is changed before the note is rejected', f.loc())
            elif eq is True and any(kind(e) == 'mut' for e in eff):
                pass
            continue
        ctx.need(eq is True, 'reject', 'add_note', 'a note is stored without having the instrument of the sequence (%s)'
                 % short(' & '.join(show_lit(l) for l in p.guards.items())), f.loc())
        drum = None
        for a, q in conj(p.guards):
            if a.op == 'truthy' and a.a[0].op == 'attr' and a.a[0].a[0] is note and a.a[0].a[1].lstrip('_') == 'is_drum':
                drum = q
        total = 0
        right = 0
        for lst in LISTS:
            v = mk('new', 'list', 'init:' + lst, 0)
            if p.st.heap.get((ME, lst)) is not v:
                ctx.bad('route', 'add_note', 'the list %s is replaced' % lst, f.loc())
            adds = [q for q in p.st.cont.get(v, ())[1:]]
            total += len(adds)
            if drum is not None and lst == LISTS[drum]:
                right = sum(1 for q in adds if q[0] == 'append' and q[1] is note)
        ctx.need(drum is not None and total == 1 and right == 1, 'route', 'add_note',
                 'the note (drum: %s) is stored %d times, %d of them in the list of its kind' % (drum, total, right), f.loc())
    ctx.floor('reject', 2)
    ctx.floor('route', 2)
    f = ctx.p.func(SEQ + '.merge')
    other = mk('param', [x for x in f.params if x != 'self'][0])
    RES = '_MidiNoteSequence__resolution'
    init = {mk('new', 'list', 'init:' + nm, 0): nm for nm in LISTS}
    for p in ctx.run(f.qualname, setup=seq_state):
        if bad_type(p.guards):
            continue
        for e, ch in walk(p.events):
            if kind(e) in ('setattr', 'mut', 'store', 'delitem') and root(args(e)[0]) is other:
                ctx.bad('other', 'merge', '%s of %s' % (kind(e), short(args(e)[0])), eloc(e))
        if p.kind == 'raise':
            continue
        same = lambda nm: holds(p.guards, lambda a, q: a.op == 'eq' and q and {attr_path(x) for x in a.a} == {(ME, nm), (other, nm)})
        insts = same('instrument') or all(same('instrument.' + x) for x in ('instrument_num', 'name', 'is_drum'))
        ctx.need(insts and same(RES), 'merge', 'merge', 'sequences are merged without equal instrument and resolution', f.loc())
        for who, mine in (('this sequence', True), ('the other sequence', False)):
            ctx.need(instruments_seen(p, lambda b: mentions(b, lambda x: x is other) != mine, (ME, other)), 'validate', 'merge: %s' % who,
                     'notes of another instrument may be merged from %s' % who, f.loc())
        d = drum_flag(p, ME)
        ok = False
        seen = None
        for lst in (LISTS if d is None else (LISTS[1],) if d else (LISTS[0],)):
            v = p.st.heap.get((ME, lst))
            seen = v
            ok = ok or merged(p, v, lst, other, init)
        ctx.need(ok, 'content', 'merge', 'the merged notes are %s' % short(p.engine.deref(p.st, seen), 300), f.loc())
    ctx.ok('other')
    ctx.floor('merge', 1)
    ctx.floor('content', 1)
    f = ctx.p.func(SEQ + '.validate_instrument')
    for p in ctx.run(f.qualname, setup=seq_state):
        if bad_type(p.guards):
            continue
        own = mk('attr', mk('attr', ME, 'instrument'), 'instrument_num')

        def differs(a):
            return a.op == 'eq' and own in a.a and any(x.op == 'attr' and x.a[1] in ('_instrument', 'instrument') and x.a[0].op == 'elem' for x in a.a)

        def says(a, q):
            if a.op == 'any':
                return q and any(differs(x) and not y for x, y in all_lits([(z, w) for z, w in any_body(a)]))
            return differs(a) and not q

        def denies(a, q):
            return a.op == 'any' and not q and any(differs(x) and not y for x, y in any_body(a))
        bad = may_hold(p.guards, says)
        if p.kind == 'raise':
            ctx.need(bad, 'validate', 'validate_instrument', 'raises although no note is known to differ', f.loc())
        else:
            clean = holds(p.guards, denies) or any(
                not any(may_hold(lp.a[0], lambda a, q: differs(a) and not q) and normal(lp) for lp in L.a[3])
                and any(out_kind(lp) == 'raise' for lp in L.a[3]) for L, _ in loops(p.events))
            ctx.need(clean, 'validate', 'validate_instrument', 'accepts without looking at every note', f.loc())
    ctx.floor('validate', 2)


def instruments_seen(p, base, owners):
    """every element of such a base is known to have the instrument of one of the owners"""
    own = {mk('attr', mk('attr', o, 'instrument'), 'instrument_num') for o in owners}

    def differs(a):
        return a.op == 'eq' and any(x in own for x in a.a) and any(
            x.op == 'attr' and x.a[1] in ('_instrument', 'instrument') and x.a[0].op == 'elem' and base(x.a[0].a[0]) for x in a.a)

    def denies(a, q):
        return a.op == 'any' and not q and any(differs(x) and not y for x, y in any_body(a))
    return holds(p.guards, denies) or any(
        not any(may_hold(lp.a[0], lambda a, q: differs(a) and not q) and normal(lp) for lp in L.a[3])
        and any(out_kind(lp) == 'raise' and may_hold(lp.a[0], lambda a, q: differs(a) and not q) for lp in L.a[3]) for L, _ in loops(p.events))


def any_body(a):
    """literals of the condition of an `any` atom"""
    out = []
    for x in a.a:
        if isinstance(x, (frozenset, tuple)):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], T) and isinstance(y[1], bool):
                    out.append(y)
                elif isinstance(y, (frozenset, tuple)):
                    out += [z for z in y if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], T) and isinstance(z[1], bool)]
        elif isinstance(x, T) and x.op == 'or':
            out += [z for alt in x.a[0] for z in alt]
    return out


def merged(p, v, lst, other, init):
    """v = the notes of self and other, each once, in order"""
    en, st = p.engine, p.st
    own, oth = mk('attr', ME, lst), mk('attr', other, lst)
    alt = {own} | {k for k, n in init.items() if n == lst}

    def both(b):
        """b holds exactly the notes of both"""
        b2 = en.deref(st, b) if b.op == 'new' else b
        if b2.op in ('sorted', 'reversed'):
            return both(b2.a[0])
        if b2.op == 'call' and b2.a[0] in ('list', 'sorted') and b2.a[1]:
            return both(b2.a[1][0])
        if b2.op == '+' and len(b2.a) == 2:
            x = set(b2.a)
            return len(x & alt) == 1 and any(is_other(y) for y in x)
        if b.op == 'new' and b in st.cont:
            q = [z for z in st.cont[b] if z[0] != 'order' and not (z[0] == 'lit' and not z[1])]
            if len(q) == 1 and q[0][0] == 'copy':
                return both(q[0][1])
            if len(q) == 2 and q[0][0] in ('copy', 'extend') and q[1][0] == 'extend':
                x = {q[0][1], q[1][1]}
                return len(x & alt) == 1 and any(is_other(y) for y in x)
        if b2.op == 'content':
            q = [z for z in b2.a[1] if z[0] != 'order' and not (z[0] == 'lit' and not z[1])]
            if len(q) == 2 and q[0][0] in ('copy', 'extend') and q[1][0] == 'extend':
                x = {q[0][1], q[1][1]}
                return len(x & alt) == 1 and any(is_other(y) for y in x)
        return False

    def is_other(y):
        return y.op == 'attr' and y.a[0] is other and y.a[1] in LISTS

    if v.op == 'new' and v in st.cont:
        parts = [z for z in st.cont[v] if not (z[0] == 'lit' and not z[1])]
        if parts and parts[-1][0] == 'order' and parts[-1][1][0] == 'sorted' and both(v):
            return ascending(parts[-1][1][1:])
        if len(parts) == 1 and parts[0][0] == 'copy':
            o = parts[0][2]
            return bool(o) and o[-1][0] == 'sorted' and ascending(o[-1][1:]) and both(parts[0][1])
        if len(parts) == 1 and parts[0][0] == 'loop':
            L = parts[0][1]
            if not both(L.a[0]):
                return False
            srt = bool(L.a[1]) and L.a[1][-1][0] == 'sorted' and ascending(L.a[1][-1][1:]) or L.a[0].op == 'sorted'
            for lp in L.a[3]:
                if out_kind(lp) == 'raise':
                    continue
                ev = [e for e, _ in walk(lp.a[1]) if kind(e) == 'mut' and args(e)[0] is v]
                if len(ev) != 1 or not normal(lp):
                    return False
                e = ev[0]
                x = args(e)[2][-1] if args(e)[2] else None
                if x is None or x.op != 'elem':
                    return False
                if args(e)[1] == 'append':
                    if not srt:
                        return False
                elif args(e)[1] == 'insert':
                    i = dargs(e)[2][0]
                    if not (i.op == 'call' and i.a[0].startswith('bisect.bisect') and len(i.a[1]) == 2 and i.a[1][1] is x and
                            (i.a[1][0] is v or same_obj(i.a[1][0], v))):
                        return False
                elif not args(e)[1].startswith('insort'):
                    return False
            return True
    d = en.deref(st, v)
    return d.op == 'sorted' and ascending(d.a[1:]) and both(d.a[0])


def ascending(o):
    k, rev = (o[0] if o else NONE), (o[1] if len(o) > 1 else FALSE)
    if rev is not None and isinstance(rev, T) and (rev.op != 'const' or rev.a[0]):
        return False
    if rev is True:
        return False
    if k is None or k is NONE or not isinstance(k, T):
        return True
    if k.op == 'tuple':
        k = k.a[0]
    return k.op in ('arg', 'elem') or k.op == 'attr' and k.a[1].lstrip('_') == 'start_time'


# ---------------------------------------------------------------- S07
S07_OPAQUE = (SEQ + '.slice', SEQ + '.__init__', SEQ + '.from_notes', SEQ + '.merge', SEQ + '.extend', SEQ + '.append', INSTR + '.__init__',
              PKG + 'midi.midi_time_signature.MidiTempoSignature.__init__', PKG + 'midi.midi_key_signature.MidiKeySignature.__init__',
              PKG + 'midi.midi_time_signature.MidiTimeSignature.__init__')


def one_sequence(en, st):
    en.types[mk('param', 'midi_seq')] = ('cls', en.p.cls(SEQ))


def many_sequences(en, st):
    en.types[mk('param', 'midi_seq')] = ('list', ('cls', en.p.cls(SEQ)))


def wrong_kind(p, many):
    """the path takes a list for a single sequence, or the other way round"""
    v = mk('param', 'midi_seq')
    for a, q in conj(p.guards):
        if a.op == 'isinst' and a.a[0] is v:
            seq = any(k.op == 'cls' and k.a[0] == SEQ for k in a.a[1])
            lst = any(k.op == 'ext' and k.a[0] == 'builtins.list' for k in a.a[1])
            if q != (lst if many else seq) and seq != lst:
                return True
    return False


def unint(t):
    while t.op == 'call' and t.a[0] == 'int' and len(t.a[1]) == 1 and not t.a[2]:
        t = t.a[1][0]
    return t


class Tables:
    """the two tables of the collection: number -> key and key -> sequence (found from what create_track stores)"""

    def __init__(self, path, names):
        self.path, self.names = path, names
        self.local = {}
        for e, ch in walk(path.events):
            if kind(e) == 'setattr' and args(e)[0] is ME and args(e)[1] in names:
                self.local.setdefault(args(e)[2], args(e)[1])
        for (o, nm), v in path.st.heap.items():
            if o is ME and nm in names and v.op == 'new':
                self.local.setdefault(v, nm)

    def which(self, t):
        """'T', 'S' or None"""
        nm = None
        if t.op == 'attr' and t.a[0] is ME:
            nm = t.a[1]
        elif t in self.local:
            nm = self.local[t]
        elif t.op == 'content':
            o = t.a[0]
            nm = self.local.get(mk('new', *o.a))
        elif t.op in ('lh', 'lo', 'lv'):
            for x in t.a:
                if isinstance(x, tuple) and ME in x:
                    nm = next((y for y in x if y in self.names), None)
                if isinstance(x, T) and x.op in ('lh', 'lv'):
                    return self.which(x)
            if nm is None and ME in t.a:
                nm = next((y for y in t.a if isinstance(y, str) and y in self.names), None)
        return self.names.get(nm)

    def key(self, t):
        """a key, up to int() and the identity map T"""
        t = unint(t)
        while t.op == 'item' and self.which(t.a[0]) == 'T':
            t = unint(t.a[1])
        if t.op == 'mcall' and t.a[1] == 'get' and self.which(t.a[0]) == 'T':
            return self.key(t.a[2][0])
        return t

    def present(self, guards, k):
        """True: the path knows k is stored; False: it knows it is not; None"""
        if k.op == 'elem' and self.which(k.a[0]):
            return True                 # a key of the table itself
        def says(want):
            def pred(a, p):
                if a.op == 'in' and self.which(a.a[1]) and self.key(a.a[0]) is k:
                    return p is want
                # no sequence and no number is None
                if a.op == 'isnone' and a.a[0].op == 'mcall' and a.a[0].a[1] == 'get' and self.which(a.a[0].a[0]) and self.key(a.a[0].a[2][0]) is k:
                    return p is not want
                return a.op == 'isnone' and p and not want and a.a[0].op == 'item' and self.which(a.a[0].a[0]) and self.key(a.a[0].a[1]) is k
            return pred
        return True if holds(guards, says(True)) else False if holds(guards, says(False)) else None


def table_names(ctx):
    names = {}
    for p in ctx.returns(SEQS + '.create_track', opaque=S07_OPAQUE):
        for e, ch in walk(p.events):
            if kind(e) != 'store':
                continue
            b = args(e)[0]
            nm = b.a[1] if b.op == 'attr' and b.a[0] is ME else next((n for (o, n), v in p.st.heap.items() if o is ME and v is b), None)
            if nm is None:
                continue
            v = dargs(e)[2]
            names[nm] = 'S' if (v.op == 'new' and v.a[0] == SEQ) or (v.op == 'fcall' and v.a[0].startswith(SEQ)) else 'T'
    if sorted(names.values()) != ['S', 'T']:
        raise Unproved('create_track does not store a sequence in one table and its key in another: %s' % names)
    return names


def none_tables(path, names):
    """the path assumes a table that the constructor always creates is missing / a key in a table that does not exist"""
    tb = Tables(path, names)
    if any(a.op == 'isnone' and q and a.a[0].op == 'item' and tb.which(a.a[0].a[0]) for a, q in conj(path.guards)):
        return True                     # neither keys nor sequences are None
    t_name = next(n for n, w in names.items() if w == 'T')
    if path.guards.get(mk('isnone', mk('attr', ME, t_name))):
        return True
    s_name = next(n for n, w in names.items() if w == 'S')
    if path.guards.get(mk('isnone', mk('attr', ME, s_name))):
        return any(a.op == 'in' and p and a.a[1] is mk('attr', ME, t_name) for a, p in conj(path.guards))
    return False


def segments(events, guards=frozenset()):
    """(guards, direct events) of the path body and of every loop iteration"""
    own = [e for e in events if kind(e) != 'loop']
    yield guards, own
    for e in events:
        if kind(e) == 'loop':
            for lp in args(e)[0].a[3]:
                if out_kind(lp) != 'raise':
                    yield from segments(lp.a[1], guards | conj(lp.a[0]))


def made_from(p, v):
    """call that made the value; None if it is not a new object"""
    if v.op == 'fcall':
        return v
    return p.st.heap.get((v, '__ctor__'))


@prop('S07', 'On every path of every public method of the collection the stores into its two tables (found from what '
      'create_track stores) are compared: each key is stored under itself, both tables get the same keys, only the two '
      'assignment methods and nobody else may store under a key the path does not know to be absent, a merge goes to the '
      'sequence of the same key, nothing is ever removed, and reading gives the sequence of the key that was asked for.',
      assumptions=('int(x) and x are the same key',))
def s07(ctx):
    ctx.rule('pairs', 'a sequence and its key are stored together, under the key asked for')
    ctx.rule('absent', 'a track is only created under an index that has none')
    ctx.rule('keep', 'nothing is removed from the tables')
    ctx.rule('create', 'a new track has the program, name, drum flag and resolution it was asked for')
    ctx.rule('read', 'reading an index gives the sequence stored under it')
    ctx.rule('assign', 'assignment stores what it is given under the index it is given')
    ctx.rule('merge', 'a sequence for an existing program is merged into that one')
    names = table_names(ctx)
    assign = ('__setitem__', 'set_sequence')
    for nm, f in public_methods(ctx, SEQS):
        if '.' in nm:
            continue
        setups = (one_sequence, many_sequences) if nm == '__init__' else (None,)
        for su in setups:
            for p in ctx.returns(SEQS + '.' + nm, opaque=S07_OPAQUE, setup=su):
                if none_tables(p, names):
                    continue
                if su is not None and wrong_kind(p, su is many_sequences):
                    continue
                tb = Tables(p, names)
                table_path(ctx, nm, f, p, tb, nm in assign)
    # create
    f = ctx.p.func(SEQS + '.create_track')
    P = {x: mk('param', x) for x in f.params}
    for p in ctx.returns(SEQS + '.create_track', opaque=S07_OPAQUE):
        if none_tables(p, names):
            continue
        tb = Tables(p, names)
        k = P['track_idx']
        st = [e for e, ch in walk(p.events) if kind(e) == 'store' and tb.which(args(e)[0]) == 'S']
        ctx.need(tb.key(p.value) is k, 'create', 'create_track result', 'the result is %s, not the index of the track' % short(p.value), f.loc())
        was = tb.present(p.guards, k)
        if was:
            ctx.need(not st, 'create', 'create_track existing', 'the track that already exists is replaced', f.loc())
        else:
            ctx.need(len(st) == 1 and new_sequence(ctx, p, args(st[0])[2], P), 'create', 'create_track new',
                     'a new track is not made with the program, name, drum flag and resolution asked for: %s' %
                     short(why_new(ctx, p, args(st[0])[2]) if st else 'nothing is stored', 300), f.loc())
    # get_track / __getitem__
    f = ctx.p.func(SEQS + '.get_track')
    P = {x: mk('param', x) for x in f.params}
    for nm in ('get_track', '__getitem__'):
        g = ctx.p.func(SEQS + '.' + nm)
        k = mk('param', g.params[1])
        for p in ctx.returns(SEQS + '.' + nm, opaque=S07_OPAQUE):
            if none_tables(p, names):
                continue
            tb = Tables(p, names)
            st = [e for e, ch in walk(p.events) if kind(e) == 'store' and tb.which(args(e)[0]) == 'S']
            v = p.value
            ok = v.op == 'item' and tb.which(v.a[0]) == 'S' and tb.key(v.a[1]) is k
            ok = ok or (len(st) == 1 and tb.key(args(st[0])[1]) is k and args(st[0])[2] is v)
            ctx.need(ok, 'read', nm, 'the result is %s, not the sequence of the index' % short(v), g.loc())
            if nm == 'get_track' and st:
                ctx.need(new_sequence(ctx, p, args(st[0])[2], P), 'create', 'get_track new',
                         'a new track is not made with the program, name, drum flag and resolution asked for', g.loc())
    for nm in assign:
        g = ctx.p.func(SEQS + '.' + nm)
        k, v = mk('param', g.params[1]), mk('param', g.params[2])
        for p in ctx.returns(SEQS + '.' + nm, opaque=S07_OPAQUE):
            if none_tables(p, names):
                continue
            tb = Tables(p, names)
            st = [e for e, ch in walk(p.events) if kind(e) == 'store' and tb.which(args(e)[0]) == 'S']
            ok = len(st) == 1 and tb.key(args(st[0])[1]) is k
            if ok:
                x = args(st[0])[2]
                src = made_from(p, x)
                is_seq = None
                for a, q in conj(p.guards):
                    if a.op == 'isinst' and a.a[0] is v and any(c.op == 'cls' and c.a[0] == SEQ for c in a.a[1]):
                        is_seq = q
                if is_seq is False:
                    ok = src is not None and is_list_of(fc_arg(src, 'notes'), v)
                else:
                    ok = x is v
            ctx.need(ok, 'assign', nm, 'stores %s' % (short(args(st[0])[2]) if st else 'nothing'), g.loc())
    ctx.floor('pairs', 8)
    ctx.floor('create', 4)
    ctx.floor('read', 3)
    ctx.floor('assign', 4)
    ctx.floor('merge', 1)


def is_list_of(t, v):
    return t is not None and (t is v or is_copy_of(t, v))


def why_new(ctx, p, v):
    return made_from(p, v) or v


def new_sequence(ctx, p, v, P):
    c = made_from(p, v)
    if c is None:
        return False
    if fc_arg(c, 'resolution') is not mk('attr', ME, 'resolution'):
        return False
    i = fc_arg(c, 'instrument')
    if i is None:
        return False
    g = made_from(p, i)
    return g is not None and g.a[0].startswith(INSTR) and unint(fc_arg(g, 'instrument')) is P['program'] and \
        fc_arg(g, 'name') is P['name'] and fc_arg(g, 'is_drum') is P['is_drum']


def table_path(ctx, nm, f, p, tb, assigns):
    first = True
    for guards, evs in segments(p.events, conj(p.guards)):
        keys = {'S': [], 'T': []}
        empty = {w for t, n in tb.local.items() for w in [tb.names[n]] if first}
        first = False
        if holds(guards, lambda a, q: a.op == 'isinst' and q and a.a[0].op == 'elem' and root(a.a[0]) is mk('param', 'midi_seq')
                 and any(k.op == 'ext' and k.a[0] == 'builtins.list' for k in a.a[1])):
            continue                    # a list in place of a sequence
        for e in evs:
            k = kind(e)
            if k == 'store' and tb.which(args(e)[0]):
                w = tb.which(args(e)[0])
                x = tb.key(args(e)[1])
                keys[w].append(x)
                if w == 'T':
                    ctx.need(tb.key(args(e)[2]) is x, 'pairs', nm, 'number %s is mapped to key %s' % (short(x), short(args(e)[2])), f.loc())
                fresh = w in empty
                empty.discard(w)
                if not assigns:
                    ctx.need(tb.present(guards, x) is False or fresh or w == 'S' and cut_of(tb, x, dargs(e)[2]), 'absent', nm,
                             'stores under %s although a track may already be there' % short(x), f.loc())
            elif k == 'delitem' and tb.which(args(e)[0]):
                ctx.bad('keep', nm, 'deletes a track', f.loc())
            elif k == 'mut' and tb.which(args(e)[0]):
                if args(e)[1] in ('pop', 'clear', 'popitem', 'update', 'setdefault', 'remove', '__delitem__', '__setitem__'):
                    ctx.bad('keep', nm, 'changes a table by %s' % args(e)[1], f.loc())
            elif k == 'mut' and args(e)[0].op == 'item' and tb.which(args(e)[0].a[0]) == 'S' and args(e)[1] in ('merge', 'extend', 'append'):
                merge_ok(ctx, nm, f, tb, guards, args(e)[0].a[1], args(e)[2][0] if args(e)[2] else None)
            elif k == 'fcall' and args(e)[0].a[0] in (SEQ + '.merge', SEQ + '.extend', SEQ + '.append'):
                c = args(e)[0]
                tgt = fc_arg(c, 'self')
                if tgt is not None and tgt.op == 'item' and tb.which(tgt.a[0]) == 'S':
                    merge_ok(ctx, nm, f, tb, guards, tgt.a[1], fc_arg(c, 'other'))
            elif k == 'setattr' and args(e)[0] is ME and args(e)[1] in tb.names:
                v = dargs(e)[2]
                blank = v.op in ('dictlit',) and not v.a[0] or v is NONE or v.op == 'new' or v.op == 'fcall'
                was = nm == '__init__' or tb.path.guards.get(mk('isnone', mk('attr', ME, args(e)[1])))
                ctx.need(blank and was, 'keep', nm + ' ' + args(e)[1], 'the table is replaced by %s' % short(v), f.loc())
        for x in keys['S']:
            ctx.need(x in keys['T'] or tb.present(guards, x), 'pairs', nm, 'a sequence is stored under %s without its number' % short(x), f.loc())
        for x in keys['T']:
            ctx.need(x in keys['S'] or tb.present(guards, x), 'pairs', nm, 'the number %s is stored without its sequence' % short(x), f.loc())
        if nm == '__init__':
            for x in keys['S']:
                st = [e for e in evs if kind(e) == 'store' and tb.which(args(e)[0]) == 'S'][0]
                ctx.need(x is number_of(args(st)[2]), 'pairs', '__init__ number', 'a sequence is stored under %s, not the program of its instrument' % short(x), f.loc())


def cut_of(tb, k, v):
    """v is a part of the sequence stored under k (which part: S10)"""
    t = fc_arg(v, 'self') if v.op == 'fcall' and v.a[0] == SEQ + '.slice' else v.a[0] if v.op in ('mres', 'mcall') and v.a[1] == 'slice' else None
    return t is not None and t.op == 'item' and tb.which(t.a[0]) == 'S' and tb.key(t.a[1]) is k


def number_of(seq):
    return mk('attr', mk('attr', seq, 'instrument'), 'instrument_num')


def merge_ok(ctx, nm, f, tb, guards, k, other):
    if other is None:
        return
    ctx.need(tb.key(k) is number_of(other) or tb.key(k) is mk('param', 'track_idx'), 'merge', nm,
             '%s is merged into the sequence of %s' % (short(other), short(k)), f.loc())


# ---------------------------------------------------------------- S08
START = ('_start_time', 'start_time')


def note_of(t):
    """copy of a note -> the note"""
    while t.op == 'copyof':
        t = t.a[1]
    return t


def own_list(t):
    """the list of visible notes of this sequence, however wrapped -> (list, sorted by start)"""
    asc = False
    while True:
        if t.op == 'sorted':
            k = t.a[1]
            asc = asc or (k is not None and k.op == 'attr' and k.a[1] in START and not truthy_const(t.a[2]))
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('list', 'tuple', 'iter') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'copyof':
            t = t.a[1]
        elif t.op == 'new' and t.a[1] in ('init:_notes', 'init:_drum_events'):
            return mk('attr', ME, t.a[1][5:]), asc
        elif t.op == 'attr' and t.a[0] is ME and t.a[1] in LISTS:
            return t, asc
        else:
            return None, False


class NoteCases:
    """what one pass over the notes does: for each way through it the conditions, what is stored where, and how it ends"""

    def __init__(self, base, elem):
        self.base, self.elem, self.order = base, elem, ()
        self.raises = []
        self.ways = []                  # (guards, [(list, item)], heap, out)


def passes(path, lists):
    """every pass over the notes of self that fills one of the lists"""
    out, odd, seen = [], [], set()
    for v in lists:
        d = path.engine.deref(path.st, v) if v.op == 'new' else v
        parts = [('map', d)] if d.op == 'map' else []
        if d.op == 'list' and not d.a:
            continue
        if d.op == 'content':
            parts = [q for q in d.a[1] if not (q[0] == 'lit' and not q[1]) and q[0] != 'order']
        elif d.op != 'map':
            odd.append(d)
        for q in parts:
            if q[0] in ('map',):
                m = q[1]
                nc = NoteCases(m.a[0], mk('elem', m.a[0], m.a[3]))
                nc.ways = [(conj(g), [(v, x)], {}, 'fall') for g, x in m.a[2]]
                nc.partial = True
                out.append(nc)
            elif q[0] in ('copy', 'extend') and q[1].op == 'map':
                m = q[1]
                nc = NoteCases(m.a[0], mk('elem', m.a[0], m.a[3]))
                nc.ways = [(conj(g), [(v, x)], {}, 'fall') for g, x in m.a[2]]
                out.append(nc)
            elif q[0] == 'loop':
                if q[1] in seen:
                    continue
                seen.add(q[1])
                out.append(loop_cases(q[1], set(lists)))
            else:
                odd.append(d)
    return out, odd


def by_start(nc):
    """the pass goes through the notes in order of their start"""
    if own_list(nc.base)[1] and not nc.order:
        return True
    o = nc.order[-1] if nc.order else None
    return bool(o) and o[0] == 'sorted' and o[1] is not None and o[1].op == 'attr' and o[1].a[1] in START and not truthy_const(o[2])


def loop_cases(L, lists):
    nc = NoteCases(L.a[0], mk('elem', L.a[0], L.a[2]))
    nc.order = L.a[1]
    for lp in L.a[3]:
        if out_kind(lp) == 'raise':
            nc.raises.append(conj(lp.a[0]))
            continue
        heap, items = {}, []
        for e, ch in walk(lp.a[1]):
            if kind(e) == 'setattr' and isinstance(args(e)[1], str):
                heap[(args(e)[0], args(e)[1])] = dargs(e)[2]
            if kind(e) == 'mut' and (args(e)[0] in lists if lists is not None else args(e)[1] in ('append', 'add_note', 'insert', 'extend')):
                items.append((args(e)[0], args(e)[2][-1] if args(e)[1] in ('append', 'add', 'insert', 'add_note') and args(e)[2] else None))
        nc.ways.append((conj(lp.a[0]), items, heap, out_kind(lp)))
    return nc


def note_leaf(elem, s, e, extra):
    def leaf(t):
        if t.op == 'attr' and note_of(t.a[0]) is elem:
            if t.a[1] in START:
                return s
            if t.a[1] in ENDS:
                return e
        return extra.get(t)
    return leaf


def now(heap, x, names, default):
    for n in names:
        if (x, n) in heap:
            return heap[(x, n)]
    if x.op == 'copyof':
        return now(heap, x.a[1], names, default) if x.a[1].op == 'copyof' else default
    return default


ORDERS = [0, 1, 2, 3, 4]


def decide(ctx, nm, rid, nc, f, grid, spec, upper, asc):
    """every way through a pass, in every order of the times, keeps exactly what spec says.
    grid: iterable of (s, e, extra leaves); spec(s, e, extra) -> None or (start, end); upper(s, extra): no later note is kept"""
    for s, e, extra in grid:
        c = Cases(note_leaf(nc.elem, s, e, extra))
        want = spec(s, e, extra)
        some = False
        for g in nc.raises:
            v = c.lits(g)
            if v is True or v is None and want is None:
                ctx.bad(rid, nm, 'raises for a note from %s to %s with %s' % (s, e, bounds(extra)), f.loc())
        for guards, items, heap, out in nc.ways:
            if c.lits(guards) is False:
                continue
            some = some or bool(items)
            if out not in ('fall', 'continue'):
                ok = out == 'break' and not items and want is None and asc and upper(s, extra)
                ctx.need(ok, rid, nm, 'stops before all notes have been looked at (a note from %s to %s)' % (s, e), f.loc())
                continue
            if want is None:
                ctx.need(not items, rid, nm, 'a note from %s to %s is kept with %s' % (s, e, bounds(extra)), f.loc())
                continue
            if not items and getattr(nc, 'partial', False):
                continue
            if not ctx.need(len(items) == 1 and items[0][1] is not None, rid, nm, 'a note from %s to %s is stored %d times with %s' %
                            (s, e, len(items), bounds(extra)), f.loc()):
                continue
            x = items[0][1]
            if note_of(x) is not nc.elem:
                ctx.bad(rid, nm, 'stores %s instead of the note' % short(x), f.loc())
                continue
            got = (c.value(now(heap, x, START, mk('attr', nc.elem, '_start_time'))), c.value(now(heap, x, ENDS, mk('attr', nc.elem, '_end_time'))))
            ctx.need(same_pair(got, want), rid, nm, 'a note from %s to %s becomes %s with %s, expected %s' % (s, e, got, bounds(extra), want), f.loc())
        if want is not None and not some:
            ctx.bad(rid, nm, 'a note from %s to %s is dropped with %s' % (s, e, bounds(extra)), f.loc())


def same_pair(a, b):
    return all(isinstance(x, (int, float)) and abs(x - y) < 1e-15 * max(1, abs(y)) for x, y in zip(a, b))


def bounds(extra):
    return ', '.join('%s=%s' % (short(k, 60), v) for k, v in extra.items())


def note_grid(params):
    """all orders of a note's start < end and the given bounds, at uneven distances"""
    import itertools
    pts = [1, 2, 4, 7, 11]
    for s, e in itertools.combinations(pts, 2):
        for vs in itertools.product(pts, repeat=len(params)):
            yield s, e, dict(zip(params, vs))


@prop('S08', 'Every way through the pass over the notes is evaluated for every order of the note\'s start and end and the bounds '
      '(its conditions are comparisons of these, so the order decides them): exactly the notes in range may be stored, once, '
      'with the cut or shifted times; anything else a condition depends on counts as undecided and may not drop a note.',
      assumptions=('times are not NaN', 'a note that the constructor or setter refuses raises and is not dropped silently'))
def s08(ctx):
    ctx.rule('slice', 'slice keeps exactly the notes that start in [start, end), cut at end')
    ctx.rule('truncate', 'truncate keeps exactly the notes that end by the given time, as they are')
    ctx.rule('extract', 'extract puts each note into the one part its start falls in, relative to it and cut at its end')
    ctx.rule('cut', 'cut keeps the first notes')
    for nm, ps, spec, upper in (
            ('slice', ('start', 'end'), lambda s, e, lo, hi: (s, min(e, hi)) if lo <= s < hi else None, lambda s, lo, hi: s >= hi),
            ('truncate', ('end_time',), lambda s, e, hi: (s, e) if e <= hi else None, lambda s, hi: s >= hi)):
        f = ctx.p.func(SEQ + '.' + nm)
        params = [mk('param', x) for x in f.params if x != 'self'][:len(ps)]
        grid = all_scales(list(note_grid(params)))
        for p in ctx.returns(f.qualname, setup=seq_state):
            if bad_type(p.guards):
                continue
            res = p.value
            lists = [p.st.heap[(res, l)] for l in LISTS if (res, l) in p.st.heap]
            ncs, odd = passes(p, lists)
            vis = drum_flag(p, ME)
            mine = mk('attr', ME, LISTS[1] if vis else LISTS[0])
            ncs = [n for n in ncs if not impossible(p, n)]
            if odd or len(ncs) != 1 or own_list(ncs[0].base)[0] is not mine:
                ctx.bad(nm, nm, 'the notes of the result are not those of one pass over the notes: %s' %
                        short(', '.join(short(o) for o in odd) or ', '.join(short(n.base) for n in ncs) or 'nothing is stored'), f.loc())
                continue
            decide(ctx, nm, nm, ncs[0], f, grid, lambda s, e, x: spec(s, e, *[x[q] for q in params]),
                   lambda s, x: upper(s, *[x[q] for q in params]), by_start(ncs[0]))
    # extract
    f = ctx.p.func(SEQ + '.extract')
    splits = mk('param', [x for x in f.params if x != 'self'][0])
    for p in ctx.returns(f.qualname, setup=seq_state):
        if bad_type(p.guards):
            continue
        parts = p.value
        vis = drum_flag(p, ME)
        mine = mk('attr', ME, LISTS[1] if vis else LISTS[0])
        ncs = [loop_cases(L, None) for L, ch in loops(p.events) if not ch and own_list(L.a[0])[0] is mine]
        ncs = [n for n in ncs if any(i for g, i, h, o in n.ways)]
        if len(ncs) != 1:
            ctx.bad('extract', 'extract', 'the parts are not filled by one pass over the notes', f.loc())
            continue
        ctx.need(part_count(p, parts, splits), 'extract', 'extract parts', 'not one part for each pair of split times: %s' %
                 short(p.engine.deref(p.st, parts)), f.loc())
        for guards, items, heap, out in ncs[0].ways:
            extract_way(ctx, p, f, ncs[0], parts, splits, guards, items, heap, out)
    # cut
    for nm in ('cut', 'cut_in_place'):
        f = ctx.p.func(SEQ + '.' + nm)
        n = mk('param', [x for x in f.params if x != 'self'][0])
        for p in ctx.returns(f.qualname, setup=seq_state):
            if bad_type(p.guards):
                continue
            obj = ME if nm == 'cut_in_place' else p.value
            vis = drum_flag(p, ME)
            mine = mk('attr', ME, LISTS[1] if vis else LISTS[0])
            lists = [p.st.heap[(obj, l)] for l in LISTS if (obj, l) in p.st.heap]
            if nm == 'cut_in_place':
                lists = [p.st.heap[(ME, mine.a[1])]]
            want = mk('item', mine, mk('slice', NONE, n, NONE))
            if any(a.op == 'isnone' and q and a.a[0] is want for a, q in conj(p.guards)):
                continue
            ok = any(first_of(p, v, want) for v in lists)
            ctx.need(ok, 'cut', nm, 'the notes of the result are %s' % ', '.join(short(p.engine.deref(p.st, v)) for v in lists), f.loc())
    ctx.floor('slice', 100)
    ctx.floor('truncate', 50)
    ctx.floor('extract', 20)
    ctx.floor('cut', 3)


def impossible(p, nc):
    return False


def first_of(p, v, want):
    d = p.engine.deref(p.st, v) if v.op == 'new' else v
    if d is want or v is want:
        return True
    if d.op == 'item' and d.a[1].op == 'slice':
        return d.a[1] is want.a[1] and first_of(p, d.a[0], want.a[0])
    if d.op == 'copyof':
        return first_of(p, d.a[1], want)
    if d.op == 'map' and len(d.a[2]) == 1:
        (g, x), = d.a[2]
        return not conj(g) and note_of(x).op == 'elem' and first_of(p, d.a[0], want)
    if d.op == 'content':
        parts = [q for q in d.a[1] if not (q[0] == 'lit' and not q[1])]
        return len(parts) == 1 and parts[0][0] in ('copy', 'extend') and first_of(p, parts[0][1], want)
    return d.op == 'call' and d.a[0] in ('list', 'tuple') and len(d.a[1]) == 1 and first_of(p, d.a[1][0], want)


def part_count(p, parts, splits):
    """a list with one element for each two neighbouring split times"""
    d = p.engine.deref(p.st, parts) if parts.op == 'new' else parts
    base = None
    if d.op == 'map' and len(d.a[2]) == 1 and not conj(next(iter(d.a[2]))[0]):
        base = d.a[0]
    elif d.op == 'map' and all(not mentions_elem(g) for g, x in d.a[2]):
        base = d.a[0]
    elif d.op == 'content':
        ls = [q for q in d.a[1] if not (q[0] == 'lit' and not q[1])]
        if len(ls) == 1 and ls[0][0] == 'loop':
            L = ls[0][1]
            if all(sum(1 for e, c in walk(lp.a[1]) if kind(e) == 'mut' and args(e)[0] is parts and args(e)[1] == 'append') == 1 and normal(lp)
                   for lp in L.a[3] if out_kind(lp) != 'raise'):
                base = L.a[0]
    if base is None:
        return False
    n = mk('call', 'len', (splits,), ())
    less = binop('-', n, const(1))
    if base.op == 'range':
        lo, hi, st = base.a
        return binop('-', hi, lo) is less and is_one(st)
    return base.op == 'item' and base.a[0] is splits and base.a[1] in (mk('slice', NONE, const(-1), NONE), mk('slice', const(1), NONE, NONE)) or \
        base.op == 'zip' and any(x.op == 'item' and x.a[0] is splits and x.a[1] in
                                 (mk('slice', NONE, const(-1), NONE), mk('slice', const(1), NONE, NONE)) for x in base.a[0])


def is_one(t):
    return t is None or (num(t) and t.a[0] == 1)


def mentions_elem(g):
    return any(mentions(a, lambda t: t.op == 'elem') for a, q in conj(g))


def extract_way(ctx, p, f, nc, parts, splits, guards, items, heap, out):
    t0 = mk('item', splits, const(0))
    s_terms = lambda t: t.op == 'attr' and t.a[1] in START and note_of(t.a[0]) is nc.elem

    def outside(a, q):
        """start before the first split"""
        return a.op == 'lt' and q and s_terms(a.a[0]) and a.a[1] is t0

    ks = set()
    for a, q in conj(guards):
        for t in subterms(a):
            if t.op == 'call' and t.a[0] == 'next' or t.op == 'lo':
                ks.add(t)
    if not items:
        none = holds(guards, lambda a, q: a.op == 'any' and not q and len(a.a[1]) == 1 and position_cases(
            a.a[0], a.a[2], splits, s_terms, [(next(iter(a.a[1])), mk('idx', a.a[0], a.a[2]), True)], None))
        none = none or [a for a, q in conj(guards) if a.op == 'isnone' and q and a.a[0] in ks and finds(a.a[0], splits, s_terms)]
        n = mk('call', 'len', (splits,), ())

        def past(a, q):
            if a.op != 'lt' or q:
                return False
            d = binop('+', binop('-', a.a[0], a.a[1]), n)
            return s_terms(a.a[0]) and a.a[1] is mk('item', splits, const(-1)) or \
                d.op == 'call' and d.a[0] in ('bisect.bisect_right', 'bisect.bisect') and d.a[1][0] is splits and s_terms(d.a[1][1])
        beyond = holds(guards, past)
        if none or beyond:
            ctx.need(out in ('fall', 'continue') or (out == 'break' and by_start(nc)), 'extract', 'extract',
                     'notes after one outside all parts are not looked at although they are not in order', f.loc())
        else:
            ctx.need(holds(guards, outside) and out in ('fall', 'continue'), 'extract', 'extract',
                     'a note is left out although it may belong to a part', f.loc())
        return
    tgt, x = items[0]
    ok = len(items) == 1 and x is not None and note_of(x) is nc.elem and out in ('fall', 'continue')
    if not ctx.need(ok, 'extract', 'extract', 'a note is stored %d times' % len(items), f.loc()):
        return
    while tgt.op == 'attr':
        tgt = tgt.a[0]
    ok = tgt.op == 'item' and same_obj(tgt.a[0], parts)
    k = tgt.a[1] if ok else None
    ok = ok and (finds(k, splits, s_terms, guards) or by_bisect(k, splits, s_terms, guards))
    if not ctx.need(ok, 'extract', 'extract', 'a note is put into %s: not shown to be the part its start falls in' % short(tgt), f.loc()):
        return
    lo, hi = mk('item', splits, k), mk('item', splits, binop('+', k, const(1)))
    cases = [(a, b, s, e) for a in (0, 1, 3) for s in (a, a + 0.5, a + 1.25) for b in (s + 0.25, s + 2)
             for e in (s + 0.125, s + 0.25, s + 1, s + 2, s + 5)]
    for a, b, s, e in all_scales(cases):
        c = Cases(note_leaf(nc.elem, s, e, {lo: a, hi: b, k: 1}))
        got = (c.value(now(heap, x, START, mk('attr', nc.elem, '_start_time'))), c.value(now(heap, x, ENDS, mk('attr', nc.elem, '_end_time'))))
        ctx.need(same_pair(got, (s - a, min(e, b) - a)), 'extract', 'extract times',
                 'in the part from %s to %s a note from %s to %s becomes %s' % (a, b, s, e, got), f.loc())


def finds(k, splits, s_terms, guards=frozenset()):
    """k = the first i with split i <= start < split i+1 (or None)"""
    if k.op in ('elem', 'idx'):         # the place at which a search stopped
        return holds(guards, lambda a, q: a.op == 'any' and q and a.a[0] is k.a[0] and a.a[2] == k.a[1] and len(a.a[1]) == 1 and
                     position_cases(a.a[0], a.a[2], splits, s_terms, [(next(iter(a.a[1])), k, True)], None))
    if k.op == 'call' and k.a[0] == 'next' and k.a[1] and k.a[1][0].op == 'map' and len(k.a[1][0].a[2]) == 1:
        m = k.a[1][0]
        (g, v), = m.a[2]
        return position_cases(m.a[0], m.a[3], splits, s_terms, [(g, v, True)], None)
    if k.op == 'lo' and k.a[0].op == 'loop':
        L, var = k.a
        if dict(L.a[4]).get(var) is not NONE:
            return False
        ways = []
        for lp in L.a[3]:
            if out_kind(lp) == 'raise':
                continue
            new = dict(lp.a[3]).get(var, var)
            if out_kind(lp) not in ('fall', 'continue', 'break') or (new is not var) != (out_kind(lp) == 'break'):
                return False
            ways.append((lp.a[0], new, new is not var))
        return position_cases(L.a[0], L.a[2], splits, s_terms, ways, var)
    return False


def position_cases(base, lid, splits, s_terms, ways, var):
    lows, highs = set(), set()
    head, tail = mk('slice', NONE, const(-1), NONE), mk('slice', const(1), NONE, NONE)
    i = mk('idx', base, lid)
    if base.op == 'item' and base.a[0] is splits and base.a[1] is head:
        lows |= {mk('elem', base, lid), mk('item', splits, i), mk('item', base, i)}
        highs.add(mk('item', splits, binop('+', i, const(1))))
    elif base.op == 'range' and num(base.a[0]) and base.a[0].a[0] == 0 and is_one(base.a[2]) and \
            base.a[1] is binop('-', mk('call', 'len', (splits,), ()), const(1)):
        i = mk('elem', base, lid)
        lows.add(mk('item', splits, i))
        highs.add(mk('item', splits, binop('+', i, const(1))))
    elif base.op == 'zip':
        for g, v, found in ways:
            for t in subterms(mk('t', *[a for a, q in conj(g)])):
                if t.op == 'elem' and t.a[0].op == 'item' and t.a[0].a[0] is splits:
                    (lows if t.a[0].a[1] is head else highs if t.a[0].a[1] is tail else set()).add(t)
                elif t.op == 'elem' and t.a[0] is splits:
                    lows.add(t)
    else:
        return False
    if any(found and v is not i and v.op != 'idx' for g, v, found in ways):
        return False
    for s, lo, hi in all_scales([(s, lo, hi) for s in range(5) for lo in range(5) for hi in range(lo, 5)]):
        c = Cases(lambda t: s if s_terms(t) else lo if t in lows else hi if t in highs else None)
        want = lo <= s < hi
        for g, v, found in ways:
            r = c.lits(g)
            if found and (r is not want) or not found and want and r is not False:
                return False
    return True


def by_bisect(k, splits, s_terms, guards):
    b = binop('+', k, const(1))
    if not (b.op == 'call' and b.a[0] in ('bisect.bisect_right', 'bisect.bisect') and len(b.a[1]) == 2 and b.a[1][0] is splits and
            s_terms(b.a[1][1]) and not b.a[2]):
        return False
    last = mk('item', splits, const(-1))
    n = mk('call', 'len', (splits,), ())
    low = holds(guards, lambda a, q: a.op == 'lt' and not q and s_terms(a.a[0]) and a.a[1] is mk('item', splits, const(0)))
    high = holds(guards, lambda a, q: a.op == 'lt' and q and (s_terms(a.a[0]) and a.a[1] is last or
                                                              binop('-', a.a[1], a.a[0]) is binop('-', n, b)))
    return low and high


# ------------------------------------------------------------------ S09: what a sequence says about itself
def segs(p, v, facts=frozenset()):
    """the elements of a list value, in order: [('each', base, order, elem, value)] or ('one', value); None if not such a value"""
    en, st = p.engine, p.st
    if v.op == 'new' and v in st.cont:
        return segs_of(p, st.cont[v], v, facts)
    if v.op == 'content':
        return segs_of(p, v.a[1], as_new(v), facts)
    if v.op == 'list':
        return [('one', x) for x in v.a]
    if v.op == '+' or v.op == 'bin' and v.a[0] == '+':
        out = []
        for x in (v.a if v.op == '+' else v.a[1:]):
            s = segs(p, x, facts)
            if s is None:
                return None
            out += s
        return out
    if v.op == 'call' and v.a[0] in ('list', 'tuple', 'iter') and len(v.a[1]) <= 1:
        return segs(p, v.a[1][0], facts) if v.a[1] else []
    if v.op == 'mcall' and v.a[1] == 'tolist':
        return segs(p, v.a[0], facts)
    if v.op == 'copyof' and v.a[0] == 'shallow':
        return segs(p, v.a[1], facts)
    if v.op == 'item' and v.a[1].op == 'slice' and all(x is NONE or x is None or x is const(0) and i == 0 for i, x in enumerate(v.a[1].a)):
        return segs(p, v.a[0], facts)
    if v.op == 'sorted':
        s = segs(p, v.a[0], facts)
        if s is not None and len(s) == 1 and s[0][0] == 'each' and s[0][3] is s[0][4]:
            return [s[0][:2] + (s[0][2] + (('sorted',) + tuple(v.a[1:]),),) + s[0][3:]]
        return None
    if v.op == 'map':
        alts = [(frozenset(l for l in conj(g) - facts if not sure(l, facts)), x) for g, x in v.a[2] if not any((l[0], not l[1]) in facts for l in conj(g))]
        if not alts and v.a[2]:
            return []
        if len(alts) != 1 or alts[0][0]:
            return None
        x = alts[0][1]
        e = mk('elem', v.a[0], v.a[3])
        return over(p, v.a[0], v.a[1], e, x, facts)
    if v.op in ('attr', 'param', 'item', 'elem') or v.op == 'call' and v.a[0] == 'numpy.arange':
        e = mk('elem', v, -1)
        return [('each', v, (), e, e)]
    return None


def sure(l, facts):
    """a choice one way of which is known to hold"""
    return l[0].op == 'or' and l[1] and any(all(y in facts for y in conj(alt)) for alt in l[0].a[0])


def over(p, base, order, e, x, facts=frozenset()):
    """a pass over base giving x for its element e"""
    inner = segs(p, base, facts)
    if inner == []:
        return []
    if inner is None or len(inner) != 1 or inner[0][0] != 'each' or inner[0][3] is not inner[0][4]:
        return None
    return [('each', inner[0][1], inner[0][2] + tuple(order or ()), e, x)]


def segs_of(p, parts, v, facts=frozenset()):
    out = []
    for q in parts:
        if q[0] == 'lit':
            out += [('one', x) for x in q[1]]
        elif q[0] == 'append':
            out.append(('one', q[1]))
        elif q[0] in ('copy', 'extend'):
            s = segs(p, q[1], facts)
            if s is None:
                return None
            if q[0] == 'copy' and len(q) > 2 and q[2]:
                if len(s) != 1 or s[0][0] != 'each':
                    return None
                s = [s[0][:2] + (s[0][2] + tuple(q[2]),) + s[0][3:]]
            out += s
        elif q[0] == 'order' and not out:
            continue
        elif q[0] == 'order' and len(out) == 1 and out[0][0] == 'each' and out[0][3] is out[0][4]:
            out = [out[0][:2] + (out[0][2] + (q[1],),) + out[0][3:]]
        elif q[0] == 'loop':
            L = q[1]
            xs = []
            for lp in L.a[3]:
                if out_kind(lp) == 'raise' or any((a, not q) in facts for a, q in lp.a[0]):
                    continue
                if not normal(lp):
                    return None
                ev = [e for e, _ in walk(lp.a[1]) if kind(e) == 'mut' and v is not None and same_obj(args(e)[0], v)]
                if len(ev) > 1 or ev and args(ev[0])[1] != 'append':
                    return None
                xs.append(args(ev[0])[2][0] if ev else None)
            if set(xs) == {None}:
                continue
            if len(set(xs)) != 1 or None in xs:
                return None
            s = over(p, L.a[0], L.a[1], mk('elem', L.a[0], L.a[2]), xs[0], facts)
            if s is None:
                return None
            out += s
        else:
            return None
    return out


def own_state(en, st):
    """self is an existing sequence; its instrument is an instrument object"""
    seq_state(en, st)
    st.guards[mk('isinst', mk('attr', ME, 'instrument'), frozenset({mk('ext', 'builtins.int')}))] = False
    st.guards[mk('isinst', mk('attr', ME, 'instrument'), frozenset({mk('cls', INSTR)}))] = True


def flags(p, obj):
    """[(is a drum sequence, facts saying so)] the path allows"""
    d = drum_flag(p, obj)
    if d is not None:
        return [(d, conj(p.guards))]
    i = instrument_of(p, obj)
    a = mk('truthy', p.st.heap.get((i, 'is_drum'), mk('attr', i, 'is_drum')))
    there = {(mk('isnone', i), False)}              # a drum sequence has an instrument
    return [(d, conj(p.guards) | {(a, d)} | (there if d else frozenset())) for d in (True, False)]


def possible(p, facts):
    """some alternative of the conditions of the path agrees with the facts"""
    for a, q in conj(p.guards):
        if a.op == 'or' and q and all(any((x, not y) in facts for x, y in conj(alt)) for alt in a.a[0]):
            return False
        if (a, not q) in facts:
            return False
    return True


def whole(s, lst, value=None):
    """the elements are those of lst, in stored order, each as value(elem)"""
    return s is not None and len(s) == 1 and s[0][0] == 'each' and s[0][1] is lst and not s[0][2] and \
        (s[0][4] is s[0][3] if value is None else value(s[0][4], s[0][3]))


def by_start_order(o):
    return len(o) == 1 and o[0][0] == 'sorted' and o[0][1] is not None and \
        o[0][1].op == 'attr' and o[0][1].a[1] in START and o[0][1].a[0].op == 'arg' and not truthy_const(o[0][2])


def nothing_in(p, facts, lst):
    """the path is only taken when lst is empty"""
    def empty(a, q):
        return not q and (a.op == 'truthy' and a.a[0] is lst) or q and a.op == 'isnone' and a.a[0] is lst or \
            q and a.op == 'eq' and const(0) in a.a and any(x.op == 'call' and x.a[0] == 'len' and x.a[1][0] is lst for x in a.a)
    alts = [conj(p.guards)]
    for a, q in conj(p.guards):
        if a.op == 'or' and q:
            alts = [x | conj(alt) for x in alts for alt in a.a[0] if not any((y, not z) in facts for y, z in conj(alt))]
    return all(any(empty(a, q) for a, q in x) for x in alts)


@prop('S09', 'Every path of the queries of a sequence, of its constructor, of addition, shifting and stretching is enumerated with '
      'the two note lists of the sequence followed symbolically; results are reduced to passes over those lists and compared '
      'with the list the drum flag selects, its order and the value taken from each note.')
def s09(ctx):
    ctx.rule('list', 'length, iteration, indexing and events are those of the notes the sequence holds')
    ctx.rule('pitches', 'the pitches are those of every note in order of start time')
    ctx.rule('export', 'the exporter gets the file, the instrument, every note in order of start time and the total time')
    ctx.rule('quantised', 'a sequence counts as quantised exactly when each of its notes does')
    ctx.rule('each', 'shifting and stretching reach every note once, with the given amount')
    ctx.rule('total', 'shifting moves the total time by the same amount')
    ctx.rule('events', 'control changes and bends are added once, at the end')
    ctx.rule('tempo', 'the initial tempo is that of the change at time zero, else of the first one')
    ctx.rule('create', 'a sequence is created with exactly the notes and drum events it is given')
    ctx.rule('add', 'addition gives a new sequence of the instrument with the notes of both')
    ctx.rule('refuse', 'addition is refused only for another type, instrument or a note of another instrument')
    own = {True: mk('attr', ME, LISTS[1]), False: mk('attr', ME, LISTS[0])}

    def query(nm, rid, check, opaque=(), method=None):
        f = ctx.p.func(SEQ + '.' + nm)
        n = 0
        for p in ctx.run(f.qualname, setup=own_state, opaque=opaque):
            if p.kind == 'raise' or bad_type(p.guards) or none_lists(p):
                continue
            for d, facts in flags(p, ME):
                if not possible(p, facts):
                    continue
                n += 1
                why = check(p, f, d, facts)
                ctx.need(why is None, rid, nm, '%s sequence: %s' % ('drum' if d else 'melodic', why), f.loc())
        ctx.need(n >= 2, rid, nm, 'no result for every kind of sequence', f.loc())

    def len_ok(p, f, d, facts):
        v = p.dvalue
        if v.op == 'call' and v.a[0] == 'len' and whole(segs(p, v.a[1][0], facts), own[d]):
            return None
        return 'its length is %s' % short(v)

    def item_ok(p, f, d, facts):
        i = mk('param', [x for x in f.params if x != 'self'][0])
        v = p.value
        if v.op == 'item' and v.a[1] is i and whole(segs(p, v.a[0], facts), own[d]):
            return None
        return 'an index gives %s' % short(p.dvalue)

    def all_ok(p, f, d, facts):
        return None if whole(segs(p, p.value, facts), own[d]) else 'it gives %s' % short(p.dvalue)

    query('__len__', 'list', len_ok)
    query('__getitem__', 'list', item_ok)
    query('__iter__', 'list', all_ok)
    query('get_midi_events', 'list', all_ok)

    def pitch_ok(p, f, d, facts):
        s = segs(p, p.value, facts)
        if s == [] and nothing_in(p, facts, own[d]):
            return None
        if s and len(s) == 1 and s[0][0] == 'each' and s[0][1] is own[d] and by_start_order(s[0][2]) and \
                s[0][4].op == 'attr' and s[0][4].a[1].lstrip('_') == 'pitch' and same_elem(s[0][4].a[0], s[0][3]):
            return None
        return 'the pitches are %s' % short(p.dvalue, 200)
    query('as_note_seq', 'pitches', pitch_ok)

    def export_ok(p, f, d, facts):
        ps = [x for x in f.params if x != 'self']
        cb, path = mk('param', ps[1]), mk('param', ps[0])
        ev = [e for e, ch in walk(p.events) if kind(e) == 'call' and len(args(e)) > 1 and args(e)[1] is cb]
        if len(ev) != 1:
            return 'the exporter is called %d times' % len(ev)
        a = args(ev[0])[2]
        if len(a) != 4:
            return 'the exporter gets %d values' % len(a)
        s = segs(p, a[2], facts)
        if a[0] is not path or a[1] is not instrument_of(p, ME) or strip_float(a[3]) is not mk('attr', ME, TT):
            return 'the exporter gets (%s)' % ', '.join(short(x) for x in a)
        if not (s and len(s) == 1 and s[0][0] == 'each' and s[0][1] is own[d] and by_start_order(s[0][2]) and s[0][3] is s[0][4]):
            return 'the exporter gets the notes %s' % short(p.engine.deref(p.st, a[2]), 200)
        return None
    query('to_midi_file', 'export', export_ok)

    Q = NOTE + '.is_quantized'

    def unquantised(a, lst):
        """any(lst, not quantised)"""
        if a.op != 'any' or a.a[0] is not lst:
            return False
        ls = [l for l in all_lits([l for l in any_body(a)])]
        return len(ls) == 1 and not ls[0][1] and ls[0][0].op == 'truthy' and ls[0][0].a[0].op == 'fcall' and \
            ls[0][0].a[0].a[0] == Q and fc_arg(ls[0][0].a[0], 'self').op == 'elem'

    def asks(a, lst):
        """whether one note of the list is quantised"""
        return a.op == 'truthy' and a.a[0].op == 'fcall' and a.a[0].a[0] == Q and fc_arg(a.a[0], 'self').op == 'elem' and fc_arg(a.a[0], 'self').a[0] is lst

    def quant_ok(p, f, d, facts):
        v = p.dvalue
        neg = False
        while v.op == 'not':
            v, neg = v.a[0], not neg
        if v.op == 'any':
            return None if neg and unquantised(v, own[d]) else 'it is %s' % short(p.dvalue, 200)
        if v.op == 'const':
            want = bool(v.a[0]) != neg
            if holds(p.guards, lambda a, q: unquantised(a, own[d]) and q != want) or want and nothing_in(p, facts, own[d]):
                return None
            early = [L for L, ch in loops(p.events) if not ch and L.a[0] is own[d] and any(out_kind(lp) == 'return' for lp in L.a[3])]
            if want and early and all(any(asks(a, own[d]) and q is (out_kind(lp) != 'return') for a, q in conj(lp.a[0])) for L in early for lp in L.a[3]):
                return None
            if not want and any(asks(a, own[d]) and q is False for a, q in conj(p.guards)):
                return None
        return 'it is %s when %s' % (short(p.dvalue), short(' & '.join(show_lit(l) for l in conj(p.guards)), 160))
    query('is_quantized', 'quantised', quant_ok, opaque=[Q])

    for nm, callee, arg in (('shift_times', 'shift_time', 'offset'), ('stretch', 'stretch', 'amount')):
        def each_ok(p, f, d, facts):
            given = mk('param', [x for x in f.params if x != 'self'][0])
            got = 0
            for L, ch in loops(p.events):
                s = segs(p, unversioned(L.a[0]), facts)
                for lp in L.a[3]:
                    if out_kind(lp) == 'raise':
                        continue
                    ev = [e for e in lp.a[1] if kind(e) == 'fcall' and args(e)[0].a[0] == NOTE + '.' + callee]
                    if not ev:
                        continue
                    c = args(ev[0])[0]
                    x = [y for k, y in c.a[1] if k != 'self']
                    if len(ev) == 1 and normal(lp) and not ch and len(L.a[3]) == 1 and fc_arg(c, 'self').op == 'elem' and \
                            x and x[0] is given and s is not None and len(s) == 1 and s[0][0] == 'each' and s[0][1] is own[d]:
                        got += 1
                    else:
                        return 'a pass over %s calls %s' % (short(L.a[0]), short(c))
            if got != 1 and not nothing_in(p, facts, own[d]):
                return '%s is called in %d passes over its notes' % (callee, got)
            return None
        query(nm, 'each', each_ok, opaque=[NOTE + '.' + callee, Q, SEQ + '.is_quantized'])

    def total_ok(p, f, d, facts):
        given = mk('param', [x for x in f.params if x != 'self'][0])
        v = p.st.heap.get((ME, TT))
        if v is None:
            return 'the total time stays'
        w = unversioned(strip_float(strip_max(v)))
        want = binop('+', mk('attr', ME, TT), given)
        zero = holds(p.guards, lambda a, q: a.op == 'lt' and q and unversioned(strip_float(a.a[0])) is want and num(a.a[1]))
        if w is want or zero and num(w):
            return None
        return 'the total time becomes %s' % short(v)
    query('shift_times', 'total', total_ok, opaque=[NOTE + '.shift_time', Q, SEQ + '.is_quantized'])

    for nm, lst in (('add_control_changes', 'control_changes'), ('add_pitch_bends', 'pitch_bends')):
        f = ctx.p.func(SEQ + '.' + nm)
        x = mk('param', [y for y in f.params if y != 'self'][0])

        def watched(en, st, lst=lst):
            own_state(en, st)
            o = mk('new', 'list', 'init:' + lst, 0)
            st.cont[o] = (('copy', mk('attr', ME, lst), ()),)
            st.heap[(ME, lst)] = o
        n = 0
        for p in ctx.run(f.qualname, setup=watched):
            if p.kind == 'raise':
                ctx.need(holds(p.guards, lambda a, q: a.op == 'isinst' and a.a[0] is x and not q), 'events', nm,
                         'an event is refused when %s' % short(' & '.join(show_lit(l) for l in conj(p.guards))), f.loc())
                continue
            n += 1
            v = p.st.heap.get((ME, lst))
            s = segs(p, v) if v is not None else None
            ctx.need(s is not None and len(s) == 2 and whole(s[:1], mk('attr', ME, lst)) and s[1] == ('one', x), 'events', nm,
                     'the list becomes %s' % (short(p.engine.deref(p.st, v)) if v is not None else 'unknown'), f.loc())
        ctx.need(n >= 1, 'events', nm, 'no event is ever added', f.loc())

    # initial tempo
    f = ctx.p.func(SEQ + '.initial_tempo')
    tl = mk('attr', ME, 'tempo_signature')

    def at_zero(a):
        return a.op == 'eq' and const(0) in [const(0) if x.op == 'const' and x.a[0] == 0 else x for x in a.a] and \
            any(x.op == 'attr' and x.a[1].lstrip('_') == 'midi_time' and x.a[0].op == 'elem' and x.a[0].a[0] is tl for x in a.a)

    def has_zero(a):
        return a.op == 'any' and a.a[0] is tl and [(at_zero(x), q) for x, q in all_lits(any_body(a))] == [(True, True)]
    seen = set()
    for p in ctx.run(f.qualname, setup=own_state):
        if p.kind == 'raise':
            ctx.bad('tempo', 'initial_tempo', 'raises', f.loc())
            continue
        if nothing_in(p, frozenset(), tl) and holds(p.guards, lambda a, q: a.op in ('truthy', 'eq') and not has_zero(a)):
            seen.add('empty')
            continue
        v = strip_float(p.dvalue)
        who = v.a[0] if v.op == 'attr' and v.a[1].lstrip('_') == 'qpm' else None
        if who is not None and who.op == 'elem' and who.a[0] is tl and \
                holds(p.guards, lambda a, q: at_zero(a) and q and any(x.op == 'attr' and x.a[0] is who for x in a.a)):
            seen.add('zero')
            continue
        none = holds(p.guards, lambda a, q: has_zero(a) and not q)
        if who is not None and none and who.op == 'item' and who.a[0] is tl and who.a[1] is const(0):
            seen.add('first')
            continue
        ctx.bad('tempo', 'initial_tempo', 'it is %s when %s' % (
            short(p.dvalue), short(' & '.join(show_lit(l) for l in conj(p.guards)), 200)), f.loc())
    ctx.need({'zero', 'first'} <= seen, 'tempo', 'initial_tempo', 'a tempo at time zero is not looked for', f.loc())

    # creation
    f = ctx.p.func(SEQ + '.__init__')
    notes, drums = mk('param', 'notes'), mk('param', 'drum_events')
    ctx.need('notes' in f.params and 'drum_events' in f.params, 'create', '__init__', 'no parameters notes and drum_events', f.loc())
    n = 0
    for p in ctx.run(f.qualname):
        if p.kind == 'raise':
            continue
        for d, facts in flags(p, ME):
            if not possible(p, facts):
                continue
            n += 1
            given = {notes: not known_none(p, notes), drums: not known_none(p, drums)}
            want = {LISTS[0]: [notes] if given[notes] and not d else [],
                    LISTS[1]: ([notes] if given[notes] and d else []) + ([drums] if given[drums] else [])}
            for lst in LISTS:
                v = p.st.heap.get((ME, lst))
                s = segs(p, v, facts) if v is not None else None
                ok = s is not None and all(x[0] == 'each' and not x[2] and x[3] is x[4] for x in s) and [x[1] for x in s] == want[lst]
                ctx.need(ok, 'create', '__init__', '%s of a %s sequence made from notes (%s) and drum events (%s) is %s' % (
                    lst, 'drum' if d else 'melodic', given[notes], given[drums],
                    short(p.engine.deref(p.st, v), 160) if v is not None else 'missing'), f.loc())
    ctx.need(n >= 6, 'create', '__init__', 'too few ways to create a sequence (%d)' % n, f.loc())

    # addition
    f = ctx.p.func(SEQ + '.__add__')
    other = mk('param', [x for x in f.params if x != 'self'][0])
    n = 0
    def two_sequences(en, st):
        own_state(en, st)
        st.guards[mk('isnone', mk('attr', other, 'instrument'))] = False
    for p in ctx.run(f.qualname, setup=two_sequences):
        if none_lists(p):
            continue
        if p.kind == 'raise':
            ctx.need(holds(p.guards, lambda a, q: refusal(a, q, other)), 'refuse', '__add__', 'refused when %s' %
                     short(' & '.join(show_lit(l) for l in conj(p.guards)), 900), f.loc())
            continue
        v = p.value
        if v.op == 'const' or bad_type(p.guards):
            continue
        n += 1
        for d, facts in flags(p, ME):
            if not possible(p, facts):
                continue
            if v.op != 'new' or v.a[0] != SEQ or p.st.heap.get((v, 'instrument')) is not instrument_of(p, ME):
                ctx.bad('add', '__add__', 'the result is %s' % short(p.dvalue), f.loc())
                continue
            cell = p.st.heap.get((v, LISTS[d]))
            s = segs(p, cell, facts) if cell is not None else None
            theirs = lambda x: x.op == 'attr' and x.a[0] is other and (x.a[1] == LISTS[d] or x.a[1] in LISTS and drum_flag(p, other) not in (None, d))
            ok = s is not None and all(x[0] == 'each' and x[3] is x[4] and not x[2] for x in s)
            if ok:                      # a list known to hold nothing may be left out
                s = [x[1] for x in s]
                if not (s and s[0] is own[d]) and nothing_in(p, facts, own[d]):
                    s = [own[d]] + s
                if len(s) == 1:
                    gone = [mk('attr', other, x) for x in LISTS if theirs(mk('attr', other, x)) and nothing_in(p, facts, mk('attr', other, x))]
                    s = s + gone[:1]
                ok = len(s) == 2 and s[0] is own[d] and theirs(s[1])
            ctx.need(ok, 'add', '__add__', 'the notes of the sum are %s' %
                     (short(p.engine.deref(p.st, cell), 200) if cell is not None else 'missing'), f.loc())
            for nm in LISTS:
                o = mk('new', 'list', 'init:' + nm, 0)
                if p.st.heap.get((ME, nm)) is not o or len(p.st.cont.get(o, ())) != 1:
                    ctx.bad('add', '__add__', 'the notes of the first sequence change', f.loc())
            for e, ch in walk(p.events):
                if kind(e) in ('setattr', 'mut', 'store', 'delitem') and root(args(e)[0]) is other:
                    ctx.bad('add', '__add__', 'the second sequence changes: %s' % short(args(e)[0]), eloc(e))
    ctx.need(n >= 2, 'add', '__add__', 'two sequences are never added', f.loc())
    ctx.floor('list', 8)
    ctx.floor('create', 12)


def refusal(a, q, other):
    if a.op == 'isinst':
        return not q and (a.a[0] is other or strip_max(a.a[0]).op in ('call', 'mm', 'lo'))     # (a time that is no number)
    if a.op == 'eq' and not q:
        return {attr_path(x) for x in a.a} in ({(ME, 'instrument'), (other, 'instrument')},
                                               {(ME, 'instrument.instrument_num'), (other, 'instrument.instrument_num')})
    if a.op == 'any' and q and a.a[0].op == 'attr' and a.a[0].a[1] in LISTS:
        for x, y in all_lits(any_body(a)):
            if x.op == 'eq' and not y and any(z.op == 'attr' and z.a[1].lstrip('_') == 'instrument' and z.a[0].op == 'elem' for z in x.a) and \
                    any(z.op == 'attr' and z.a[1] == 'instrument_num' for z in x.a):
                return True
    return False


def known_none(p, t):
    return holds(p.guards, lambda a, q: a.op == 'isnone' and a.a[0] is t and q or a.op == 'truthy' and a.a[0] is t and not q)


def none_lists(p):
    """a path on which a note list of the sequence would not be a list"""
    return any(a.op == 'isnone' and q and a.a[0].op == 'attr' and a.a[0].a[1] in LISTS for a, q in conj(p.guards))


def same_elem(x, e):
    return x is e or x.op == 'elem'


def unversioned(t):
    if t.op == 'attr' and len(t.a) == 3:
        return mk('attr', t.a[0], t.a[1])
    if any(isinstance(x, T) for x in t.a):
        return mk(t.op, *[unversioned(x) if isinstance(x, T) else x for x in t.a])
    return t


# ---------------------------------------------------------------- S11

def across(base, alts, cut):
    """why elements of base that satisfy one of the conditions are not notes of the sequence that sound across the cut"""
    lst, asc = own_list(base)
    if lst is None:
        return 'they are not the notes of the sequence: %s' % short(base, 60)
    for g in alts:
        seen = {}
        for a, q in conj(g):
            if a.op == 'lt' and a.a[0].op == 'attr' and a.a[0].a[1] in START and a.a[1] is cut and q:
                seen['start'] = True
            elif a.op == 'lt' and a.a[1] is cut and q is False and a.a[0].op == 'attr' and a.a[0].a[1] in START:
                return 'a note that starts after the cut'
            elif a.op == 'lt' and a.a[0] is cut and a.a[1].op == 'attr' and a.a[1].a[1] in ENDS and q:
                seen['end'] = True
            else:
                return 'also %s' % show_lit((a, q))
        if len(seen) != 2:
            return 'only its %s is compared with the cut' % ', '.join(seen)
    return None


def pointed(p, taken, lst, cut):
    """why a pass that goes on from a kept position does not take the notes that start before the cut (None when it does)"""
    outer = [L for L, _ in loops(p.events) if mk('elem', L.a[0], L.a[2]) is cut]
    at = src = None
    for lp in taken.a[3]:
        g = conj(lp.a[0])
        if out_kind(lp) == 'raise':
            continue
        muts = [args(v) for v, _ in walk(lp.a[1]) if kind(v) == 'mut']
        if out_kind(lp) == 'break':
            for a, q in g:
                for alt in [conj(x) for x in a.a[0]] if a.op == 'or' and q else [frozenset([(a, q)])]:
                    if muts or not any(not z and y.op == 'lt' and (y.a[1] is cut and y.a[0].op == 'attr' and y.a[0].a[1] in START or
                                                                   y.a[0].op == 'lv' and y.a[1].op == 'call' and y.a[1].a[0] == 'len') for y, z in alt):
                        return 'the pass over the notes ends when %s' % show_guards(alt)
            continue
        starts = [a.a[0].a[0] for a, q in g if q and a.op == 'lt' and a.a[1] is cut and a.a[0].op == 'attr' and a.a[0].a[1] in START]
        if len(starts) != 1 or starts[0].op != 'item' or starts[0].a[1].op != 'lv':
            return 'a note is taken when %s' % show_guards(g)
        note = starts[0]
        if at is not None and note.a[1] is not at:
            return 'two positions are used'
        src, at = note.a
        ends = [q for a, q in g if a.op == 'lt' and a.a[0] is cut and a.a[1].op == 'attr' and a.a[1].a[1] in ENDS and a.a[1].a[0] is note]
        rest = [l for l in g if not (l[0].op == 'lt' and (cut in l[0].a or l[0].a[0] is at and l[1]))]
        if len(ends) != 1 or rest or bool(muts) != ends[0] or any(v[1] != 'append' or not same_obj(v[0], lst) or v[2][0] is not note for v in muts) or len(muts) > 1:
            return 'a note counts as across the cut when %s' % show_guards(g)
        u = dict(lp.a[3]).get(at)
        if u is None or not normal(lp) or Cases(lambda t: 7 if t is at else None).value(u) != 8:
            return 'the position moves to %s' % short(u, 50)
    if at is None or len(outer) != 1:
        return 'no note is taken'
    o = dict(taken.a[4]).get(at)
    if o is None or o.op != 'lv' or dict(outer[0].a[4]).get(o) is not const(0):
        return 'the position starts at %s' % short(o, 50)
    for lp in outer[0].a[3]:
        u = dict(lp.a[3]).get(o)
        if out_kind(lp) != 'raise' and not (u is not None and u.op == 'lo' and u.a[1] is at):
            return 'the position becomes %s' % short(u, 50)
    lst2, asc = own_list(src)
    parts = [q for q in (src.a[1] if src.op == 'content' else p.st.cont.get(src, ())) if not (q[0] == 'lit' and not q[1])]
    if lst2 is None and len(parts) == 1 and parts[0][0] in ('copy', 'extend'):
        lst2, asc = own_list(parts[0][1])
        asc = asc or len(parts[0]) > 2 and by_start_order(tuple(parts[0][2]))
    return None if lst2 is not None and asc else 'the notes are not taken in order of start: %s' % short(src, 90)


def sounding_at(p, x, cut):
    """why the condition is not "a note of the sequence sounds across the cut" (None when it is)"""
    def over_notes(base, alts, lid):
        return across(base, alts, cut)
    if x.op == 'any':
        return over_notes(x.a[0], x.a[1], x.a[2])
    if x.op != 'truthy':
        return 'it depends on %s' % short(x, 80)
    x = x.a[0]
    if x.op == 'map':
        return over_notes(x.a[0], [g for g, _ in x.a[2]], x.a[3])
    if x.op != 'content':
        return 'it depends on %s' % short(x, 80)
    lst = as_new(x)
    parts = [q for q in x.a[1] if not (q[0] == 'lit' and not q[1])]
    if len(parts) == 1 and parts[0][0] == 'loop' and parts[0][1].a[0].op != 'while':
        L = parts[0][1]
        hits = [lp.a[0] for lp in L.a[3] if any(kind(e) == 'mut' and same_obj(args(e)[0], lst) for e, _ in walk(lp.a[1]))]
        return over_notes(L.a[0], hits, L.a[2])
    if len(parts) != 2 or any(q[0] != 'loop' for q in parts):
        return 'the notes across the cut are %s' % short(x, 80)
    kept, taken = parts[0][1], parts[1][1]
    # those that sounded across the cut before and still do
    e = mk('elem', kept.a[0], kept.a[2])
    if kept.a[0].op != 'lv':
        return 'the notes across the cut are %s' % short(x, 80)
    for lp in kept.a[3]:
        adds = [args(v) for v, _ in walk(lp.a[1]) if kind(v) == 'mut']
        ends = [(q) for a, q in conj(lp.a[0]) if a.op == 'lt' and a.a[0] is cut and a.a[1].op == 'attr' and a.a[1].a[1] in ENDS and a.a[1].a[0] is e]
        if len(conj(lp.a[0])) != 1 or len(ends) != 1 or bool(adds) != ends[0] or any(v[2][0] is not e for v in adds):
            return 'a note is kept when %s' % show_guards(lp.a[0])
    # those that started since
    if taken.a[0].op != 'while':
        return 'the notes across the cut are %s' % short(x, 80)
    if not any(kind(v) == 'mut' and args(v)[1] == 'pop' for lp in taken.a[3] for v, _ in walk(lp.a[1])):
        return pointed(p, taken, lst, cut)
    for lp in taken.a[3]:
        muts = [args(v) for v, _ in walk(lp.a[1]) if kind(v) == 'mut']
        pops = [v for v in muts if v[1] == 'pop']
        adds = [v for v in muts if v[1] == 'append' and same_obj(v[0], lst)]
        starts = [(a.a[0], q) for a, q in conj(lp.a[0]) if a.op == 'lt' and a.a[1] is cut and a.a[0].op == 'attr' and a.a[0].a[1] in START]
        ends = [q for a, q in conj(lp.a[0]) if a.op == 'lt' and a.a[0] is cut and a.a[1].op == 'attr' and a.a[1].a[1] in ENDS and a.a[1].a[0].op == 'mres']
        if out_kind(lp) == 'break':
            if muts:
                return 'the pass over the notes leaves after changing them'
            for a, q in conj(lp.a[0]):
                alts = [conj(g) for g in a.a[0]] if a.op == 'or' and q else [frozenset([(a, q)])]
                for g in alts:
                    if not any(not z and (y.op == 'truthy' or y.op == 'lt' and y.a[1] is cut and y.a[0].op == 'attr' and y.a[0].a[1] in START) for y, z in g):
                        return 'the pass over the notes ends when %s' % show_guards(g)
            continue
        if len(pops) != 1 or pops[0][2] not in ((const(0),), [const(0)]) or len(muts) != len(pops) + len(adds) or not starts or not all(q for _, q in starts):
            return 'a note is taken when %s' % show_guards(lp.a[0])
        if len(ends) != 1 or len(adds) != int(ends[0]) or any(v[2][0].op != 'mres' or v[2][0].a[1] != 'pop' for v in adds):
            return 'a note counts as across the cut when %s' % show_guards(lp.a[0])
        src = starts[0][0].a[0]
        if src.op != 'item' or src.a[1] is not const(0) or not same_obj(src.a[0], pops[0][0]):
            return 'the note taken is not the one that was asked'
        ins = [a.a[0] for a, q in conj(lp.a[0]) if q and a.op == 'truthy' and a.a[0].op == 'content' and same_obj(as_new(a.a[0]), src.a[0])]
        if not ins:
            return 'the list the notes are taken from is not asked for emptiness'
        parts = [q for q in ins[0].a[1] if q[0] not in ('havoc', 'mut') and not (q[0] == 'lit' and not q[1])]
        ok = len(parts) == 1 and parts[0][0] in ('copy', 'extend')
        if ok:
            at, asc = own_list(parts[0][1])
            ok = at is not None and (asc or len(parts[0]) > 2 and by_start_order(tuple(parts[0][2])))
        if not ok:
            return 'the notes are not taken in order of start: %s' % short(ins[0], 90)
    return None


def show_guards(gs):
    return ' and '.join(show_lit(g) for g in gs)[:120] or 'always'


@prop('S11', 'Every path of split is enumerated down to the call of extract; the list of times handed to it is reduced to its parts, '
      'which have to be 0, one pass over every multiple of the span or every given time in order, and the total time when it is '
      'later; with skip_boundary the condition on which a point is left out is matched with "a note sounds across it".')
def s11(ctx):
    ctx.rule('cuts', 'the sequence is cut at 0, at every multiple of the span or every given time in order, and at its end')
    ctx.rule('rest', 'the last part reaches to the total time')
    ctx.rule('parts', 'the result is what those cuts extract, or nothing when there is no part')
    ctx.rule('skip', 'a point is left out only when that was asked for and a note sounds across it')
    f = ctx.p.func(SEQ + '.split')
    ps = [x for x in f.params if x != 'self']
    span, skip = mk('param', ps[0]), mk('param', ps[1])
    total = None
    n = 0
    for p in ctx.run(f.qualname, setup=own_state, opaque=(SEQ + '.extract',)):
        if p.kind == 'raise' or bad_type(p.guards) or none_lists(p):
            continue
        n += 1
        calls = [args(e) for e, _ in walk(p.events) if kind(e) == 'fcall' and args(e)[0] == SEQ + '.extract']
        res = p.value
        cut = None
        if res.op == 'fcall' and res.a[0] == SEQ + '.extract':
            cut = dict(res.a[1]).get(ctx.p.func(SEQ + '.extract').params[1])
        small = [(a, q) for a, q in conj(p.guards) if a.op == 'lt' and any(x.op == 'call' and x.a[0] == 'len' for x in a.a)]
        if cut is None:
            d = p.dvalue
            ctx.need(d.op == 'list' and not d.a, 'parts', 'split', 'the result is %s' % short(d, 90), f.loc())
            lens = [(x.a[1][0], a, q) for a, q in small for x in a.a if x.op == 'call' and x.a[0] == 'len']
            ok = any(a.a[0] is const(1) and not q or a.a[1] is const(2) and q for _, a, q in lens)
            ctx.need(ok, 'parts', 'split', 'nothing is given although there may be parts', f.loc())
            if not lens:
                continue
            cut = lens[0][0]
        asked = (mk('truthy', skip), True) in conj(p.guards)
        facts = {(mk('truthy', skip), False)}
        if asked:                                     # what is given where no note sounds across
            facts = set()
            for L, ch in loops(p.events):
                for lp in L.a[3]:
                    if not ch and out_kind(lp) != 'raise' and not any(kind(v) == 'mut' for v in lp.a[1]):
                        facts |= {(a, not q) for a, q in conj(lp.a[0]) if q and sounding_at(p, a, mk('elem', L.a[0], L.a[2])) is None}
        ts = segs(p, cut, frozenset(facts))
        if ts is None or not ts:
            ctx.bad('cuts', 'split', 'the cuts are %s' % short(p.engine.deref(p.st, cut), 120), f.loc())
            continue
        ctx.need(ts[0][0] == 'one' and ts[0][1].op == 'const' and ts[0][1].a[0] == 0, 'cuts', 'split: first', 'the first cut is at %s' % short(ts[0][1], 60), f.loc())
        given = [q for a, q in conj(p.guards) if a.op == 'isinst' and a.a[0] is span]
        ways = [x for x in ts[1:] if x[0] == 'each']
        if len(ways) != 1 or ts[1] is not ways[0] or ways[0][3] is not ways[0][4]:
            ctx.bad('cuts', 'split: points', 'the cuts are not one for each point', f.loc())
            continue
        base, order = ways[0][1], ways[0][2]
        if base.op == 'call':
            a = base.a[1]
            total = a[1] if len(a) == 3 else None
            ok = len(a) == 3 and a[0] is span and a[2] is span and total.op == 'attr' and total.a[0] is ME and 'total_time' in total.a[1] and not base.a[2] and not order
            ctx.need(ok and given != [True], 'cuts', 'split: every span', 'the points are %s' % short(base, 100), f.loc())
        else:
            ok = base is span and len(order) == 1 and order[0][0] == 'sorted' and (order[0][1] is None or order[0][1] is NONE) and not truthy_const(order[0][2])
            ctx.need(ok and given == [True], 'cuts', 'split: given times', 'the points are %s %s' % (short(base, 80), '' if order else 'as they come'), f.loc())
        tail = ts[2:]
        late = [q for a, q in conj(p.guards) if a.op == 'lt' and a.a[1].op == 'attr' and 'total_time' in a.a[1].a[1] and a.a[1].a[0] is ME and a.a[0].op == 'item' and a.a[0].a[1] is const(-1)]
        ok = len(late) == 1 and len(tail) == int(late[0]) and all(x[0] == 'one' and x[1].op == 'attr' and 'total_time' in x[1].a[1] and x[1].a[0] is ME for x in tail)
        ctx.need(ok, 'rest', 'split: end', 'after the last point %s is added when the total time is %s' % (', '.join(short(x[1], 50) for x in tail) or 'nothing', 'later' if late and late[0] else 'not later'), f.loc())
        # leaving points out
        for L, ch in loops(p.events):
            if ch:
                continue
            e = mk('elem', L.a[0], L.a[2])
            adds = [(lp, any(kind(v) == 'mut' and args(v)[1] == 'append' and args(v)[2] and args(v)[2][0] is e for v in lp.a[1])) for lp in L.a[3] if out_kind(lp) != 'raise']
            if not any(x for _, x in adds):
                continue
            for lp, x in adds:
                if x:
                    continue
                g = conj(lp.a[0])
                ctx.need(asked or (mk('truthy', skip), True) in g, 'skip', 'split: left out', 'a point is left out when %s' % show_guards(g), f.loc())
                rest = [l for l in g if l != (mk('truthy', skip), True)]
                found = {}
                for a, q in rest:                     # a note that was found
                    for y in a.a if a.op == 'lt' else ():
                        if y.op == 'attr' and y.a[0].op == 'elem' and y.a[0] is not e and y.a[1] in START + ENDS:
                            found.setdefault(y.a[0], []).append((a, q))
                for x, ls in found.items():
                    if across(x.a[0], [frozenset(ls)], e) is None:
                        rest = [l for l in rest if l not in ls] + [True]
                why = 'it is left out whatever sounds there' if not rest else None
                for a, q in [l for l in rest if l is not True]:
                    why = why or (sounding_at(p, a, e) if q else 'it is left out when %s' % show_lit((a, q)))
                ctx.need(why is None, 'skip', 'split: across', why, f.loc())
            ctx.need(any(not x for _, x in adds) or (mk('truthy', skip), False) in conj(p.guards), 'skip', 'split: asked', 'no point is ever left out', f.loc())
    ctx.floor('cuts', 8)
    ctx.floor('rest', 4)
    ctx.floor('parts', 2)
    ctx.floor('skip', 4)
