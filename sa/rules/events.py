"""Event value types: ranges, ordering of times, copies, comparison, copying quantisation (N01-N05)."""
import ast
import itertools

from . import prop
from ..cases import Cases, all_scales
from ..lib import *
from ..loader import mangle, walk_own
from ..terms import T, mk, const, num, subterms

N = PKG + 'midi.midi_note'
PB = PKG + 'midi.midi_pitch_bend'
CC = PKG + 'midi.midi_control_change'
II = PKG + 'midi.midi_instruments'
INF = float('inf')

# class: module, name, constructor arguments that a valid call needs, {attribute: (parameter, low, high)}
EVENTS = [
    (N, 'MidiNote', {'pitch': 60, 'start_time': 1.0, 'end_time': 2.0},
     {'pitch': ('pitch', 0, 127), 'velocity': ('velocity', 0, 127), 'program': ('program', 0, 255), 'instrument': ('instrument', 0, 127),
      'numerator': ('numerator', 1, 255), 'denominator': ('denominator', 1, 255)}, ('pitch', 'program')),
    (PB, 'MidiPitchBend', {'amount': 0},
     {'amount': ('amount', -8192, 8191), 'program': ('program', 0, 127), 'instrument': ('instrument', 0, 127),
      'midi_time': ('midi_time', 0, INF)}, ('program', 'instrument', 'midi_time')),
    (CC, 'MidiControlChange', {'cc_number': 1, 'cc_value': 1},
     {'cc_number': ('cc_number', 0, 255), 'cc_value': ('cc_value', 0, 255), 'program': ('program', 0, 255),
      'instrument': ('instrument', 0, 255), 'cc_time': ('cc_time', 0, INF), 'quantized_step': ('quantized_step', 1, 32)},
     ('quantized_step',)),
    (II, 'MidiInstrumentInfo', {'instrument': 1}, {'instrument_num': ('instrument', 0, 255)}, ()),
]
ANY = {'denominator'}         # not every value in the range is accepted


def consts(paths):
    out = set()
    for p in paths:
        ts = [a for a, _ in p.guards.items()] + ([p.dvalue] if p.kind == 'return' else [])
        for t in ts:
            for x in deep(t):
                if num(x):
                    out.add(x.a[0])
                elif x.op == 'lin':
                    out.add(x.a[0])
                    out.add(-x.a[0])
    return {c for c in out if isinstance(c, (int, float)) and abs(c) < 1e9}


def deep(t):
    """every term inside t, also inside argument tuples and alternatives"""
    if isinstance(t, T):
        yield t
        for x in t.a:
            yield from deep(x)
    elif isinstance(t, (tuple, frozenset, list)):
        for x in t:
            yield from deep(x)


def samples(lo, hi, extra, real=False):
    s = {lo, lo + 1, lo + 2}
    for k in (1, 2, 50, 100000):
        s |= {lo - k}
        if hi != INF:
            s |= {hi + k}
    if hi != INF:
        s |= {hi, hi - 1, hi - 2, (lo + hi) // 2}
    else:
        s |= {lo + 5, lo + 1000}
    for c in extra:
        s |= {int(c) - 1, int(c), int(c) + 1}
    s = {int(x) for x in s}
    if real:
        s |= {x + 0.5 for x in s}
        s = {float(x) for x in s}
    return sorted(s)


def param_leaf(vals):
    def leaf(t):
        if t.op == 'param':
            return vals.get(t.a[0])
        return None
    return leaf


def outcomes(paths, case):
    """paths that are possible in this case"""
    return [p for p in paths if case.lits(p.guards) is not False]


def check_value(ctx, rid, what, paths, name, lo, hi, real, idx=None, accept=True, keep=True):
    """every possible outcome for every order type of the argument: stored inside the range, as given when in range"""
    where = paths[0].engine.top_frame.fn.loc() if paths else ''
    bad = None
    for v in samples(lo, hi, consts(paths), real):
        case = Cases(param_leaf({name: v}))
        got = outcomes(paths, case)
        rets = [p for p in got if p.kind == 'return']
        for p in rets:
            r = case.value(p.dvalue)
            if r is None or isinstance(r, (bool, str)):
                bad = bad or 'given %s, the stored value %s cannot be shown to be between %s and %s' % (v, short(p.dvalue, 80), lo, hi)
            elif not lo <= r <= hi:
                bad = bad or 'given %s, %s is stored, outside %s..%s' % (v, r, lo, hi)
            elif keep and lo <= v <= hi and r != v:
                bad = bad or 'given the valid value %s, %s is stored' % (v, r)
        if not rets and accept and lo <= v <= hi:
            bad = bad or 'the valid value %s is rejected' % v
    ctx.need(bad is None, rid, what, bad or '', where)


@prop('N01', 'Abstract interpretation of constructing each event class and of assigning each range-checked attribute; the stored value is '
      'evaluated for every order type of the argument against the range bounds and every constant of the code. Methods and other modules '
      'are scanned for stores that bypass the checks.',
      assumptions=['arguments are numbers (times: numbers or None)'])
def check_n01(ctx):
    ctx.rule('created', 'after construction the attribute is within its range; a valid argument is stored as given')
    ctx.rule('assigned', 'after an assignment that is not rejected the attribute is within its range and holds the assigned value')
    ctx.rule('other-writes', 'no other method or module stores into the field behind a range-checked attribute except within the range')
    for mod, cn, need, attrs, assignable in EVENTS:
        c = ctx.p.cls(mod + '.' + cn)
        back = {}
        for at, (par, lo, hi) in attrs.items():
            real = hi == INF
            args_ = dict(need)
            args_.pop(par, None)
            call = ', '.join(['%s=v' % par] + ['%s=%r' % kv for kv in args_.items()])
            ps = ctx.drive(mod, 'def created(v):\n    x = %s(%s)\n    return x.%s' % (cn, call, at))
            check_value(ctx, 'created', '%s.%s' % (cn, at), ps, 'v', lo, hi, real, accept=at not in ANY)
            ps = ctx.drive(mod, 'def read(x: %s):\n    return x.%s' % (cn, at))
            t = {p.dvalue for p in ps if p.kind == 'return'}
            if len(t) == 1 and next(iter(t)).op == 'attr':
                back[next(iter(t)).a[1]] = (at, lo, hi, real, next(iter(t)))
            if at in assignable:
                ps = ctx.drive(mod, 'def assigned(x: %s, v):\n    x.%s = v\n    return x.%s' % (cn, at, at))
                check_value(ctx, 'assigned', '%s.%s' % (cn, at), ps, 'v', lo, hi, real)
        # stores elsewhere
        en = ctx.engine()
        for f in ctx.p.functions.values():
            own = f.cls is not None and c in f.cls.mro()
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))):
                    continue
                nm = mangle(f.cls.name, n.attr) if f.cls is not None else n.attr
                if nm not in back or not nm.startswith('_'):
                    continue
                at, lo, hi, real, t0 = back[nm]
                if f.name == '__init__' or f.is_setter and f.name == at:
                    if own:
                        continue
                if not own:
                    r = n.value
                    if isinstance(r, ast.Name) and f.params and r.id == f.params[0] and f.cls is not None:
                        continue          # a field of another class
                    ctx.bad('other-writes', '%s -> %s.%s' % (f.qualname[len(PKG):], cn, at),
                            'stores into %s, the field behind the range-checked attribute, from outside' % n.attr, f.loc(n))
                    continue
                ctx.analysed.add(f.qualname)
                if part_of(ctx, f, c, at):
                    continue              # analysed as part of the constructor or the assignment
                names = [a for a in f.params[1:]]
                ps = ctx.drive(mod, 'def used(x: %s, %s):\n    x.%s(%s)\n    return x.%s' % (
                    cn, ', '.join(names), f.name, ', '.join(names), at)) if not f.is_setter and not f.is_property else None
                okw = ps is not None
                for p in ps or ():
                    if p.kind == 'return':
                        for v in samples(lo, hi, consts(ps), real):
                            if lo <= v <= hi:
                                case = Cases(lambda t, v=v: v if t is t0 else None)
                                r = case.value(p.dvalue)
                                okw = okw and (case.lits(p.guards) is False or isinstance(r, (int, float)) and lo <= r <= hi)
                ctx.need(okw, 'other-writes', '%s -> %s.%s' % (f.qualname[len(PKG):], cn, at),
                         'changes the range-checked value without keeping it within %s..%s' % (lo, hi), f.loc(n))
    ctx.ok('other-writes')
    ctx.floor('created', 17)
    ctx.floor('assigned', 6)


def part_of(ctx, f, c, at, depth=0):
    """a private helper that only the constructor of the class or the setter of the attribute calls"""
    if not f.name.startswith('_') or f.name.endswith('__') or depth > 3:
        return False
    users = []
    for g in ctx.p.functions.values():
        for n in walk_own(g.node):
            if isinstance(n, ast.Attribute) and mangle(g.cls.name if g.cls else None, n.attr) == f.name:
                r = ctx.p.resolve_name(g.module, n.value.id) if isinstance(n.value, ast.Name) else None
                if hasattr(r, 'mro') and r not in f.cls.mro() and f.cls not in r.mro():
                    continue
                if not (isinstance(n.value, ast.Name) and g.params and n.value.id == g.params[0] and g.cls is not None and f.cls not in g.cls.mro() and g.cls not in f.cls.mro()):
                    users.append(g)
    ok = lambda g: g.cls is not None and c in g.cls.mro() and (g.name == '__init__' or g.is_setter and g.name == at or g is not f and part_of(ctx, g, c, at, depth + 1))
    return bool(users) and all(ok(g) for g in users)


@prop('N02', 'Abstract interpretation of creating a note and of assigning its times; the times that result, also when the value is rejected, '
      'are evaluated for every order type of the old times, the new value and zero.',
      assumptions=['times are numbers'])
def check_n02(ctx):
    ctx.rule('created', 'a note exists only with start before end, holding the times it was given')
    ctx.rule('assigned', 'after assigning start_time/end_time: the value is stored and start is before end, or nothing changed')
    where = ctx.p.func(N + '.MidiNote.__init__').loc()
    ps = ctx.drive(N, 'def created(a, b):\n    x = MidiNote(pitch=60, start_time=a, end_time=b)\n    return x.start_time, x.end_time')
    pts = sorted({-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 2.5} | {float(x) for x in consts(ps) if abs(x) < 1000})
    bad = None
    for a, b in all_scales(list(itertools.product(pts, pts))):
        case = Cases(param_leaf({'a': a, 'b': b}))
        rets = [p for p in outcomes(ps, case) if p.kind == 'return']
        for p in rets:
            r = [case.value(x) for x in p.dvalue.a] if p.dvalue.op == 'tuple' else [None]
            if r != [a, b] or not a < b:
                bad = bad or 'MidiNote(start %s, end %s) can give a note with times %s' % (a, b, [short(x, 60) for x in p.dvalue.a])
        if a >= 0 and a < b and not rets:
            bad = bad or 'MidiNote(start %s, end %s) is rejected' % (a, b)
    ctx.need(bad is None, 'created', 'MidiNote', bad or '', where)
    for at in ('start_time', 'end_time'):
        ps = ctx.drive(N, 'def assigned(x: MidiNote, v):\n    x.%s = v\n    return x.start_time, x.end_time' % at)
        old = [p.dvalue for p in ctx.drive(N, 'def read(x: MidiNote):\n    return x.start_time, x.end_time')]
        if len(old) != 1 or any(t.op != 'attr' for t in old[0].a):
            ctx.bad('assigned', 'MidiNote.%s' % at, 'reading the times is not reading two fields', where)
            continue
        s0, e0 = old[0].a
        bad = None
        pts = sorted({-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0} | {float(x) for x in consts(ps) if abs(x) < 1000})
        for s, e, v in all_scales(list(itertools.product(pts, pts, pts))):
            if not s < e:
                continue
            case = Cases({s0: s, e0: e, mk('param', 'v'): v}.get)
            new = (v, e) if at == 'start_time' else (s, v)
            got = outcomes(ps, case)
            for p in got:
                if p.kind == 'raise':
                    r = tuple(case.value(p.engine.deref(p.st, p.st.heap[(t.a[0], t.a[1])])) if (t.a[0], t.a[1]) in p.st.heap else x
                              for t, x in ((s0, s), (e0, e)))
                    if r != (s, e):
                        bad = bad or 'note (%s, %s): the rejected %s = %s leaves it with %s' % (s, e, at, v, r)
                    continue
                r = tuple(case.value(x) for x in p.dvalue.a)
                if not new[0] < new[1]:
                    bad = bad or 'note (%s, %s): %s = %s is not rejected' % (s, e, at, v)
                elif r != new:
                    bad = bad or 'note (%s, %s), %s = %s: the note is left with %s' % (s, e, at, v, r)
            if v >= 0 and new[0] < new[1] and not any(p.kind == 'return' for p in got):
                bad = bad or 'note (%s, %s): the valid %s = %s is rejected' % (s, e, at, v)
        ctx.need(bad is None, 'assigned', 'MidiNote.%s' % at, bad or '', ctx.p.func(N + '.MidiNote.%s' % at).loc())


# ---------------------------------------------------------------- comparison
class Compared:
    """== / != / hash of a class, evaluated for given field values."""

    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        m, n = c.module.name, c.name
        self.eqs = ctx.drive(m, 'def eq(a: %s, b: %s):\n    return a.__eq__(b)' % (n, n)) if c.find('__eq__') else None
        self.nes = ctx.drive(m, 'def ne(a: %s, b: %s):\n    return a.__ne__(b)' % (n, n)) if c.find('__ne__') else None
        self.hashes = ctx.drive(m, 'def h(a: %s):\n    return a.__hash__()' % n) if '__hash__' in c.methods else None
        self.fields = set()
        for p in (self.eqs or []) + (self.nes or []):
            for t in self.terms(p):
                if t.op == 'attr' and t.a[0] in (mk('param', 'a'), mk('param', 'b')):
                    self.fields.add(t.a[1])

    @staticmethod
    def terms(p):
        for a, _ in p.guards.items():
            yield from deep(a)
        if p.kind == 'return':
            yield from deep(p.dvalue)

    def evaluate(self, paths, A, B, depth=0):
        def leaf(t):
            if t.op == 'attr' and t.a[0] is mk('param', 'a'):
                return A.get(t.a[1])
            if t.op == 'attr' and t.a[0] is mk('param', 'b'):
                return B.get(t.a[1])
            if t.op in ('eq', 'ne') and set(t.a) == {mk('param', 'a'), mk('param', 'b')} and depth < 3:
                r = self.evaluate(self.eqs, A, B, depth + 1)
                return None if r in (None, '?') else r
            if t.op == 'isinst' and t.a[0] in (mk('param', 'a'), mk('param', 'b')):
                return True
            return None
        case = Cases(leaf)
        got = set()
        for p in paths:
            if case.lits(p.guards) is not False:
                if p.kind == 'raise':
                    return '?'
                v = case.value(p.dvalue)
                if v is None and p.dvalue.op in ('eq', 'lt', 'not', 'truthy', 'or', 'isinst'):
                    v = case.atom(p.dvalue)
                got.add('?' if v is None else v)
        return got.pop() if len(got) == 1 else '?'

    def cases(self):
        base = {f: 10.0 + i for i, f in enumerate(sorted(self.fields))}
        yield 'all fields equal', base, dict(base)
        for f in sorted(self.fields):
            for d in (1.0, -1.0, 1e-12, 1e-7, 100.0):
                yield '%s differs by %g' % (f, d), base, dict(base, **{f: base[f] + d})
        zero = {f: 0.0 for f in self.fields}
        yield 'all fields are zero', zero, dict(zero)
        for f in sorted(self.fields):
            for d in (1.0, -1.0):
                yield '%s is zero for one only' % f, dict(base, **{f: 0.0}), dict(base, **{f: d})
                yield '%s is not zero for one only' % f, dict(zero, **{f: d}), dict(zero)
        for f, g in itertools.combinations(sorted(self.fields), 2):
            yield '%s and %s differ' % (f, g), base, dict(base, **{f: base[f] + 1, g: base[g] - 1})
            yield '%s and %s differ' % (f, g), base, dict(base, **{f: base[f] + 1, g: base[g] + 1})
            yield '%s and %s exchanged' % (f, g), base, dict(base, **{f: base[g], g: base[f]})
        if self.fields:
            yield 'all fields differ', base, {f: v + 50 for f, v in base.items()}


def compared_classes(ctx):
    for c in ctx.p.classes.values():
        if not c.qualname.startswith(PKG):
            continue
        if any(m in c.methods for m in ('__eq__', '__ne__', '__hash__')):
            yield c


@prop('N04', 'Case distinction over which fields differ (none, each one by several distances, each pair, all): the results of __eq__, __ne__ '
      'and the fields read by __hash__ are computed from their abstract interpretation and compared.',
      assumptions=['field values compare by value (numbers)'])
def check_n04(ctx):
    ctx.rule('negation', '!= is the negation of == for operands of the same class')
    ctx.rule('symmetric', '== gives the same result with its operands exchanged, and an object with equal fields is equal')
    ctx.rule('hash', 'objects that compare equal have equal hashes, or no hash at all')
    ctx.rule('other-type', 'comparing with an object of another type is unequal (or left to the other operand)')
    n = 0
    for c in compared_classes(ctx):
        k = Compared(ctx, c)
        name = c.qualname[len(PKG):]
        loc = c.methods.get('__eq__') or c.methods.get('__hash__') or c.methods.get('__ne__')
        loc = loc.loc()
        n += 1
        if k.eqs is None:
            if k.nes is not None:
                ctx.bad('negation', name, 'defines != but leaves == to identity', loc)
            continue
        if not k.fields:
            ctx.bad('symmetric', name, '== compares no field of both operands', loc)
            continue
        bad = {}
        for what, A, B in k.cases():
            ab, ba = k.evaluate(k.eqs, A, B), k.evaluate(k.eqs, B, A)
            if ab not in (True, False):
                bad.setdefault('symmetric', 'the result of == cannot be determined when %s' % what)
            elif ab != ba:
                bad.setdefault('symmetric', '== depends on the order of its operands when %s' % what)
            elif what == 'all fields equal' and ab is not True:
                bad.setdefault('symmetric', '== is false for an equal object')
            if k.nes is not None and k.evaluate(k.nes, A, B) != (not ab):
                bad.setdefault('negation', '!= is not the negation of == when %s' % what)
            if k.hashes is not None and ab is True:
                hf = {t.a[1] for p in k.hashes for t in k.terms(p) if t.op == 'attr' and t.a[0] is mk('param', 'a')}
                diff = [f for f in hf if f not in k.fields or A[f] != B[f]]
                if diff:
                    bad.setdefault('hash', 'objects equal by == (%s) can hash differently: the hash uses %s' % (what, sorted(diff)))
                for p in k.hashes:
                    for t in k.terms(p):
                        if t.op == 'call' and t.a[0] in ('id', 'hash', 'repr', 'str') and mk('param', 'a') in t.a[1]:
                            bad.setdefault('hash', 'the hash uses the identity of the object')
        if '__hash__' in c.attrs and not (isinstance(c.attrs['__hash__'], ast.Constant) and c.attrs['__hash__'].value is None):
            bad.setdefault('hash', 'the hash is taken from elsewhere')
        # another type
        for what, meth, allowed in (('==', '__eq__', (False,)), ('!=', '__ne__', (True,))):
            if c.find(meth) is None:
                continue
            ps = ctx.drive(c.module.name, 'def other(a: %s, b):\n    return a.%s(b)' % (c.name, meth))
            duck = not any(t.op == 'isinst' for p in ps for t in k.terms(p))
            if duck:
                continue

            def leaf(t):
                if t.op == 'isinst' and t.a[0] is mk('param', 'b'):
                    return False
                if t.op == 'eq' and set(t.a) == {mk('param', 'a'), mk('param', 'b')}:
                    return False
                return None
            case = Cases(leaf)
            for p in ps:
                if case.lits(p.guards) is False:
                    continue
                v = case.value(p.dvalue) if p.kind == 'return' else None
                if p.kind == 'return' and p.dvalue.op == 'ext' and p.dvalue.a[0].endswith('NotImplemented'):
                    continue
                if v not in allowed:
                    bad.setdefault('other-type', '%s with an object of another type gives %s' % (what, short(p.value, 60)))
        for rid in ('negation', 'symmetric', 'hash', 'other-type'):
            ctx.need(rid not in bad, rid, name, bad.get(rid, ''), loc)
    ctx.floor('symmetric', 7)


# ---------------------------------------------------------------- copies
COPIES = [(N, 'MidiNote', 'make_copy', {'_velocity': 61, 'velocity': 61}), (CC, 'MidiControlChange', 'make_copy', {})]


def object_values(k):
    """some valid contents of an event: every compared field with its own value"""
    fs = sorted(k.fields)
    for rnd in range(5):
        d = {}
        for i, f in enumerate(fs):
            g = f.lstrip('_')
            if 'start_time' in g or 'cc_time' in g:
                d[f] = (0.0, 3.25, 7.5, 1.0, 20.0)[rnd]
            elif 'end_time' in g:
                d[f] = (0.5, 9.75, 8.125, 90.0, 20.5)[rnd]
            elif 'start_step' in g:
                d[f] = (-1, 0, 12, 9, 3)[rnd]
            elif 'end_step' in g:
                d[f] = (-1, 3, 17, 4, -1)[rnd]
            elif g == 'denominator':
                d[f] = (4, 8, 1, 2, 16)[rnd]
            elif g == 'is_drum':
                d[f] = (False, True, True, False, True)[rnd]
            else:
                d[f] = (i + 2, 0 if g not in ('numerator', 'quantized_step') else 1, 30 - i, 31 - i, i + 3)[rnd]
        yield d


@prop('N03', 'Abstract interpretation of make_copy for each event class; each field that == compares is evaluated on the copy for several '
      'contents of the original in which every field has its own value, and for every override.',
      assumptions=['the original satisfies the ranges of N01'])
def check_n03(ctx):
    ctx.rule('field', 'the copy holds the value of the original in every field that equality compares')
    ctx.rule('override', 'an overridden field holds the given value, also when that value is zero; all others those of the original')
    ctx.rule('fresh', 'the copy is a new object and the original is not changed')
    x = mk('param', 'x')
    for mod, cn, meth, _ in COPIES:
        c = ctx.p.cls(mod + '.' + cn)
        k = Compared(ctx, c)
        f = ctx.p.func(mod + '.' + cn + '.' + meth)
        fields = sorted(k.fields)
        read = ', '.join('c.%s' % n for n in fields)
        todo = [None] + f.params[1:]
        for par in todo:
            given = '' if par is None else '%s=v' % par
            ps = ctx.drive(mod, 'def copied(x: %s, v):\n    c = x.%s(%s)\n    return (c, %s)' % (cn, meth, given, read))
            bad, rid = {}, 'field' if par is None else 'override'
            for A in object_values(k):
                for v in ((1,) if par is None else (0, 1, 5, 6.0)):
                    def leaf(t):
                        if t.op == 'attr' and t.a[0] is x:
                            return A.get(t.a[1])
                        if t is mk('param', 'v'):
                            return v
                        if t is mk('isnone', mk('param', 'v')):
                            return False
                        if t.op == 'isinst':
                            return True
                        return None
                    case = Cases(leaf)
                    rets = [p for p in outcomes(ps, case) if p.kind == 'return']
                    if not rets:
                        bad.setdefault('', 'an event with valid contents cannot be copied')
                    for p in rets:
                        if p.dvalue.a[0].op != 'new':
                            ctx.bad('fresh', cn + '.' + meth, 'the result is not a new object', f.loc())
                        if any(o is x for (o, _n) in p.st.heap):
                            ctx.bad('fresh', cn + '.' + meth, 'copying changes the original', f.loc())
                        for n, t in zip(fields, p.dvalue.a[1:]):
                            want = v if par is not None and n.lstrip('_') == par else A[n]
                            r = case.value(t)
                            if r is None or r != want or isinstance(r, bool) != isinstance(want, bool):
                                bad.setdefault(n, '%s of the copy is %s where it should be %s' % (n, short(t, 60) if r is None else r, want))
            for n in fields:
                ctx.need(n not in bad, rid, '%s.%s(%s): %s' % (cn, meth, given, n), bad.get(n, ''), f.loc())
            if '' in bad:
                ctx.bad(rid, '%s.%s(%s)' % (cn, meth, given), bad[''], f.loc())
        ctx.ok('fresh')
    ctx.floor('field', 18)
    ctx.floor('override', 40)


SEQ = PKG + 'midi.midi_sequence.MidiNoteSequence'


@prop('N05', 'Abstract interpretation of quantize on a note, a control change and a sequence: what it returns, which object the in-place '
      'quantisation is applied to with which arguments, and that nothing of the original is stored to.')
def check_n05(ctx):
    ctx.rule('copied', 'quantize returns a new object, a copy of the original, and quantises that one, with the given arguments')
    ctx.rule('original', 'nothing is stored into the original')
    ctx.rule('sequence', 'each list of the sequence is replaced by one quantised copy per original event, with the given arguments')
    x = mk('param', 'x')
    for mod, cn in ((N, 'MidiNote'), (CC, 'MidiControlChange')):
        f = ctx.p.func(mod + '.' + cn + '.quantize')
        q = mod + '.' + cn
        fields = sorted(Compared(ctx, ctx.p.cls(q)).fields)
        ps = ctx.drive(mod, 'def quantised(x: %s, sps, amount, min_step):\n    c = x.quantize(sps=sps, amount=amount, min_step=min_step)\n'
                       '    return (c, %s)' % (cn, ', '.join('c.%s' % n for n in fields)), opaque=(q + '.quantize_in_place',))
        bad = {}
        for p in ps:
            r = p.value.a[0] if p.kind == 'return' else None
            if r is None:
                continue
            if r.op != 'new' and not is_copy_of(r, x):
                bad.setdefault(('copied', 'result'), 'the result %s is not a new note' % short(r, 80))
            calls = [args(e)[0] for e, _ in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == q + '.quantize_in_place']
            good = [t for t in calls if fc_arg(t, 'self') is r and all(fc_arg(t, a) is mk('param', a) for a in ('sps', 'amount', 'min_step'))]
            if len(calls) != 1 or len(good) != 1:
                bad.setdefault(('copied', 'in place'), 'the copy is not quantised once with the given arguments')
            if any(o is x for (o, _n) in p.st.heap) or any(e.a[0] in ('setattr', 'mut', 'setitem') and e.a[1] and e.a[1][0] is x
                                                           for e, _ in walk(p.events)):
                bad.setdefault(('original', 'kept'), 'quantize stores into the original')
        for A in object_values(Compared(ctx, ctx.p.cls(q))):
            def leaf(t):
                if t.op == 'attr' and (t.a[0] is x or is_copy_of(t.a[0], x)):
                    return A.get(t.a[1])
                return True if t.op == 'isinst' else None
            case = Cases(leaf)
            rets = [p for p in outcomes(ps, case) if p.kind == 'return']
            if not rets:
                bad.setdefault(('copied', 'fields'), 'an event with valid contents cannot be quantised')
            for p in rets:
                for n, t in zip(fields, p.dvalue.a[1:]):
                    if case.value(t) != A[n]:
                        bad.setdefault(('copied', 'fields'), '%s of the copy is not that of the original' % n)
        for key in (('copied', 'result'), ('copied', 'in place'), ('copied', 'fields'), ('original', 'kept')):
            ctx.need(key not in bad, key[0], cn + ' ' + key[1], bad.get(key, ''), f.loc())
    f = ctx.p.func(SEQ + '.quantize')
    NQ, CQ = N + '.MidiNote.quantize', CC + '.MidiControlChange.quantize'
    ps = ctx.drive('midi.midi_sequence', 'def quantised(x: MidiNoteSequence, sps, amount):\n    x.quantize(sps, amount)\n'
                   '    return x.notes, x.control_changes', opaque=(NQ, CQ), setup=has_instrument)
    before = ctx.drive('midi.midi_sequence', 'def read(x: MidiNoteSequence):\n    return x.notes, x.control_changes',
                       setup=has_instrument)
    seen = 0
    for p in ps:
        if p.kind != 'return':
            continue
        for i, qn in ((0, NQ), (1, CQ)):
            got = p.dvalue.a[i]
            src = {b.dvalue.a[i] for b in before if b.kind == 'return' and compatible(p, b)}
            seen += 1
            good = got.op == 'map' and len(src) == 1 and got.a[0] in src and got.a[1] in ((), None) and \
                exhaustive([g for g, _ in got.a[2]]) and \
                all(quantised_elem(v, qn, got.a[0]) for _, v in got.a[2])
            ctx.need(good, 'sequence', ('notes', 'control_changes')[i],
                     'after quantize the sequence holds %s' % short(got, 160), f.loc())
    ps = ctx.drive('midi.midi_sequence', 'def quantised(x: MidiNoteSequence, sps, amount):\n    y = x.notes\n    x.quantize(sps, amount)\n'
                   '    return x.total_quantized_steps, y', opaque=(NQ, CQ), setup=has_instrument)
    for p in ps:
        if p.kind == 'return':
            v, src = p.dvalue.a
            ctx.need(last_step(v, src, NQ), 'sequence', 'total_quantized_steps',
                     'after quantize the number of steps is %s' % short(v, 120), f.loc())
    ctx.floor('copied', 4)
    ctx.floor('sequence', 3)


def last_step(v, src, qn):
    """v is at least the end step of the quantised copy of every element of src"""
    if v.op == 'alts':
        return all(last_step(x, src, qn) for _, x in v.a[0])
    if v.op == 'mm' and v.a[0] == 'max' and any(last_step(x, src, qn) for x in v.a[1]):
        return True
    step = lambda t, b: t.op == 'attr' and t.a[1] == 'quantized_end_step' and quantised_elem(t.a[0], qn, b)
    same_list = lambda b: b is src or b.op == 'map' and b.a[0] is src
    m = v.a[0] if v.op == 'mm' and v.a[0] == 'max' else v
    if isinstance(m, frozenset):
        m = list(m)[0] if len(m) == 1 else v
    if v.op == 'call' and v.a[0] == 'max' and v.a[1]:
        m = v.a[1][0]
    if m.op == 'map' and m is not v and m.a[0] is src:
        return exhaustive([g for g, _ in m.a[2]]) and all(step(x, src) for _, x in m.a[2])
    if v.op != 'lo' or not same_list(v.a[0].a[0]):
        return False
    L, var = v.a
    for cur in (0, 1, 2, 5):
        for q in (0, 1, 2, 5):
            def leaf(t):
                if t is var:
                    return cur
                return q if step(t, src) else None
            case = Cases(leaf)
            took = [lp for lp in L.a[3] if out_kind(lp) != 'raise' and case.lits(conj(lp.a[0])) is not False]
            if not took or any(not normal(lp) or case.value(dict(lp.a[3]).get(var, var)) != max(cur, q) for lp in took):
                return False
    return True


def has_instrument(en, st):
    st.guards[mk('isnone', mk('attr', mk('param', 'x'), 'instrument'))] = False


def compatible(p, q):
    return all(p.guards.get(a, v) == v for a, v in q.guards.items())


def quantised_elem(v, qn, src):
    t = v
    if t.op != 'fcall' or t.a[0] != qn:
        return False
    me = fc_arg(t, 'self')
    return me.op == 'elem' and me.a[0] is src and fc_arg(t, 'sps') is mk('param', 'sps') and fc_arg(t, 'amount') is mk('param', 'amount')
