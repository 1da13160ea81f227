"""Sorted dictionaries, intervals and the interval tree (C01-C04)."""
import itertools

from . import prop
from ..cases import Cases, all_scales
from ..lib import *
from ..loader import Unproved
from ..loader import ClassInfo  # noqa: F401
from ..terms import T, mk, num, const

SD = PKG + 'midi.sorted_dict.SortedDict'
SID = PKG + 'midi.sorted_interval_dict.SortedIntervalDict'
IV = PKG + 'midi.Interval.Interval'
FI = PKG + 'interval.interval.FloatInterval'
SELF = mk('param', 'self')

# which inherited operations of the base class change the mapping without calling the overridden item methods
BYPASS = {'OrderedDict': {'pop', 'popitem', 'clear'},
          'dict': {'pop', 'popitem', 'clear', 'update', 'setdefault', '__ior__', '__init__'},
          'UserDict': set(), 'MutableMapping': set()}
# state copied along with the items by copy.copy and copy.deepcopy
COPIES_STATE = {'OrderedDict', 'dict', 'UserDict'}


def base_kind(c):
    for b in c.ext_bases():
        k = b.split('.')[-1]
        if k in BYPASS:
            return k
    raise AnalysisBroken('%s is no longer a dictionary of a known kind' % c.qualname)


def plain_copy(t):
    while t.op in ('copyof',) or t.op == 'call' and t.a[0] in ('list', 'iter', 'tuple') and len(t.a[1]) == 1 or whole_slice(t):
        t = t.a[1] if t.op == 'copyof' else t.a[0] if t.op == 'item' else t.a[1][0]
    return t


def whole_slice(t):
    return t.op == 'item' and t.a[1].op == 'slice' and all(x is NONE for x in t.a[1].a)


def key_list(ctx, c):
    """name of the list of keys kept beside the mapping, or None if the order is computed from the mapping"""
    names, computed = set(), 0
    f = c.find('keys')
    for p in ctx.run(f.qualname):
        if p.kind != 'return':
            continue
        t = plain_copy(p.dvalue)
        if t.op == 'attr' and t.a[0] is SELF:
            names.add(t.a[1])
        elif t.op == 'sorted' and mentions(t, lambda x: x is SELF):
            computed += 1
    if len(names) == 1 and not computed:
        return names.pop()
    if computed and not names:
        return None
    raise Unproved('%s.keys gives neither a kept list nor the sorted keys' % c.name)


class Effects:
    """net change of the key list and of the mapping on one path"""

    def __init__(self, p, attr):
        self.p, self.K = p, mk('attr', SELF, attr)
        self.k, self.base, self.problems, self.order = [], [], [], []
        for e, ch in walk(p.events):
            self.event(e, ch)

    def event(self, e, ch):
        a = dargs(e)
        kind = e.a[0]
        if kind == 'setattr' and a[0] is SELF and mk('attr', SELF, a[1]) is self.K:
            self.k.append(('clear',) if a[2].op == 'list' and not a[2].a or a[2].op == 'new' else ('?', 'is replaced by %s' % short(a[2], 60)))
            self.order.append('k')
        elif kind in ('mut', 'delitem', 'store') and a[0] is self.K:
            self.k.append(self.on_list(kind, a))
            self.order.append('k')
        elif kind == 'mut' and a[0] is SELF and a[1].startswith('super.'):
            m = a[1][6:]
            if m in ('__setitem__', '__delitem__', 'pop', 'popitem', 'clear'):
                self.base.append((m,) + tuple(a[2]))
                self.order.append('b')
            elif m in ('update', '__init__', 'setdefault', '__ior__', '__reduce__', '__reduce_ex__', 'keys', 'values', 'items', 'copy',
                       '__iter__', '__len__', 'get', '__getitem__', '__contains__', '__reversed__', 'move_to_end', '__eq__', '__or__', '__ror__'):
                if m in BYPASS[self.kind]:
                    self.base.append((m,))
        elif kind == 'call' and self.bisects(a) is not None:
            self.k.append(('insert', self.bisects(a)))
            self.order.append('k')

    kind = 'OrderedDict'

    def bisects(self, a):
        t = a[0]
        if isinstance(t, T) and t.op == 'call' and t.a[0].split('.')[-1] in ('insort', 'insort_left', 'insort_right') and t.a[1][0] is self.K \
                and len(t.a[1]) == 2 and not t.a[2]:
            return t.a[1][1]
        return None

    def position(self, t, k):
        return t.op == 'call' and t.a[0].split('.')[-1] in ('bisect', 'bisect_left', 'bisect_right') and t.a[1] == (self.K, k) and not t.a[2]

    def on_list(self, kind, a):
        if kind == 'delitem':
            i = a[1]
            if i.op == 'call' and i.a[0].split('.')[-1] == 'bisect_left' and i.a[1][0] is self.K:
                return ('remove', i.a[1][1])
            if i.op == 'mcall' and i.a[0] is self.K and i.a[1] == 'index':
                return ('remove', i.a[2][0])
            return ('?', 'loses an entry by position %s' % short(i, 60))
        if kind == 'store':
            return ('?', 'is overwritten in place')
        m, v = a[1], a[2]
        if m == 'insert' and len(v) == 2:
            return ('insert', v[1]) if self.position(v[0], v[1]) else ('?', 'gets %s at position %s, which is not its sorted place' % (short(v[1], 30), short(v[0], 60)))
        if m == 'remove' and len(v) == 1:
            return ('remove', v[0])
        if m == 'clear':
            return ('clear',)
        if m in ('insort', 'bisect.insort', 'insort_left', 'insort_right') and len(v) == 1:
            return ('insert', v[0])
        if m == 'sort' and not v:
            return ('sort',)
        if m in ('append',):
            return ('append', v[0])
        if m == 'pop' and len(v) <= 1:
            i = v[0] if v else const(-1)
            return ('remove', mk('item', self.K, i))
        return ('?', 'is changed by %s' % m)

    def check(self, present):
        """problem of this path or None; present(key): True, False or None (unknown) before the path"""
        k = list(self.k)
        if any(x[0] == 'append' for x in k):
            if k and k[-1][0] == 'sort':
                k = [('insert', x[1]) if x[0] == 'append' else x for x in k if x[0] != 'sort']
            else:
                return 'the key is put at the end of the key list, whatever its order'
        k = [x for x in k if x[0] != 'sort']
        for x in k:
            if x[0] == '?':
                return 'the key list ' + x[1]
        if any(x[0] == 'clear' for x in k) or any(x[0] == 'clear' for x in self.base):
            ok = any(x[0] == 'clear' for x in k) and (any(x[0] == 'clear' for x in self.base) or self.fresh)
            return None if ok and len(k) == 1 and len(self.base) <= 1 else 'the mapping and the key list are not emptied together'
        ins = [x[1] for x in k if x[0] == 'insert']
        rem = [x[1] for x in k if x[0] == 'remove']
        for b in self.base:
            if b[0] == '__setitem__':
                key_ = b[1]
                was = present(key_)
                if was is None:
                    return 'a key is stored without knowing whether it is new'
                if was and (key_ in ins) == (key_ in rem):
                    ins = [x for x in ins if x is not key_]
                    rem = [x for x in rem if x is not key_]
                elif not was and ins.count(key_) == 1 and key_ not in rem:
                    ins.remove(key_)
                else:
                    return 'storing a key that is %s leaves the key list %s' % ('present' if was else 'new', 'with it twice' if was else 'without it')
            elif b[0] in ('__delitem__', 'pop'):
                key_ = b[1]
                if b[0] == 'pop' and len(b) > 2 and present(key_) is not True:
                    return 'a key that may be absent is popped'
                if rem.count(key_) != 1 and not (present(key_) is False and key_ not in rem):
                    return 'a key is removed from the mapping and stays in the key list'
                rem = [x for x in rem if x is not key_]
            elif b[0] == 'popitem':
                got = [x for x in rem if x.op == 'item' and x.a[0].op in ('mres', 'mcall') and x.a[0].a[1] == 'super.popitem']
                if len(got) != 1:
                    return 'the key of the removed item stays in the key list'
                rem.remove(got[0])
            else:
                return 'the mapping is changed by %s behind the key list' % b[0]
        if ins or rem:
            return 'the key list changes (%s) without the mapping' % short((ins or rem)[0], 60)
        return None

    fresh = False


def presence(p, attr):
    """what the path knows about a key being present, counting removals through the class itself"""
    gone = [a[1] for e, _ in walk(p.events) if e.a[0] == 'delitem' for a in [dargs(e)] if a[0] is SELF]
    gone += [a[2][0] for e, _ in walk(p.events) if e.a[0] == 'mut' for a in [dargs(e)] if a[0] is SELF and a[1] in ('pop', '__delitem__') and a[2]]

    def present(k):
        if k in gone:
            return False
        for c in (SELF, mk('attr', SELF, attr)):
            v = p.guards.get(mk('in', k, c))
            if v is not None:
                return v
        return None
    return present


@prop('C01', 'Effect analysis of every method of SortedDict: the net effect of each path on the kept key list is matched with its effect on '
      'the underlying mapping, inherited operations are classified by whether they bypass the overridden item methods, and the views are '
      'matched with the key list.',
      assumptions=['the operations of collections.OrderedDict behave as in CPython 3.12: pop, popitem and clear do not call overridden methods, '
                   'update, setdefault, |= and fromkeys do, copies take over the instance state and then store the items',
                   'keys that are mixed in one dictionary can be compared with each other'])
def check_c01(ctx):
    ctx.rule('effects', 'every path that changes the mapping changes the key list to match, and the other way round')
    ctx.rule('inherited', 'every inherited operation that changes the mapping is overridden or goes through the overridden methods')
    ctx.rule('views', 'iteration, keys, values, items and reversed follow the key list')
    ctx.rule('copies', 'a copy does not take over the key list and then store the items again')
    c = ctx.p.cls(SD)
    kind = base_kind(c)
    attr = key_list(ctx, c)
    views(ctx, c, attr)
    if attr is None:
        return
    own = {}
    for k in c.mro():
        for n, f in k.methods.items():
            own.setdefault(n, f)
    for n, f in sorted(own.items()):
        for p in ctx.run(f.qualname):
            Effects.kind = kind
            ef = Effects(p, attr)
            ef.fresh = n == '__init__'
            if p.kind == 'raise':
                # an error leaves both as they were
                bad = 'an error leaves the mapping and the key list out of step' if ef.base and not ef.k and n != '__delitem__' or ef.k and not ef.base and n != '__init__' else None
                ctx.need(bad is None, 'effects', 'SortedDict.%s' % n, bad or '', f.loc())
                continue
            msg = ef.check(presence(p, attr))
            if msg is None and ef.order[:1] == ['k'] and ef.base and ef.base[0][0] == '__delitem__' and presence(p, attr)(ef.base[0][1]) is None:
                msg = 'a missing key is looked up in the key list first (ValueError instead of KeyError)'
            if n == '__init__':
                sets = [i for i, e in enumerate(p.events) if e.a[0] == 'setattr' and dargs(e)[1] == attr]
                sup = [i for i, e in enumerate(p.events) if e.a[0] == 'mut' and dargs(e)[1] in ('super.__init__', 'super.update', 'update')]
                if not sets or sup and sup[0] < sets[0]:
                    msg = 'items are stored before the key list exists'
            ctx.need(msg is None, 'effects', 'SortedDict.%s' % n, msg or '', f.loc())
    for n in sorted(BYPASS[kind]):
        ctx.need(n in own, 'inherited', 'SortedDict.%s' % n, 'the inherited %s changes the mapping and leaves the key list as it is' % n, c.module.relpath)
    what_is_removed(ctx, own, attr)
    # copies
    red = own.get('__reduce__') or own.get('__reduce_ex__')
    if kind in COPIES_STATE:
        if '__getstate__' in own or '__copy__' in own and '__deepcopy__' in own:
            raise Unproved('copies of %s are made in a way this rule does not know' % c.name)
        if ctx.need(red is not None, 'copies', 'SortedDict', 'copy.copy and copy.deepcopy take over the key list and then store every item again: '
                    'each key appears twice', c.module.relpath):
            for p in ctx.run(red.qualname):
                v = p.dvalue
                lost = dropped(p, attr)
                ok = v.op == 'tuple' and len(v.a) == 5 and (lost or not keeps(v.a[2], attr)) and v.a[4].op in ('mcall', 'call') and mentions(v.a[4], lambda x: x is SELF) \
                    or v.op == 'tuple' and len(v.a) in (2, 3) and (len(v.a) == 2 or lost or not keeps(v.a[2], attr)) and mentions(v.a[1], lambda x: x is SELF)
                ctx.need(ok, 'copies', 'SortedDict.%s' % red.name, 'the copy is made from %s' % short(v, 120), red.loc())
    ctx.floor('effects', 6)


def dropped(p, attr):
    """the key list is taken out of a copy of the state"""
    for e, ch in walk(p.events):
        a = dargs(e)
        if a[0] is SELF or isinstance(a[0], T) and a[0].op == 'attr' and a[0].a[0] is SELF:
            continue
        if e.a[0] == 'delitem' and a[1] is const(attr) or e.a[0] == 'mut' and a[1] == 'pop' and a[2][:1] == (const(attr),):
            return True
    return False


def keeps(t, attr):
    """the state handed to the copy may contain the key list"""
    if t is NONE:
        return False
    if t.op == 'dictlit':
        return any(k.op == 'const' and k.a[0] == attr for k, _ in t.a[0])
    for part in [x for x in subterms(t) if x.op == 'loop']:
        for lp in part.a[3]:
            stores = [e for e in lp.a[1] if e.a[0] == 'store']
            for e in stores:
                k = dargs(e)[1]
                if not any(a.op == 'eq' and k in a.a and const(attr) in a.a and not pol for a, pol in conj(lp.a[0])) and \
                        not any(a.op == 'in' and a.a[0] is k and not pol for a, pol in conj(lp.a[0])):
                    return True
        return False
    return True


def what_is_removed(ctx, own, attr):
    """pop and popitem return what they removed"""
    K = mk('attr', SELF, attr)
    f = own.get('pop')
    if f is not None:
        k = mk('param', f.params[1])
        for p in ctx.run(f.qualname):
            have = p.guards.get(mk('in', k, SELF), p.guards.get(mk('in', k, K)))
            if p.kind == 'return' and have is not False:
                v = p.dvalue
                ok = v is mk('item', SELF, k) or v.op in ('mres', 'mcall') and v.a[0] is SELF and v.a[1] in ('super.pop', 'super.__getitem__') and v.a[2][:1] == (k,)
                ctx.need(ok, 'effects', 'SortedDict.pop: result', 'the value returned is %s' % short(v, 80), f.loc())
            gone = [e for e, _ in walk(p.events) if e.a[0] == 'delitem' and dargs(e)[:2] == (SELF, k) or
                    e.a[0] == 'mut' and dargs(e)[0] is SELF and dargs(e)[1] in ('super.pop', 'super.__delitem__', '__delitem__') and dargs(e)[2][:1] == (k,)]
            if have is True:
                ctx.need(p.kind == 'return' and len(gone) == 1, 'effects', 'SortedDict.pop: present', 'a present key is not removed exactly once', f.loc())
            elif have is False:
                ctx.need(not gone, 'effects', 'SortedDict.pop: absent', 'an absent key is removed', f.loc())
    f = own.get('popitem')
    if f is not None:
        for p in ctx.run(f.qualname):
            if p.kind != 'return':
                continue
            v = p.dvalue
            if v.op in ('mres', 'mcall') and v.a[1] == 'super.popitem':
                continue
            key_ = v.a[0] if v.op == 'tuple' and len(v.a) == 2 else None
            last = p.guards.get(mk('truthy', mk('param', f.params[1]))) if len(f.params) > 1 else True
            i = Cases(lambda t: (last if t in (mk('truthy', mk('param', f.params[1])), mk('param', f.params[1])) else None) if len(f.params) > 1 else None).value(key_.a[1]) \
                if key_ is not None and key_.op == 'item' and key_.a[0] is K else None
            ok = i in (-1,) and last is not False or i == 0 and last is False
            ctx.need(ok, 'effects', 'SortedDict.popitem: result', 'what is returned is %s' % short(v, 80), f.loc())
            gone = [e for e, _ in walk(p.events) if e.a[0] == 'delitem' and dargs(e)[:2] == (SELF, key_) or
                    e.a[0] == 'mut' and dargs(e)[0] is SELF and dargs(e)[1] in ('pop', 'super.pop', 'super.__delitem__', '__delitem__') and dargs(e)[2][:1] == (key_,)]
            ctx.need(len(gone) == 1, 'effects', 'SortedDict.popitem: removal', 'the item returned is not removed exactly once', f.loc())


def views(ctx, c, attr):
    keys = [mk('attr', SELF, attr)] if attr is not None else []
    keys += [mk('mcall', SELF, 'keys', (), ()), SELF]

    def src(t):
        t = plain_copy(t)
        return t in keys or attr is None and t.op == 'sorted' and mentions(t, lambda x: x is SELF)
    for n in ('keys', '__iter__', 'values', 'items', '__reversed__'):
        f = c.find(n)
        if not ctx.need(f is not None, 'views', 'SortedDict.%s' % n, 'the inherited %s follows the order of insertion' % n, c.module.relpath):
            continue
        for p in ctx.run(f.qualname):
            if p.kind != 'return':
                ctx.bad('views', 'SortedDict.%s' % n, 'it raises', f.loc())
                continue
            v = p.dvalue
            if n in ('keys', '__iter__'):
                # the list itself must not be handed out: a caller could change it
                ok = src(v) and v is not SELF and not (n == 'keys' and p.value is mk('attr', SELF, attr)) or \
                    n == '__iter__' and yields_each(p, src)
            elif n == '__reversed__':
                ok = v.op == 'reversed' and src(v.a[0]) or v.op == 'call' and v.a[0] in ('iter', 'reversed') and \
                    (src(v.a[1][0]) if v.a[0] == 'reversed' else v.a[1][0].op == 'reversed' and src(v.a[1][0].a[0])) or \
                    v.op == 'item' and src(v.a[0]) and v.a[1] is mk('slice', NONE, NONE, const(-1))
            else:
                v = plain_copy(v)
                ok = v.op == 'map' and not v.a[1] and src(v.a[0]) and len(v.a[2]) == 1
                if n == 'items' and v.op == 'zip' and len(v.a) == 2 and src(v.a[0]):
                    # the values are those of the keys in order (checked below)
                    ok = v.a[1] is mk('mcall', SELF, 'values', (), ())
                elif ok:
                    g, x = next(iter(v.a[2]))
                    k = mk('elem', v.a[0], v.a[3])
                    val = mk('item', SELF, k)
                    ok = not g and (x is val if n == 'values' else x.op == 'tuple' and x.a == (k, val))
            ctx.need(ok, 'views', 'SortedDict.%s' % n, 'the result is %s' % short(v, 120), f.loc())


def yields_each(p, src):
    ys = [e for e, _ in walk(p.events) if e.a[0] == 'yield']
    loops_ = [e.a[1][0] for e in p.events if e.a[0] == 'loop']
    if len(ys) != 1 or len(loops_) != 1:
        return False
    L = loops_[0]
    return src(L.a[0]) and not L.a[1] and len(L.a[3]) == 1 and normal(L.a[3][0]) and not conj(L.a[3][0].a[0]) and \
        [dargs(e)[0] for e in L.a[3][0].a[1] if e.a[0] == 'yield'] == [mk('elem', L.a[0], L.a[2])]


# ---------------------------------------------------------------- SortedIntervalDict
@prop('C02', 'Abstract interpretation of the item methods of SortedIntervalDict for keys that are intervals, slices and anything else: the one '
      'operation each performs on the underlying sorted dictionary, and the selection of a slice.',
      assumptions=['the underlying dictionary behaves as one (C01)', 'overlap of intervals (C04)'])
def check_c02(ctx):
    ctx.rule('item', 'an interval key is stored, read, deleted exactly once in the underlying dictionary')
    ctx.rule('slice', 'a slice selects exactly the entries overlapping it')
    ctx.rule('reject', 'any other key raises KeyError before anything changes')
    ctx.rule('view', 'iteration and length are those of the underlying dictionary')
    c = ctx.p.cls(SID)
    D = None
    for p in ctx.run(c.find('__len__').qualname):
        t = p.dvalue
        if p.kind == 'return' and t.op == 'call' and t.a[0] == 'len' and t.a[1][0].op == 'attr' and t.a[1][0].a[0] is SELF:
            D = t.a[1][0]
    if D is None:
        raise Unproved('SortedIntervalDict.__len__ no longer measures an underlying dictionary')
    ctx.ok('view')
    for p in ctx.run(c.find('__iter__').qualname):
        v = plain_copy(p.dvalue)
        ctx.need(v is D or v.op in ('mres', 'mcall') and v.a[0] is D and v.a[1] in ('__iter__', 'keys'), 'view', 'SortedIntervalDict.__iter__',
                 'it walks %s' % short(v, 60), c.module.relpath)
    for n in ('__setitem__', '__getitem__', '__delitem__'):
        f = c.find(n)
        if f is None:
            raise AnalysisBroken('SortedIntervalDict.%s is gone' % n)
        k = mk('param', f.params[1])
        for p in ctx.run(f.qualname, opaque=(IV + '.overlaps',) + ((SID + '.__setitem__',) if n == '__getitem__' else ())):
            is_iv = kind_of(p.guards, k, IV)
            is_sl = kind_of(p.guards, k, 'slice')
            what = 'SortedIntervalDict.%s' % n
            if is_iv is not False:
                if is_iv is None and p.kind == 'raise' and not p.events:
                    continue
                evs = [e for e, _ in walk(p.events) if e.a[0] in ('store', 'delitem', 'mut', 'setattr', 'delattr')]
                if n == '__setitem__':
                    ok = p.kind == 'return' and len(evs) == 1 and one_store(evs[0], D, k, mk('param', f.params[2]))
                elif n == '__delitem__':
                    ok = p.kind == 'return' and len(evs) == 1 and (
                        evs[0].a[0] == 'delitem' and dargs(evs[0])[:2] == (D, k) or
                        evs[0].a[0] == 'mut' and dargs(evs[0])[0] is D and dargs(evs[0])[1] in ('pop', '__delitem__') and dargs(evs[0])[2] == (k,))
                else:
                    v = p.dvalue
                    ok = p.kind == 'return' and not evs and (v is mk('item', D, k) or v.op in ('mcall', 'mres') and v.a[0] is D and v.a[1] == '__getitem__' and v.a[2] == (k,))
                ctx.need(ok, 'item', what, 'an interval key is not handled by one operation on the dictionary (%s)' % short(' & '.join(
                    show_lit(g) for g in p.guards.items()), 100), f.loc())
            elif is_sl is not True:
                changed = [e for e, _ in walk(p.events) if e.a[0] in ('store', 'delitem', 'mut', 'setattr')]
                ok = p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] == 'KeyError' and not changed
                ctx.need(ok, 'reject', what, 'a key that is not an interval is %s' % ('accepted' if p.kind == 'return' else 'answered with %s' % short(p.value, 40)), f.loc())
            elif n == '__getitem__':
                selection(ctx, p, k, f, D)
    ctx.floor('item', 3)
    ctx.floor('slice', 1)
    ctx.floor('reject', 3)


def kind_of(guards, who, q):
    for a, v in guards.items():
        if a.op == 'isinst' and a.a[0] is who:
            names = [x.a[0] for x in a.a[1]]
            if any(n == q or n.endswith('.' + q) for n in names):
                if len(names) == 1 or not v:
                    return v
            elif v:
                return False
    return None


def one_store(e, D, k, v):
    a = dargs(e)
    return e.a[0] == 'store' and a[:3] == (D, k, v) or e.a[0] == 'mut' and a[0] is D and (
        a[1] == '__setitem__' and a[2] == (k, v))


def selection(ctx, p, k, f, D):
    what = 'SortedIntervalDict.__getitem__: slice'
    new = p.value
    if not ctx.need(p.kind == 'return' and new.op == 'new' and new.a[0] == SID, 'slice', what, 'the result is %s' % short(new, 60), f.loc()):
        return
    loops_ = [e.a[1][0] for e in p.events if e.a[0] == 'loop']
    loops_ = [L for L in loops_ if strip_view(L.a[0]) in (SELF, D)] or loops_
    if not ctx.need(len(loops_) == 1 and strip_view(loops_[0].a[0]) in (SELF, D), 'slice', what, 'the entries of the dictionary are not walked once', f.loc()):
        return
    L = loops_[0]
    el = mk('elem', L.a[0], L.a[2])

    def is_entry(t):
        if t.op != 'tuple' or len(t.a) != 2 or t.a[0] is not el:
            return False
        v = t.a[1]
        return v in (mk('item', SELF, el), mk('item', D, el)) or v.op == 'fcall' and v.a[0] == f.qualname and dict(v.a[1]) == {f.params[0]: SELF, f.params[1]: el}
    keep, drop = [], []
    for lp in L.a[3]:
        if not normal(lp):
            ctx.bad('slice', what, 'the walk ends early', f.loc())
        taken = [dargs(e)[2] for e in lp.a[1] if e.a[0] == 'mut' and dargs(e)[1] == 'append'] + \
                [(mk('tuple', *dargs(e)[1:3]),) for e in lp.a[1] if e.a[0] == 'store' and strip_view(dargs(e)[0]) not in (SELF, D)]
        tests = [(a, v) for a, v in conj(lp.a[0])]
        ov = [(a, v) for a, v in tests if overlap_test(a, el)]
        ok = len(tests) == 1 and len(ov) == 1 and ov[0][1] == bool(taken) and (not taken or len(taken) == 1 and len(taken[0]) == 1 and is_entry(taken[0][0]))
        ctx.need(ok, 'slice', what, 'an entry is %s when %s' % ('taken' if taken else 'left out', short(' & '.join(show_lit(l) for l in tests), 100)), f.loc())
        for a, _ in ov:
            got = bounds_of(p, lp, a, el)
            for i, side, inf in ((0, 'start', float('-inf')), (1, 'stop', float('inf'))):
                given = mk('attr', k, side)
                none = p.guards.get(mk('isnone', given))
                v = got[i] if got else None
                if none:
                    good = v is not None and (num(v) and v.a[0] == inf or 'inf' in show(v) and ('-' in show(v)) == (inf < 0))
                else:
                    good = v is given or v is not None and mentions(v, lambda x: x is given)
                ctx.need(bool(good), 'slice', what + ' bound', 'the %s of the range is %s' % (side, short(v, 60) if v is not None else '?'), f.loc())


def strip_view(t):
    while t.op in ('copyof',) or t.op in ('mcall', 'mres') and t.a[1] in ('items', 'keys', '__iter__') or t.op == 'call' and t.a[0] in ('list', 'tuple') and len(t.a[1]) == 1:
        t = t.a[1] if t.op == 'copyof' else t.a[0] if t.op in ('mcall', 'mres') else t.a[1][0]
    return t


def overlap_test(a, el):
    if a.op != 'truthy':
        return False
    t = a.a[0]
    return t.op in ('mres', 'mcall') and t.a[1] == 'overlaps' and (t.a[0] is el or t.a[2] == (el,)) or \
        t.op == 'fcall' and t.a[0] == IV + '.overlaps' and any(v is el for _, v in t.a[1])


def bounds_of(p, lp, a, el):
    t = a.a[0]
    other = t.a[2][0] if t.op in ('mres', 'mcall') and t.a[0] is el else t.a[0] if t.op in ('mres', 'mcall') else next(v for _, v in t.a[1] if v is not el)
    for e in list(p.events) + list(lp.a[1]):
        if e.a[0] == 'extnew' and e.a[1][0] is other and e.a[1][1].a[0] == IV:
            c = e.a[1][1]
            d = dict(zip(('start', 'end'), c.a[1]))
            d.update(dict(c.a[2]))
            return d.get('start'), d.get('end')
    return field_values(p, other, ('start', 'end'))


def field_values(p, v, names):
    """fields of a newly made value object"""
    if not isinstance(v, T) or v.op != 'new':
        return None
    h = p.st.heap
    if all((v, n) in h for n in names):
        return tuple(h[(v, n)] for n in names)
    if (v, '__args__') in h:
        return tuple(h[(v, '__args__')].a[:len(names)])
    c = h.get((v, '__ctor__'))
    if c is not None and c.op == 'fcall':
        return tuple(fc_arg(c, n) for n in names)
    return None


# ---------------------------------------------------------------- intervals
def spans(lo=0, hi=3):
    return [(a, b) for a in range(lo, hi + 1) for b in range(a + 1, hi + 1)]


class Alg:
    """paths of one interval operation, evaluated for every relative order of the bounds"""

    def __init__(self, ctx, cls, names, module):
        self.ctx, self.cls, self.names, self.module = ctx, cls, names, module
        self.lemmas = {}

    def leaf(self, env, points):
        x = {mk('param', k): v for k, v in env.items()}

        def leaf(t):
            if t.op == 'attr' and t.a[0] in x and t.a[1] in self.names + ('data',):
                v = x[t.a[0]]
                if isinstance(v, tuple):
                    return (v + (0,) * (3 - len(v)))[(self.names + ('data',)).index(t.a[1])]
                return None
            if t in x and not isinstance(x[t], tuple):
                return x[t]
            if t.op == 'item' and t.a[0] in x and isinstance(x[t.a[0]], tuple):
                v = x[t.a[0]]
                i = t.a[1]
                if num(i) and -1 < i.a[0] < len(v):
                    return v[int(i.a[0])]
                if i.op == 'slice' and i.a[0] in (NONE, const(0)) and i.a[1] is const(2):
                    return v[:2]
            if t.op == 'tuple' and all(leaf(y) is not None for y in t.a):
                return tuple(leaf(y) for y in t.a)
            if t.op == 'tuple' and len(t.a) == 1 and t.a[0] in x:
                return (x[t.a[0]],)
            if t.op == 'isnone' and t.a[0] in x:
                return False
            if t.op == 'isinst' and t.a[0] in x:
                is_iv = isinstance(x[t.a[0]], tuple)
                return is_iv == any(c.a[0] == self.cls for c in t.a[1])
            if t.op == 'exc':
                return points
            if t.op == 'truthy' and t.a[0].op == 'call' and t.a[0].a[0] == 'hasattr' and t.a[0].a[1][0] in x:
                n = t.a[0].a[1][1]
                return isinstance(x[t.a[0].a[1][0]], tuple) and n.op == 'const' and \
                    (n.a[0] in self.names + ('data',) or self.ctx.p.cls(self.cls).find(n.a[0]) is not None)
            if t.op in ('eq', 'lt') and t.a[0] in x and t.a[1] in x:
                a, b = x[t.a[0]], x[t.a[1]]
                if isinstance(a, tuple) and isinstance(b, tuple):
                    pad = lambda v: v + (0,) * (3 - len(v))
                    return pad(a) == pad(b) if t.op == 'eq' else pad(a) < pad(b)
                return None
            if t.op == 'fcall' and t.a[0].startswith(self.cls + '.'):
                m = t.a[0].split('.')[-1]
                if m in self.lemmas:
                    vals = {}
                    for k, v in t.a[1]:
                        vals[k] = x[v] if v in x else leaf(v)
                    return self.lemmas[m](vals)
            if t.op in ('truthy', 'not') and t.a[0].op == 'fcall':
                v = leaf(t.a[0])
                return None if v is None else bool(v) == (t.op == 'truthy')
            return None
        return leaf

    def op(self, rid, what, params, expr, cases, want, points=False, result=None, show_=None):
        ctx = self.ctx
        where = self.ctx.p.cls(self.cls).module.relpath
        ps = ctx.drive(self.module, 'def use(%s):\n    return %s' % (params, expr))
        bad, n = None, 0
        for env in all_scales(list(cases)):
            exp = want(**env)
            lf = self.leaf(env, points)
            case = Cases(lf)
            got = [p for p in ps if case.lits(p.guards) is not False]
            if points:
                # a number has no bounds
                pts = [mk('param', k) for k, v in env.items() if not isinstance(v, tuple)]
                bare = lambda t: t.op == 'attr' and t.a[0] in pts
                got = [p for p in got if p.kind != 'return' or not (mentions(p.dvalue, bare) or any(
                    mentions(a, bare) for a in p.guards if a.op != 'or'))]
            n += 1
            if not got:
                bad = bad or 'no outcome for %s' % env
            for p in got:
                if p.kind == 'raise':
                    if exp is not Rejected:
                        bad = bad or 'it raises for %s' % env
                    continue
                if exp is Rejected:
                    bad = bad or 'it accepts %s' % env
                    continue
                v = p.dvalue
                if v.op == 'new':
                    fs = field_values(p, v, self.names)
                    r = tuple(case.value(f) for f in fs) if fs and v.a[0] == self.cls else None
                elif v is NONE:
                    r = 'none'
                else:
                    r = case.value(v)
                    if r is None:
                        r = case.atom(v)
                if r != exp:
                    bad = bad or 'for %s the result is %s instead of %s' % (', '.join('%s=%s' % (k, list(v) if isinstance(v, tuple) else v) for k, v in env.items()),
                                                                           r if r is not None else short(v, 60), exp)
        ctx.need(bad is None, rid, what, bad or '', where)


class Rejected:
    pass


@prop('C04', 'Case distinction over every relative order of the bounds of two intervals (and a point): the guards and results of each operation '
      'of both interval classes are evaluated for each order and compared with the interval algebra.',
      assumptions=['bounds are ordered numbers'])
def check_c04(ctx):
    ctx.rule('closed', 'closed intervals: overlap, intersection, union, containment and order follow the bounds')
    ctx.rule('half open', 'half-open intervals: overlap, size of the overlap, distance, containment, length and order follow the bounds')
    A = Alg(ctx, IV, ('start', 'end'), 'midi.Interval')
    two = 'x: Interval, y: Interval'
    closed = [(a, b) for a in range(4) for b in range(a, 4)]
    pairs = [dict(x=x, y=y) for x in closed for y in closed]
    ov = lambda x, y: max(x[0], y[0]) <= min(x[1], y[1])
    A.lemmas = {'overlaps': lambda v: ov(v['self'], v['other'])}
    A.op('closed', 'Interval.overlaps', two, 'x.overlaps(y)', pairs, ov)
    A.op('closed', 'Interval.intersection', two, 'x.intersection(y)', pairs, lambda x, y: (max(x[0], y[0]), min(x[1], y[1])) if ov(x, y) else 'none')
    A.op('closed', 'Interval.union', two, 'x.union(y)', pairs, lambda x, y: (min(x[0], y[0]), max(x[1], y[1])))
    A.op('closed', 'Interval.__lt__', two, 'x.__lt__(y)', pairs, lambda x, y: x < y)
    A.op('closed', 'Interval.__le__', two, 'x.__le__(y)', pairs, lambda x, y: x <= y)
    A.op('closed', 'Interval.__eq__', two, 'x.__eq__(y)', pairs, lambda x, y: x == y)
    A.op('closed', 'Interval.__contains__', 'x: Interval, a: float', 'x.__contains__(a)',
         [dict(x=x, a=p) for x in closed for p in (-1, 0, 0.5, 1, 1.5, 2, 3, 4)], lambda x, a: x[0] <= a <= x[1])
    B = Alg(ctx, FI, ('begin', 'end'), 'interval.interval')
    two = 'x: FloatInterval, y: FloatInterval'
    pairs = [dict(x=x, y=y) for x in spans() for y in spans()]
    ov2 = lambda x, y: x[0] < y[1] and y[0] < x[1]
    raw = [dict(x=x, a=y[0], b=y[1]) for x in spans() for y in spans()]
    B.op('half open', 'FloatInterval.overlaps(begin, end)', 'x: FloatInterval, a: float, b: float', 'x.overlaps(a, b)', raw, lambda x, a, b: ov2(x, (a, b)))
    pts = [dict(x=x, a=p) for x in spans() for p in (-1, 0, 0.5, 1, 1.5, 2, 3, 4)]
    inside = lambda x, a: x[0] <= a < x[1]
    B.op('half open', 'FloatInterval.contains_point', 'x: FloatInterval, a: float', 'x.contains_point(a)', pts, inside)
    B.lemmas = {'overlaps': lambda v: ov2(v['self'], (v['begin'], v['end'])) if v.get('end') is not None else
                ov2(v['self'], v['begin']) if isinstance(v['begin'], tuple) else inside(v['self'], v['begin']) if v['begin'] is not None else None}
    B.op('half open', 'FloatInterval.overlaps(interval)', two, 'x.overlaps(y)', pairs, ov2)
    B.op('half open', 'FloatInterval.overlaps(point)', 'x: FloatInterval, a: float', 'x.overlaps(a)', pts, inside, points=True)
    B.op('half open', 'FloatInterval.overlap_size', two, 'x.overlap_size(y)', pairs, lambda x, y: max(0, min(x[1], y[1]) - max(x[0], y[0])))
    B.op('half open', 'FloatInterval.overlap_size(begin, end)', 'x: FloatInterval, a: float, b: float', 'x.overlap_size(a, b)', raw,
         lambda x, a, b: max(0, min(x[1], b) - max(x[0], a)))
    B.op('half open', 'FloatInterval.distance_to', two, 'x.distance_to(y)', pairs, lambda x, y: max(0, y[0] - x[1], x[0] - y[1]))
    B.op('half open', 'FloatInterval.contains_interval', two, 'x.contains_interval(y)', pairs, lambda x, y: x[0] <= y[0] and y[1] <= x[1])
    B.op('half open', 'FloatInterval.range_matches', two, 'x.range_matches(y)', pairs, lambda x, y: x == y)
    any_span = [dict(x=(a, b)) for a in range(4) for b in range(4)]
    B.op('half open', 'FloatInterval.is_null', 'x: FloatInterval', 'x.is_null()', any_span, lambda x: x[0] >= x[1])
    B.op('half open', 'FloatInterval.length', 'x: FloatInterval', 'x.length()', any_span, lambda x: max(0, x[1] - x[0]))
    B.op('half open', 'FloatInterval.__lt__', two, 'x.__lt__(y)', pairs, lambda x, y: x < y)
    B.op('half open', 'FloatInterval.__gt__', two, 'x.__gt__(y)', pairs, lambda x, y: x > y)
    B.op('half open', 'FloatInterval.__eq__', two, 'x.__eq__(y)', pairs, lambda x, y: x == y)
    wide = pairs + [dict(x=(1, 1), y=(0, 2)), dict(x=(0, 2), y=(2, 1))]
    null = lambda x, y: x[0] >= x[1] or y[0] >= y[1]
    B.op('half open', 'FloatInterval.lt', two, 'x.lt(y)', wide, lambda x, y: Rejected if null(x, y) else x[1] <= y[0])
    B.op('half open', 'FloatInterval.gt', two, 'x.gt(y)', wide, lambda x, y: Rejected if null(x, y) else x[0] >= y[1])
    B.op('half open', 'FloatInterval.le', two, 'x.le(y)', wide, lambda x, y: Rejected if null(x, y) else x[1] <= y[1])
    B.op('half open', 'FloatInterval.ge', two, 'x.ge(y)', wide, lambda x, y: Rejected if null(x, y) else x[0] >= y[0])
    B.op('half open', 'FloatInterval.copy', 'x: FloatInterval', 'x.copy()', [dict(x=x) for x in spans()], lambda x: x)
    gap = lambda x, a: max(0, x[0] - a, a - x[1])
    B.op('half open', 'FloatInterval.distance_to(point)', 'x: FloatInterval, a: float', 'x.distance_to(a)', pts, gap, points=True)
    for name, want in (('lt', lambda x, a: x[1] <= a), ('le', lambda x, a: x[1] <= a), ('gt', lambda x, a: x[0] > a), ('ge', lambda x, a: x[0] >= a)):
        B.op('half open', 'FloatInterval.%s(point)' % name, 'x: FloatInterval, a: float', 'x.%s(a)' % name, pts, want, points=True)
    data = [dict(x=x + (k,), y=y + (m,)) for x in ((0, 1), (0, 2), (1, 2)) for y in ((0, 1), (0, 2), (1, 2)) for k in (0, 1) for m in (0, 1)]
    B.op('half open', 'FloatInterval.__eq__ with data', two, 'x.__eq__(y)', data, lambda x, y: x == y)
    B.op('half open', 'FloatInterval.__lt__ with data', two, 'x.__lt__(y)', data, lambda x, y: x < y)
    B.op('half open', 'FloatInterval.__gt__ with data', two, 'x.__gt__(y)', data, lambda x, y: x > y)
    ctx.floor('closed', 7)
    ctx.floor('half open', 26)


# ---------------------------------------------------------------- interval tree
TREE = PKG + 'interval.intervaltree.FloatIntervalTree'
NODE = PKG + 'interval.node.Node'


def tree_state(ctx):
    """(interval set, search tree, boundary table): the attributes that hold the state of a tree"""
    S = N = B = None
    for p in ctx.run(TREE + '.__contains__'):
        v = p.dvalue
        for a in list(p.guards) + [x for x in subterms(v)]:
            if a.op == 'in' and a.a[1].op == 'attr' and a.a[1].a[0] is SELF:
                S = a.a[1]
    for p in ctx.run(TREE + '.__init__', opaque=tree_nodes(ctx)):
        for e, _ in walk(p.events):
            if e.a[0] == 'setattr' and dargs(e)[0] is SELF:
                t, v = mk('attr', SELF, dargs(e)[1]), dargs(e)[2]
                if t is S:
                    continue
                if v.op == 'fcall' and v.a[0].startswith(NODE) or v.op == 'new' and v.a[0] == NODE or any(
                        f.a[0] == 'fcall' and dargs(f)[0].a[0].startswith(NODE) for f, _ in walk(p.events)) and v is NONE:
                    N = t
                elif v.op == 'new' or v.op == 'call':
                    B = t
    if S is None or N is None or B is None:
        raise Unproved('the interval set, the search tree and the boundary table of the interval tree are not recognised')
    return S, N, B


def tree_nodes(ctx):
    return tuple(NODE + '.' + n for n in ('add', 'remove', 'discard', 'from_interval', 'from_intervals', 'from_sorted_intervals', 'search_point', 'search_overlap',
                                          'contains_point', 'verify', 'all_children', 'print_structure', 'count_nodes', 'depth_score')) + (FI + '.is_null',)


def tree_methods(c):
    return {n: f for n, f in c.methods.items() if not n.startswith('_') or n.startswith('__') and n.endswith('__')}


class Net:
    """changes of the three parts of a tree within one stretch of code (a path outside its loops, or one iteration)"""

    def __init__(self, st, S, N, B, guards):
        self.s, self.n, self.counts, self.odd, self.emptied = [], [], [], [], set()
        self.st, self.S, self.N, self.B, self.guards = st, S, N, B, guards

    def event(self, e, known):
        k, a = e.a[0], dargs(e)
        S, N, B = self.S, self.N, self.B
        if k == 'setattr' and a[0] is SELF:
            t = mk('attr', SELF, a[1])
            if t in (S, N, B) and self.nothing(a[2]):
                self.emptied.add(t)
            elif t is N:
                self.n.append(self.tree(a[2], known))
            elif t in (S, B):
                self.odd.append('%s is replaced' % show(t))
        elif k == 'mut' and a[0] is S:
            if a[1] in ('add', 'remove', 'discard') and len(a[2]) == 1:
                self.s.append(('add' if a[1] == 'add' else 'remove', a[2][0]))
            elif a[1] not in ('__iter__', 'copy', '__len__', '__contains__', 'union', 'difference', 'intersection', 'symmetric_difference', '__and__', '__or__', 'issubset', 'isdisjoint'):
                self.odd.append('the interval set is changed by %s' % a[1])
        elif k == 'store' and a[0] is B:
            self.counts.append((a[1], a[2]))
        elif k == 'delitem' and a[0] is B or k == 'mut' and a[0] is B and a[1] == 'pop':
            self.counts.append((a[1] if k == 'delitem' else a[2][0], None))
        elif k == 'mut' and a[0] is B and a[1] in ('clear', 'update', 'setdefault', 'popitem'):
            self.odd.append('the boundary table is changed by %s' % a[1])

    @staticmethod
    def nothing(v):
        """an empty set, table or tree"""
        return v is NONE or v.op == 'new' and v.a[0].endswith('SortedDict') or \
            v.op == 'call' and v.a[0] == 'set' and (not v.a[1] or v.a[1][0].op in ('list', 'tuple') and not v.a[1][0].a)

    @property
    def b(self):
        """change of the count of each boundary: what the last of consecutive writes to it leaves"""
        out = []
        for key, group in itertools.groupby(self.counts, lambda x: x[0]):
            out.append(self.count(key, list(group)[-1][1]))
        return out

    def feasible(self, key, most=4):
        """counts the boundary can have had on this path (0: absent)"""
        B = self.B
        have = self.guards.get(mk('in', key, B))
        out = set()
        for c in range(most + 1):
            if have is not None and have != (c > 0):
                continue

            def leaf(t):
                if t is mk('item', B, key) or t.op == 'mres' and t.a[0] is B and t.a[1] == 'pop' and t.a[2][0] is key:
                    return c if c else None
                if t.op in ('mcall', 'mres') and t.a[0] is B and t.a[1] == 'get' and t.a[2] == (key, const(0)):
                    return c
                return None
            case = Cases(leaf)
            if all((v is None or v == want) for v, want in ((case.atom(a), w) for a, w in self.guards.items() if mentions(a, lambda x: x is B) and a.op != 'in')):
                out.add((c, None if self.last is None else case.value(self.last)))
        return out

    last = None

    def count(self, key, v):
        self.last = v
        fs = self.feasible(key)
        self.last = None
        if v is None:
            return (-1, key) if {c for c, _ in fs} - {0} == {1} else ('?', 'the boundary %s is dropped although others may share it' % short(key, 40))
        # a count that was there, or is known to be absent
        have = self.guards.get(mk('in', key, self.B))
        total = mentions(v, lambda t: t.op in ('mcall', 'mres') and t.a[0] is self.B and t.a[1] == 'get')
        if have is None and not total:
            fs = {x for x in fs if x[0]}
        for sign in (1, -1):
            if fs and all(n is not None and n == c + sign for c, n in fs):
                if sign == 1 and have is None and not total:
                    return ('?', 'the boundary %s is counted up without being there' % short(key, 40))
                if sign == -1 and any(n <= 0 for _, n in fs):
                    return ('?', 'the boundary %s stays in the table with a count of zero' % short(key, 40))
                return (sign, key)
        return ('?', 'the count of boundary %s becomes %s' % (short(key, 40), short(v, 50)))

    def tree(self, v, known):
        if v.op == 'fcall' and v.a[0].startswith(NODE + '.'):
            m, args_ = v.a[0].split('.')[-1], dict(v.a[1])
            recv, x = args_.get('self'), [t for n, t in v.a[1] if n not in ('self', 'cls')]
            if m == 'add' and recv is self.N and len(x) == 1:
                return ('add', x[0])
            if m in ('remove', 'discard') and recv is self.N and len(x) == 1:
                return ('remove', x[0])
            if m == 'from_interval' and len(x) == 1:
                if known(mk('truthy', self.N)) is False or known(mk('isnone', self.N)) is True:
                    return ('add', x[0])
                return ('?', 'the tree is replaced although it may hold intervals')
        if v.op == 'new' and v.a[0] == NODE and (known(mk('truthy', self.N)) is False or known(mk('isnone', self.N)) is True):
            c = self.st.heap.get((v, 's_center')) or self.st.heap.get((v, '__ctor__'))
            return ('add', c)
        return ('?', 'the tree becomes %s' % short(v, 60))

    def check(self, known, fresh=False):
        if self.odd:
            return self.odd[0]
        if self.emptied:
            if self.emptied == {self.S, self.N, self.B} and not (self.s or self.n or self.counts):
                return None
            return '%s is emptied and the other parts of the tree are not' % show(sorted(self.emptied, key=show)[0])
        for part in (self.n, self.b):
            for x in part:
                if x[0] == '?':
                    return x[1]
        if not (self.s or self.n or self.b):
            return None
        if len(self.s) != 1:
            return 'the interval set is changed %d times' % len(self.s) if self.s else 'the %s changes and the interval set does not' % ('tree' if self.n else 'boundary table')
        what, x = self.s[0]
        same = [n for n in self.n if n[0] == what and (n[1] is x or n[1] is not None and n[1].op not in ('param', 'elem') and mentions(n[1], lambda t: t is x))]
        if len(self.n) != 1 or not same:
            return 'the interval is %s in the interval set and not in the tree' % ('added' if what == 'add' else 'removed')
        sign = 1 if what == 'add' else -1
        want = {(sign, mk('attr', x, 'begin')), (sign, mk('attr', x, 'end'))}
        if len(self.b) != 2 or set(self.b) != want:
            return 'the interval is %s and the boundary table is changed at %s' % (
                'added' if what == 'add' else 'removed', ', '.join('%s by %+d' % (short(k, 40), n) for n, k in self.b) or 'no place')
        have = known(mk('in', x, self.S))
        if have is None:
            have = known(mk('in', x, SELF))
        if what == 'add' and have is not False:
            return 'an interval that may be in the tree already is counted again'
        if what == 'remove' and have is not True:
            return 'an interval that may be absent is removed from the counts'
        if what == 'add' and not any(known(a) is False for a in nulls(x)) and known(mk('lt', mk('attr', x, 'begin'), mk('attr', x, 'end'))) is not True:
            return 'an empty interval is not turned away'
        return None


def nulls(x):
    return [mk('truthy', mk('mres', x, 'is_null', (), i)) for i in range(3)] + [mk('truthy', mk('mcall', x, 'is_null', (), ()))] + \
        [mk('truthy', mk('fcall', FI + '.is_null', (('self', x),), i)) for i in range(3)]


def sorted_pair(a, b):
    from ..terms import cmp_lit
    lit = cmp_lit('==', a, b)
    at = lit[0] if isinstance(lit, tuple) else lit
    return at.a if at.op == 'eq' else (a, b)


def lin_add(t, k):
    from ..terms import binop
    return binop('+', t, const(k))


@prop('C03', 'Effect analysis of every method of the interval tree: on each path, and in each iteration of a loop, the changes of the interval set, '
      'of the search tree and of the boundary counts are collected and matched with each other.',
      assumptions=['adding to and removing from a tree node changes that subtree by that interval (rules of C07, checked here too)', 'intervals are compared by value'])
def check_c03(ctx):
    ctx.rule('paired', 'what changes one of interval set, tree and boundary table changes the other two to match')
    ctx.rule('built', 'a new tree holds the intervals it was given in all three')
    ctx.rule('asked', 'membership, iteration and length are those of the interval set')
    from . import intervals
    intervals.node_rules(ctx, ('route', 'turn'))
    c = ctx.p.cls(TREE)
    S, N, B = tree_state(ctx)
    ms = tree_methods(c)
    for n, f in sorted(ms.items()):
        others = tuple(g.qualname for m, g in ms.items() if m != n and m not in ('__contains__', '__iter__', '__len__', '__bool__'))
        where = 'FloatIntervalTree.%s' % n
        for p in ctx.run(f.qualname, opaque=tree_nodes(ctx) + others):
            if n == '__init__':
                built(ctx, p, f, S, N, B)
                continue
            stretches(ctx, p, p.events, (), S, N, B, where, f)
    mod = TREE.rpartition('.')[0]
    for p in ctx.drive(mod, 'def use():\n    return %s()\n' % TREE.rpartition('.')[2]):
        ctx.need(p.kind == 'return', 'built', 'FloatIntervalTree()', 'an empty tree cannot be made: it raises %s' % short(p.value, 60), c.find('__init__').loc())
    for n in ('__contains__', '__iter__', '__len__'):
        f = c.find(n)
        for p in ctx.run(f.qualname):
            v = p.dvalue
            ok = p.kind == 'return' and (
                n == '__len__' and v.op == 'call' and v.a[0] == 'len' and v.a[1] == (S,) or n == '__iter__' and strip_view(plain_copy(v)) is S or
                n == '__contains__' and (v is mk('in', mk('param', f.params[1]), S) or v in (const(True), const(False)) and
                                         p.guards.get(mk('in', mk('param', f.params[1]), S)) is v.a[0]))
            ctx.need(ok, 'asked', 'FloatIntervalTree.%s' % n, 'the answer is %s' % short(v, 60), f.loc())
    for n in ('add', 'remove', 'discard'):
        wanted(ctx, c.find(n), n, S, N, B, tuple(g.qualname for m, g in ms.items() if m not in (n, '__contains__', '__iter__', '__len__', 'add', 'remove', 'discard')))
    ctx.floor('paired', 30)
    ctx.floor('built', 4)


def stretches(ctx, p, events, guards, S, N, B, where, f):
    g = dict(p.guards)
    for lits in guards:
        g.update(dict(conj(lits)))
    net = Net(p.st, S, N, B, g)

    def known(a):
        return g.get(a)
    for e in events:
        if e.a[0] == 'loop':
            for lp in e.a[1][0].a[3]:
                stretches(ctx, p, lp.a[1], guards + (lp.a[0],), S, N, B, where, f)
            continue
        net.event(e, known)
    msg = None
    if guards or p.kind != 'raise' or net.s or net.n or net.b:
        msg = net.check(known) if p.kind != 'raise' or guards else 'an error leaves the parts of the tree out of step' if net.check(known) else None
    ctx.need(msg is None, 'paired', where, msg or '', f.loc())


def wanted(ctx, f, n, S, N, B, others):
    """add stores a missing interval, remove and discard take out a present one"""
    x = mk('param', f.params[1])
    for p in ctx.run(f.qualname, opaque=tree_nodes(ctx) + others):
        have = p.guards.get(mk('in', x, S))
        net = Net(p.st, S, N, B, p.guards)
        for e, _ in walk(p.events):
            net.event(e, p.guards.get)
        empty = any(p.guards.get(a) for a in nulls(x))
        if n == 'add':
            ok = have is True and p.kind == 'return' and not net.s or have is False and (net.s == [('add', x)] if p.kind == 'return' else empty)
        elif n == 'remove':
            ok = have is False and p.kind == 'raise' and not net.s or have is True and p.kind == 'return' and net.s == [('remove', x)]
        else:
            ok = have is False and p.kind == 'return' and not net.s or have is True and p.kind == 'return' and net.s == [('remove', x)]
        ctx.need(ok, 'paired', 'FloatIntervalTree.%s: result' % n, 'an interval that is %s: %s, %s' % (
            'present' if have else 'absent' if have is False else 'perhaps present', 'the method returns' if p.kind == 'return' else 'it raises',
            'the set is changed' if net.s else 'the set is left as it is'), f.loc())


def same_set(t, src):
    """t holds exactly the elements of the parameter"""
    while t.op == 'copyof' or t.op == 'call' and t.a[0] in ('set', 'frozenset', 'list', 'tuple') and len(t.a[1]) == 1:
        t = t.a[1] if t.op == 'copyof' else t.a[1][0]
    return t is src or src is NONE and t.op == 'list' and not t.a


def built(ctx, p, f, S, N, B):
    where = 'FloatIntervalTree.__init__'
    src = mk('param', f.params[1])
    none = p.guards.get(mk('isnone', src))
    if p.kind == 'raise':
        ctx.need(any(lit for e, ch in walk(p.events) for lit in ch) or p.value is not None, 'built', where, '', f.loc())
        return
    vals = {}
    for e in p.events:
        if e.a[0] == 'setattr' and dargs(e)[0] is SELF:
            vals.setdefault(mk('attr', SELF, dargs(e)[1]), []).append(dargs(e)[2])
    want = NONE if none else src
    s = vals.get(S, [None])
    ctx.need(len(s) == 1 and s[0] is not None and s[0] is not src and same_set(s[0], want), 'built', where + ': set',
             'the interval set becomes %s' % (short(s[0], 60) if s[0] is not None else 'nothing'), f.loc())
    n = vals.get(N, [None])[-1]
    ok = n is not None and (n is NONE and none or n.op == 'fcall' and n.a[0] in (NODE + '.from_intervals', NODE + '.from_sorted_intervals') and
                            same_set(unsort(fc_arg(n, 'intervals')), want))
    ctx.need(ok, 'built', where + ': tree', 'the tree becomes %s' % (short(n, 60) if n is not None else 'nothing'), f.loc())
    b = vals.get(B, [None])[-1]
    if not ctx.need(b is not None and (b.op == 'new' and b.a[0].endswith('SortedDict')), 'built', where + ': boundaries',
                    'the boundary table becomes %s' % (short(b, 60) if b is not None else 'nothing'), f.loc()):
        return
    if none:
        return
    loops_ = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and any(x.a[0] in ('store', 'delitem') and dargs(x)[0] is b for lp in e.a[1][0].a[3] for x in lp.a[1])]
    if not ctx.need(len(loops_) == 1 and (same_set(loops_[0].a[0], src) or loops_[0].a[0] is S), 'built', where + ': boundaries',
                    'the boundaries are not counted in one walk over the intervals', f.loc()):
        return
    L = loops_[0]
    el = mk('elem', L.a[0], L.a[2])
    for lp in L.a[3]:
        g = dict(conj(lp.a[0]))
        net = Net(p.st, S, N, b, g)
        for e in lp.a[1]:
            net.event(e, g.get)
        bad = [x[1] for x in net.b if x[0] == '?']
        ok = normal(lp) and not bad and len(net.b) == 2 and set(net.b) == {(1, mk('attr', el, 'begin')), (1, mk('attr', el, 'end'))}
        ctx.need(ok, 'built', where + ': boundaries', bad[0] if bad else 'an interval is counted at %s' % ', '.join(short(x[1], 40) for x in net.b), f.loc())
    # empty intervals are turned away
    tests = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and any(a.op == 'truthy' and 'is_null' in show(a) or a.op == 'lt' for lp in e.a[1][0].a[3] for a, _ in conj(lp.a[0]))]
    ctx.need(any(same_set(L2.a[0], src) or L2.a[0] is S for L2 in tests), 'built', where + ': empty', 'empty intervals are not turned away', f.loc())


def unsort(t):
    while t is not None and (t.op == 'sorted' or t.op == 'call' and t.a[0] == 'sorted'):
        t = t.a[0] if t.op == 'sorted' else t.a[1][0]
    return t
