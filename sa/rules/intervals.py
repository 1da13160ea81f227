"""The interval tree as a collection of intervals: queries (C05), set operations and cuts (C06), search tree nodes (C07)."""
import ast
from . import prop
from ..cases import Cases, all_scales, scaled, SCALES
from ..lib import *
from ..loader import Unproved
from ..terms import T, mk, num, const
from .containers import FI, NODE, SELF, TREE, plain_copy, strip_view, tree_state
from .walks import walk_rule

DATA = ('data of', )


class Stop(Exception):
    """the summary of a path cannot be evaluated for this case"""


def inside(iv, p):
    return iv[0] <= p < iv[1]


def shares(iv, b, e):
    return b < e and iv[0] < e and b < iv[1]


LEMMAS = {'is_null': lambda iv: iv[0] >= iv[1], 'length': lambda iv: max(iv[1] - iv[0], 0), 'copy': lambda iv: iv,
          'contains_point': lambda iv, p: inside(iv, p), 'contains_interval': lambda iv, o: iv[0] <= o[0] and iv[1] >= o[1],
          'range_matches': lambda iv, o: iv[:2] == o[:2],
          'overlaps': lambda iv, b, e=None: shares(iv, b, e) if e is not None else inside(iv, b) if not isinstance(b, tuple) else shares(iv, *b[:2])}


class World:
    """A tree that holds the given intervals, and the values of the parameters: what a path of a tree operation does there.

    Tree operations treat every stored interval on its own, so one generic interval (two where intervals are compared with each
    other) in every order with the other bounds stands for all trees."""

    def __init__(self, parts, stored, values, others=(), swap=False, more=()):
        self.S, self.N, self.B = parts
        self.here = list(stored[1:]) + list(stored[:1])          # a set is walked in any order
        self.values = dict(values)
        self.bounds = sorted({x for iv in stored for x in iv[:2]} | set(more))
        self.memo = {}
        self.local = {}
        self.made = {}
        self.env = {}
        self.swap = swap
        self.result = None
        self.error = False
        self.after = {}
        self.st = None

    # ------------------------------------------------------------ values
    def val(self, t):
        try:
            return self.direct(t)
        except TypeError:
            raise Stop(t)
        except Stop:
            if t.op not in ('lin', 'mm', 'bin', 'call', 'item'):
                raise
            if t.op == 'lin' and t.a[0] == 0 and sorted(c for _, c in t.a[1]) == [-1, 1]:
                x, y = [self.seq(u, None) if u.op == 'new' else self.val(u) for u, c in sorted(t.a[1], key=lambda p: -p[1])]
                if isinstance(x, list) and isinstance(y, list):
                    return setop('-', x, y)         # x - y of two sets
            v = Cases(self.leaf).value(t)
            if v is None:
                raise
            return v

    def direct(self, t):
        e = self.env
        if t in e:
            return e[t]
        if t.op == 'fcall' and occurrence(t) in self.memo:
            return self.memo[occurrence(t)]
        if t in self.values:
            return self.values[t]
        if t in self.made:
            return self.made[t]
        if t in self.local:
            return self.local[t]
        o = t.op
        if o in ('elem', 'idx'):
            near = [v for k, v in e.items() if k.op == o and k.a[1:] == t.a[1:] and k.a[0].op == t.a[0].op]
            if near and all(v == near[0] for v in near):
                return near[0]
            raise Stop(t)
        if o == 'lo' and t.a[1] in self.after:
            return self.after[t.a[1]]
        if t is NONE:
            return None
        if num(t) or o == 'const':
            return t.a[0]
        if t is self.S or t is SELF:
            return self.here
        if t is self.B:
            return self.bounds
        if t is self.N:
            return ['tree'] if self.here else None
        if o == 'attr':
            x = self.val(t.a[0])
            if isinstance(x, tuple) and len(x) == 3 and t.a[1] in ('begin', 'end', 'data'):
                return x[('begin', 'end', 'data').index(t.a[1])]
            if isinstance(x, dict) and t.a[1] in x:
                return x[t.a[1]]
            raise Stop(t)
        if o == 'mcall' or o == 'mres':
            return self.method(t)
        if o == 'copyof':
            v = self.val(t.a[1])
            return ('copy of', v) if v == 'init' else v         # the start of every group is a copy of its own
        if o == 'call':
            f, xs = t.a[0], t.a[1]
            if f in ('copy.copy', 'copy.deepcopy') and len(xs) == 1:
                v = self.val(xs[0])
                return ('copy of', v) if v == 'init' else v
            if f in ('set', 'frozenset', 'list', 'tuple', 'iter', 'reversed') and len(xs) <= 1:
                return list(self.val(xs[0])) if xs else []
            if f == 'len':
                return len(self.val(xs[0]))
            if f == 'sorted':
                return sorted(self.val(xs[0]))
            if f in ('bool', ):
                return bool(self.val(xs[0]))
            if f == FI:
                return self.interval(t)
            if f == 'range' or f == 'datafunc':
                return tuple([f] + [self.val(x) for x in xs])
        if o == 'res' and t.a[0].op == 'call' and t.a[0].a[0] not in ('set', 'list'):
            c = t.a[0]
            f = c.a[0]
            if c in self.memo:
                return self.memo[c]
            if mk('param', f) in self.values:
                return (f,) + tuple(self.val(x) for x in c.a[1])
        if o == 'sorted':
            xs = list(self.val(t.a[0]))
            if xs and all(isinstance(x, list) for x in xs):
                return list(reversed(xs)) if self.swap else xs
            return self.order(xs, t.a[1], t.a[2])
        if o == 'range':
            return list(range(*[self.val(x) for x in t.a if x is not NONE]))
        if o in ('list', 'tuple', 'set'):
            return [self.val(x) for x in t.a]
        if o == 'item':
            return self.item(self.val(t.a[0]), t.a[1])
        if o == 'slice':
            return slice(*[self.val(x) for x in t.a])
        if o == 'zip':
            return list(zip(*[self.val(x) for x in t.a]))
        if o == 'map':
            return self.mapped(t)
        if o == 'bin' and t.a[0] in ('|', '&', '-', '^'):
            x, y = self.val(t.a[1]), self.val(t.a[2])
            if isinstance(x, list) and isinstance(y, list):
                return setop(t.a[0], x, y)
        if o == 'fcall':
            return self.query(t)
        if o == 'new':
            return self.fresh(t)
        if o == 'content':
            return self.content(t)
        if o == 'any':
            return self.some(t)
        if o == 'not':
            return not self.truth(t.a[0])
        if o == 'alts':
            for g, v in t.a[0]:
                if self.lits(g):
                    return self.val(v)
            raise Stop(t)
        if o in ('lt', 'eq', 'isnone', 'truthy', 'or', 'isinst', 'in'):
            return self.truth(t)
        raise Stop(t)

    def leaf(self, t):
        o = t.op
        try:
            if o == 'isnone':
                return self.val(t.a[0]) is None
            if o == 'in':
                return self.val(t.a[0]) in self.val(t.a[1])
            if o == 'truthy':
                return bool(self.val(t.a[0]))
            if o == 'eq':
                return self.val(t.a[0]) == self.val(t.a[1])
            if o == 'exc':
                return bool(self.values.get('exc', False))
            if o == 'isinst':
                x = self.val(t.a[0])
                names = [c.a[0] for c in t.a[1]]
                if isinstance(x, (int, float)):
                    return any(n.split('.')[-1] in ('Number', 'Real', 'int', 'float') for n in names)
                if isinstance(x, list):
                    return any(n.split('.')[-1] == 'set' for n in names) if self.values.get('set') else False
                if isinstance(x, tuple):
                    return FI in names
                if x is None:
                    return False
            if o in ('lt', 'or', 'not', 'const'):
                return None
            v = self.direct(t)
            return v if isinstance(v, (int, float, bool)) else None
        except (Stop, TypeError):
            return None

    def truth(self, a):
        try:
            v = Cases(self.leaf).atom(a)
        except TypeError:
            v = None
        if v is None:
            raise Stop(a)
        return v

    def lits(self, guards):
        out = True
        for a, pol in conj(guards):
            try:
                v = self.truth(a)
            except Stop as x:
                out = x
                continue
            if v != pol:
                return False
        if out is not True:
            raise out
        return True

    def taken(self, guards):
        try:
            return self.lits(guards)
        except Stop:
            if not self.values.get('exc'):
                raise
            return False      # a number has no start and stop

    def order(self, xs, key, rev):
        if key is not None and key is not NONE:
            arg = mk('arg')

            def k(x):
                self.env[arg] = x
                try:
                    return self.val(key)
                finally:
                    self.env.pop(arg, None)
        else:
            k = None
        r = rev if isinstance(rev, bool) else bool(rev.a[0]) if isinstance(rev, T) and rev.op == 'const' else False
        return sorted(xs, key=k, reverse=r)

    def item(self, xs, i):
        if isinstance(xs, tuple) and len(xs) == 2 and callable(xs[0]):
            raise Stop(i)
        k = self.val(i)
        try:
            return xs[k]
        except (IndexError, TypeError, KeyError):
            raise Stop(i)

    def interval(self, call):
        xs = list(call.a[1])
        kw = dict(call.a[2])
        v = []
        for k, n in enumerate(('begin', 'end', 'data')):
            x = xs[k] if k < len(xs) else kw.get(n, NONE)
            if x.op == 'star':
                return tuple((list(self.val(x.a[0])) + [None])[:3])
            v.append(self.val(x))
        return tuple(v)

    def method(self, t):
        recv, name = t.a[0], t.a[1]
        xs = t.a[2] if isinstance(t.a[2], tuple) else ()
        if name in ('bisect_left', 'bisect_right', 'bisect'):
            import bisect
            return getattr(bisect, name)(self.val(recv), self.val(xs[0]))
        if name in ('keys', '__iter__', 'copy', 'items') and not xs:
            return list(self.val(recv)) if not isinstance(self.val(recv), tuple) else self.val(recv)
        if name == 'peekitem' and len(xs) <= 1 and recv is self.B:
            i, ks = self.val(xs[0]) if xs else -1, sorted(self.val(recv))
            if not isinstance(i, int) or not -len(ks) <= i < len(ks):
                raise Stop(t)
            return (ks[i], sum((iv[0] == ks[i]) + (iv[1] == ks[i]) for iv in self.here))
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            out = list(self.val(recv))
            for x in xs:
                out = setop({'union': '|', 'difference': '-', 'intersection': '&', 'symmetric_difference': '^'}[name], out, self.val(x))
            return out
        if name == 'irange':
            lo, hi = [self.val(x) for x in xs[:2]]
            kw = dict(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], tuple) else {}
            inc = kw.get('inclusive')
            inc = [x.a[0] for x in inc.a] if inc is not None and inc.op == 'tuple' else [True, True]
            return [x for x in self.val(recv) if (lo is None or lo < x or inc[0] and lo == x) and (hi is None or x < hi or inc[1] and x == hi)]
        x = self.val(recv)
        if isinstance(x, tuple) and name in LEMMAS:
            try:
                return LEMMAS[name](x, *[self.val(y) for y in xs])
            except TypeError:
                raise Stop(t)
        raise Stop(t)

    def query(self, t):
        """operations decided elsewhere: searches of the tree, operations of one interval, sibling queries"""
        q, xs = t.a[0], dict(t.a[1])
        m = q.split('.')[-1]
        if q.startswith(NODE + '.') and m in ('search_point', 'contains_point', 'search_overlap'):
            if not self.here:
                raise Stop(t)
            if xs.get('self') is not self.N:
                raise Stop(t)
            rest = [v for k, v in t.a[1] if k not in ('self', 'result')]
            if m == 'contains_point':
                return any(inside(iv, self.val(rest[0])) for iv in self.here)
            if m == 'search_point':
                return setop('|', self.val(xs['result']), [iv for iv in self.here if inside(iv, self.val(rest[0]))])
            pts = self.val(rest[0])
            return [iv for iv in self.here if any(inside(iv, p) for p in pts)]
        if q.startswith(TREE + '.') and xs.get('self') is SELF:
            ps = [self.val(v) for k, v in t.a[1] if k != 'self']
            if m == 'at':
                return [iv for iv in self.here if inside(iv, ps[0])]
            if m in ('overlap', 'envelop'):
                b, e = (ps + [None])[:2] if not isinstance(ps[0], tuple) else ps[0][:2]
                if m == 'overlap':
                    return [iv for iv in self.here if shares(iv, b, e)]
                return [iv for iv in self.here if b <= iv[0] and iv[1] <= e and b < e]
        if q.startswith(FI + '.') and m in LEMMAS:
            ps = [self.val(v) for k, v in t.a[1] if k != 'self']
            return LEMMAS[m](self.val(xs['self']), *ps)
        raise Stop(t)

    def bind(self, base, lid, k, x, order=()):
        """bindings of the loop variable for the k-th element x of a walk over base"""
        out = {mk('idx', base, lid): k, mk('elem', base, lid): x}
        if base.op == 'zip':
            for b, y in zip(base.a, x):
                out[mk('elem', b, lid)] = y
        return out

    def elements(self, base, order):
        xs = list(self.val(base))
        for o in order:
            if o[0] == 'sorted':
                xs = self.order(xs, o[1], o[2] if len(o) > 2 else False)
            elif o[0] == 'reversed':
                xs = xs[::-1]
        return xs

    def mapped(self, t):
        out = []
        for k, x in enumerate(self.elements(t.a[0], t.a[1])):
            old = dict(self.env)
            self.env.update(self.bind(t.a[0], t.a[3], k, x))
            try:
                for g, v in t.a[2]:
                    if self.lits(g):
                        out.append(self.val(v))
                        break
            finally:
                self.env = old
        return out

    def some(self, t):
        for k, x in enumerate(self.elements(t.a[0], ())):
            old = dict(self.env)
            self.env.update(self.bind(t.a[0], t.a[2], k, x))
            try:
                if any(self.lits(g) for g in t.a[1]):
                    return True
            finally:
                self.env = old
        return False

    def content(self, t, start=None):
        for n in self.local:
            if n is not start and n.op == 'new' and n.a == t.a[0].a:
                return self.local[n]
        return self.pieces(t, start=start)

    def pieces(self, t, all_of=False, start=None):
        """what the parts of a container hold; start: only as it was made, what is added to it later comes with its events"""
        out = []
        for part in t.a[1]:
            if part[0] == 'copy' and not out:
                out = list(self.val(part[1]))
            elif part[0] == 'extend' and not (start and start in self.filled):
                for x in self.val(part[1]):
                    if t.a[0].a[0] != 'set' or x not in out:
                        out.append(x)
            elif part[0] == 'lit':
                out += [self.val(x) for x in part[1]]
            elif part[0] == 'order' and part[1][0] == 'sorted':
                out = self.order(out, part[1][1], part[1][2]) if not out or not isinstance(out[0], list) else list(reversed(out)) if self.swap else out
            elif part[0] in ('loop', 'havoc', 'add', 'append', 'mut', 'update', 'extend'):
                if all_of:
                    raise Stop(t)
                break
            else:
                raise Stop(t)
        return out

    def fresh(self, t):
        """a local set or list at its creation: what it was made from"""
        if t.a[0] in ('set', 'list', 'gen', 'dict', 'tuple'):
            body = self.st.cont.get(t) if self.st is not None else None
            if t.a[0] == 'dict':
                self.local[t] = {}
            else:
                d = self.engine.deref(self.st, t) if body is not None else None
                self.local[t] = []
                if d is not None and d.op == 'content':
                    self.local[t] = self.pieces(d, start=t)
                elif d is not None and d.op == 'call' and len(d.a[1]) == 1 and d.a[1][0].op == 'content':
                    self.local[t] = list(self.content(d.a[1][0], start=t))
                elif d is not None and t not in self.filled and d is not t:
                    del self.local[t]
                    v = list(self.val(d))
                    self.local[t] = v
            return self.local[t]
        raise Stop(t)

    # ------------------------------------------------------------ effects
    def run(self, p, engine):
        self.st, self.engine = p.st, engine
        self.filled = {dargs(e)[0] for e, _ in walk(p.events) if e.a[0] in ('mut', 'store') and isinstance(args(e)[0], T)} | \
                      {args(e)[0] for e, _ in walk(p.events) if e.a[0] in ('mut', 'store') and isinstance(args(e)[0], T)}
        self.play(p.events)
        return self

    def play(self, events):
        for e in events:
            k = e.a[0]
            if k == 'loop':
                L = e.a[1][0]
                kept = set(self.memo)
                carried = {}
                for v, init in L.a[4]:
                    try:
                        carried[v] = self.val(init)
                    except Stop:
                        pass
                self.env.update(carried)
                for i, x in enumerate(list(self.elements(L.a[0], L.a[1]))):
                    old = dict(self.env)
                    self.env.update(self.bind(L.a[0], L.a[2], i, x))
                    chosen = [lp for lp in L.a[3] if self.taken(lp.a[0])]
                    if not chosen:
                        raise Stop(L)
                    self.play(chosen[0].a[1])
                    step = {}
                    for v, new in chosen[0].a[3]:
                        try:
                            step[v] = self.val(new)
                        except Stop:
                            carried.pop(v, None)
                    carried.update(step)
                    self.env = old
                    self.env.update(carried)
                    self.memo = {t: v for t, v in self.memo.items() if t in kept}
                    if chosen[0].a[2].a[0] in ('break', 'return', 'raise'):
                        if chosen[0].a[2].a[0] == 'raise':
                            self.error = True
                        break
                for v, x in carried.items():
                    self.env[mk('lo', L, v)] = x
                    self.after[v] = x
                continue
            a = args(e)
            if k == 'extnew':
                if a[1].op == 'call' and a[1].a[0] == FI:
                    self.made[a[0]] = self.interval(dargs(e)[1])
            elif k == 'call':
                c = dargs(e)[0]
                if c.op == 'call' and mk('param', c.a[0]) in self.values:
                    self.memo[c] = (c.a[0],) + tuple(self.val(x) for x in c.a[1])
            elif k == 'fcall':
                self.called(dargs(e)[0] if a[0].op != 'fcall' else a[0], dargs(e)[0])
            elif k == 'mut':
                self.mut(e)
            elif k == 'setattr' and a[0] is SELF and mk('attr', SELF, a[1]) is self.S:
                # the three parts of a tree agree (C03)
                self.here = uniq(self.seq(a[2], dargs(e)[2]))
            elif k == 'store':
                o = a[0]
                if o.op == 'new' and o not in self.local:
                    try:
                        self.fresh(o)
                    except Stop:
                        continue
                if o in self.local and isinstance(self.local[o], dict):
                    v = a[2]
                    self.local.pop(v, None)
                    self.local[o][self.val(a[1])] = self.val(v)
                elif o in self.local and a[1].op != 'slice':
                    k = self.val(a[1])
                    if not isinstance(k, int) or not -len(self.local[o]) <= k < len(self.local[o]):
                        raise Stop(a[1])
                    self.local[o][k] = self.val(a[2])

    def called(self, t, d):
        q = t.a[0]
        m = q.split('.')[-1]
        xs = dict(t.a[1])
        if q == TREE or q == TREE + '.__init__':
            src = [v for k, v in t.a[1] if k != 'self']
            got = [] if not src or src[0] is NONE else self.seq(src[0], d)
            if q == TREE:
                self.result = got
            else:
                self.here = uniq(got)
            return
        if q.startswith(TREE + '.') and xs.get('self') is SELF:
            ps = [(k, v) for k, v in t.a[1] if k != 'self']
            if m in ('add', 'remove', 'discard'):
                iv = self.val(ps[0][1])
                if m == 'add':
                    if iv[0] >= iv[1]:
                        self.error = True
                    elif iv not in self.here:
                        self.here = self.here + [iv]
                elif iv in self.here:
                    self.here = [x for x in self.here if x != iv]
                elif m == 'remove':
                    self.error = True
                return
            if m == 'update':
                for iv in self.seq(ps[0][1], d):
                    if iv[0] >= iv[1]:
                        self.error = True
                    elif iv not in self.here:
                        self.here = self.here + [iv]
                return
            if m == 'difference_update':
                out = self.seq(ps[0][1], d)
                self.here = [x for x in self.here if x not in out]
                return
            if m == 'remove_envelop':
                b, e = [self.val(v) for _, v in ps]
                self.here = [x for x in self.here if not (b <= x[0] and x[1] <= e and b < e)]
                return
        self.memo[occurrence(t)] = self.query(t)

    def seq(self, t, d):
        if t.op == 'new':
            if t not in self.local:
                self.fresh(t)
            return self.local[t]
        return self.val(t)

    def mut(self, e):
        a = args(e)
        o, m, xs = a[0], a[1], a[2]
        if o.op == 'new' and o.a[0] in ('set', 'list', 'gen', 'dict'):
            if o not in self.local:
                self.fresh(o)
            c = self.local[o]
            if m in ('add', 'append', 'remove', 'discard') and len(xs) == 1:
                v = self.val(xs[0])
                if m in ('add', 'append'):
                    if m == 'append' or v not in c:
                        c.append(v)
                else:
                    self.local[o] = [x for x in c if x != v]
            elif m in ('update', 'extend', 'union_update', '__ior__'):
                for x in xs:
                    for v in list(self.val(x)):
                        if v not in c:
                            c.append(v)
            elif m in ('difference_update', ):
                out = self.val(xs[0])
                self.local[o] = [x for x in c if x not in out]
            elif m in ('intersection_update', ):
                out = self.val(xs[0])
                self.local[o] = [x for x in c if x in out]
        elif o.op == 'fcall' and m == 'update':
            self.memo[occurrence(o)] = setop('|', self.val(o), self.val(xs[0]))
        elif o.op == 'item' and o.a[0].op == 'new' and m in ('add', 'append', 'update'):
            try:
                c = self.val(o)
            except Stop:
                return
            vs = self.val(xs[0]) if m == 'update' else [self.val(xs[0])]
            for v in vs:
                if v not in c:
                    c.append(v)
        elif o is self.S or o is self.N or o is self.B:
            if m not in ('__iter__', 'bisect_left', 'bisect_right', 'bisect', 'keys', 'irange', 'copy', '__len__', '__contains__', 'union', 'difference',
                         'intersection', 'symmetric_difference', 'items', 'peekitem'):
                raise Stop(e)


def occurrence(t):
    """one call of an opaque function, whatever became of the containers it was given"""
    return t.a[0], t.a[2], frozenset((k, v) for k, v in t.a[1] if v.op not in ('new', 'content', 'call', 'list'))


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def setop(op, x, y):
    if op == '|':
        return uniq(list(x) + list(y))
    if op == '&':
        return [v for v in x if v in y]
    if op == '-':
        return [v for v in x if v not in y]
    return [v for v in x if v not in y] + [v for v in y if v not in x]


QUERIES = ('at', 'overlap', 'envelop')
BASIC = ('add', 'remove', 'discard', 'update', '__init__')


def boundaries(ctx, *extra):
    return tuple(NODE + '.' + n for n in ('search_point', 'search_overlap', 'contains_point', 'from_interval', 'from_intervals', 'from_sorted_intervals',
                                          'add', 'remove', 'discard')) + tuple(TREE + '.' + n for n in extra) + \
        tuple(FI + '.' + n for n in ('is_null', 'contains_interval', 'contains_point', 'length', 'range_matches', 'overlaps'))


class Tree:
    def __init__(self, ctx):
        self.ctx = ctx
        self.parts = tree_state(ctx)
        self.c = ctx.p.cls(TREE)
        self.runs = {}

    def paths(self, name, opaque):
        f = self.c.find(name)
        if f is None:
            raise Unproved('the interval tree has no method %s' % name)
        if name not in self.runs:
            self.runs[name] = (f, self.ctx.run(f.qualname, opaque=tuple(x for x in opaque if x != f.qualname)))
        return self.runs[name]

    def outcome(self, name, stored, given, opaque, swap=False, more=(), flags=()):
        """(world, path) of the one path taken in this case"""
        f, ps = self.paths(name, opaque)
        vals = {mk('param', n): v for n, v in zip(f.params[1:], given)}
        for n in f.params[1 + len(given):]:
            d = default_of(f, n)
            if d is not None:
                vals[mk('param', n)] = None if d == 'None' else d
        vals.update(flags)
        for p in ps:
            w = World(self.parts, stored, vals, swap=swap, more=more)
            w.st, w.engine, w.filled = p.st, p.engine, set()
            # guards may mention what an opaque call returned: evaluated on the tree as it was
            env = left_early(w, p)
            if env is None:
                continue
            w.env.update(env)
            if w.taken(p.guards):
                w = World(self.parts, stored, vals, swap=swap, more=more)
                w.env.update(env)
                w.run(p, p.engine)
                return w, p
        raise Stop(const('no outcome'))


def left_early(w, p):
    """the element at which the path returns from within a loop ({}: it does not); None: the path is not taken"""
    out = {}
    loops = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and any(lp.a[2].a[0] == 'return' for lp in e.a[1][0].a[3])]
    if not loops:
        return out
    about = {L: {g for g in p.guards if mentions(g, lambda t: t.op in ('elem', 'idx') and t.a[1] == L.a[2] and t.a[0] is L.a[0])} for L in loops}
    rest = {g: pol for g, pol in p.guards.items() if not any(g in x for x in about.values())}
    if not w.taken(rest):
        return None
    for L in loops:
        hit = None
        for i, x in enumerate(list(w.elements(L.a[0], L.a[1]))):
            old = dict(w.env)
            w.env.update(w.bind(L.a[0], L.a[2], i, x))
            lp = next((lp for lp in L.a[3] if w.taken(lp.a[0])), None)
            w.env = old
            if lp is not None and lp.a[2].a[0] in ('return', 'break'):
                hit = w.bind(L.a[0], L.a[2], i, x) if lp.a[2].a[0] == 'return' else None
                break
        if bool(about[L]) != (hit is not None):
            return None
        out.update(hit or {})
    return out


def default_of(f, name):
    a = f.node.args
    names = [x.arg for x in a.args]
    if name in names:
        k = names.index(name) - (len(names) - len(a.defaults))
        if k >= 0:
            import ast
            try:
                v = ast.literal_eval(a.defaults[k])
            except ValueError:
                return None
            return 'None' if v is None else v
    return None


def answer(w, p):
    """what the path returns in that world"""
    v = p.value
    if v is None or v is NONE:
        return None
    if v.op == 'new' and v.a[0] == FI:
        return w.made.get(v)
    if v.op == 'new' and v.a[0] == TREE:
        return w.result
    if v.op in ('lt', 'eq', 'isnone', 'truthy', 'or', 'isinst', 'in'):
        return w.truth(v)
    return w.val(v)


def spots(n=5):
    return range(n)


def cases_of(ctx, tr, rid, what, name, cases, want, opaque, pick=answer, swap=(False,), scales=None):
    """every case: (stored, given, extra boundaries, flags)"""
    f = tr.c.find(name)
    bad, count = None, 0
    cases = list(cases)
    for stored, given, more, flags in [(scaled(s, k), scaled(g, k), scaled(m, k), fl) for k in scales or (SCALES if len(cases) < 400 else SCALES[:4:3]) for s, g, m, fl in cases]:
        exp = want(stored, given, more)
        for s in swap:
            count += 1
            try:
                w, p = tr.outcome(name, stored, given, opaque, s, more, flags)
                if p.kind == 'raise' or w.error:
                    got = 'an error'
                else:
                    got = pick(w, p)
            except Stop as x:
                got = 'not decided (%s)' % short(show(x.args[0]) if isinstance(x.args[0], T) else str(x.args[0]), 80)
            g = sorted(map(repr, got)) if isinstance(got, list) else got
            e = sorted(map(repr, exp)) if isinstance(exp, list) else exp
            if isinstance(exp, tuple) and exp and exp[0] == 'one of':
                ok = any(g == (sorted(map(repr, x)) if isinstance(x, list) else x) for x in exp[1:])
            else:
                ok = g == e and type(g) is type(e) or isinstance(e, (bool, int, float)) and isinstance(g, (bool, int, float)) and g == e
            if not ok and bad is None:
                bad = 'with %s stored, %s gives %s instead of %s' % (
                    [list(iv[:2]) for iv in stored], '%s(%s)' % (name, ', '.join(str(x) for x in given)), show_set(got), show_set(exp))
    ctx.need(bad is None, rid, what, bad or '', f.loc())


def show_set(x):
    return str([list(iv[:2]) if isinstance(iv, tuple) else iv for iv in x]) if isinstance(x, list) else str(x)


def generic(n=4):
    """one stored interval in every position"""
    return [(b, e, DATA) for b in range(n) for e in range(b + 1, n)]


@prop('C05', 'Evaluation of the path summaries of every query of the interval tree for one generic stored interval in each order with the query and with '
      'other boundaries: membership in the result is compared with the definition of the query.',
      assumptions=['a search of the node tree finds the stored intervals that contain the point (rules of C07, checked here too)', 'queries treat every stored interval on its own',
                   'the boundary table holds the bounds of the stored intervals (C03)'])
def check_c05(ctx):
    ctx.rule('query', 'each query returns exactly the stored intervals that its definition selects')
    ctx.rule('extent', 'begin, end, range and span are those of the stored intervals, and zero for an empty tree')
    ctx.rule('index', 'tree[point] and tree[start:stop] are the point and range query, open ends reach to the ends of the tree')
    ctx.rule('copies', 'items and copies hold the stored intervals and are separate from the tree')
    node_rules(ctx, ('search',))
    tr = Tree(ctx)
    op = boundaries(ctx)
    opq = boundaries(ctx, *QUERIES)
    one = generic(5)
    pts = spots(5)
    no = ()
    cases_of(ctx, tr, 'query', 'at', 'at', [((iv,), (p,), (), no) for iv in one for p in pts] + [((), (1,), (), no)],
             lambda s, g, m: [iv for iv in s if inside(iv, g[0])], op)
    rng = [((iv,), (b, e), (), no) for iv in one for b in pts for e in pts] + [((iv,), (b, e), (x,), no) for iv in one for b in pts for e in pts for x in (0, 2, 4)] + \
          [((), (1, 3), (), no)]
    byiv = [((iv,), ((b, e, DATA),), (), no) for iv in generic(4) for b, e, _ in generic(4)]

    def span_of(g):
        return g[0][:2] if isinstance(g[0], tuple) else g
    for n, sel in (('overlap', lambda iv, b, e: shares(iv, b, e)), ('envelop', lambda iv, b, e: b < e and b <= iv[0] and iv[1] <= e)):
        cases_of(ctx, tr, 'query', n, n, rng, lambda s, g, m: [iv for iv in s if sel(iv, *g)], op)
        cases_of(ctx, tr, 'query', n + ': interval', n, byiv, lambda s, g, m: [iv for iv in s if sel(iv, *span_of(g))], opq + (TREE + '.' + n,) if False else opq_of(ctx, n))
    cases_of(ctx, tr, 'query', 'overlaps: range', 'overlaps', rng, lambda s, g, m: any(shares(iv, *g) for iv in s), op)
    cases_of(ctx, tr, 'query', 'overlaps: point', 'overlaps', [((iv,), (p,), (), no) for iv in one for p in pts] + [((), (1,), (), no)],
             lambda s, g, m: any(inside(iv, g[0]) for iv in s), op)
    cases_of(ctx, tr, 'query', 'overlaps: interval', 'overlaps', byiv, lambda s, g, m: any(shares(iv, *span_of(g)) for iv in s), op)
    for n in ('overlaps_point', 'overlaps_range'):
        cs = rng if n.endswith('range') else [((iv,), (p,), (), no) for iv in one for p in pts] + [((), (1,), (), no)]
        cases_of(ctx, tr, 'query', n, n, cs, lambda s, g, m: any((shares(iv, *g) if len(g) == 2 else inside(iv, g[0])) for iv in s), op)
    pairs = [(a, b) for a in generic(4) for b in generic(4) if a < b]
    cases_of(ctx, tr, 'query', 'find_nested', 'find_nested', [(s, (), (), no) for s in pairs],
             lambda s, g, m: {a: [b] for a in s for b in s if a != b and a[0] <= b[0] and a[1] >= b[1]}, op, pick=lambda w, p: nested(w, p))
    cases_of(ctx, tr, 'query', 'containsi', 'containsi', [((iv,), (b, e, d), (), no) for iv in generic(3) for b in range(3) for e in range(b + 1, 3) for d in (DATA, 'other')],
             lambda s, g, m: tuple(g) in s, op)
    some = [(s, (), (), no) for s in [()] + [(iv,) for iv in one] + pairs]
    lo = lambda s: min((iv[0] for iv in s), default=0)  # noqa: E731
    hi = lambda s: max((iv[1] for iv in s), default=0)  # noqa: E731
    cases_of(ctx, tr, 'extent', 'begin', 'begin', some, lambda s, g, m: lo(s), op)
    cases_of(ctx, tr, 'extent', 'end', 'end', some, lambda s, g, m: hi(s), op)
    cases_of(ctx, tr, 'extent', 'span', 'span', some, lambda s, g, m: hi(s) - lo(s), op)
    cases_of(ctx, tr, 'extent', 'range', 'range', some, lambda s, g, m: (lo(s), hi(s)), op, pick=lambda w, p: (answer(w, p) or ())[:2])
    cases_of(ctx, tr, 'extent', 'is_empty', 'is_empty', some, lambda s, g, m: not s, op)
    sl = []
    for iv in generic(4):
        for b in (None, 0, 1, 2, 3):
            for e in (None, 0, 1, 2, 3):
                sl.append(((iv,), ({'start': b, 'stop': e, 'step': None},), (), no))
    cases_of(ctx, tr, 'index', '[start:stop]', '__getitem__', sl,
             lambda s, g, m: list(s) if g[0]['start'] is None and g[0]['stop'] is None else
             [iv for iv in s if shares(iv, lo(s) if g[0]['start'] is None else g[0]['start'], hi(s) if g[0]['stop'] is None else g[0]['stop'])], opq)
    cases_of(ctx, tr, 'index', '[point]', '__getitem__', [((iv,), (p,), (), (('exc', True),)) for iv in generic(4) for p in range(4)],
             lambda s, g, m: [iv for iv in s if inside(iv, g[0])], opq)
    cases_of(ctx, tr, 'copies', 'items', 'items', some, lambda s, g, m: list(s), op)
    cases_of(ctx, tr, 'copies', 'copy', 'copy', some, lambda s, g, m: list(s), boundaries(ctx, '__init__'))
    for n in ('items', '__getitem__', 'at', 'overlap', 'envelop'):
        f, ps = tr.paths(n, opq)
        for p in ps:
            if p.kind == 'return':
                ctx.need(strip_view(p.value) is not tr.parts[0], 'copies', n + ': separate', 'the interval set of the tree itself is handed out', f.loc())
    ctx.floor('query', 12)
    ctx.floor('extent', 5)


def opq_of(ctx, n):
    """the query that an interval is given to may ask itself again with the bounds"""
    return boundaries(ctx)


def nested(w, p):
    v = p.value
    return dict(w.local.get(v, {})) if v.op == 'new' else w.val(v)


def applied(tree, iv):
    return [x for x in tree if x != iv]


def chain(stored, joins, reducer, start, keep=True):
    """fold of the sorted intervals: an interval that joins the last group widens it, any other one starts a group"""
    out, cur = [], None
    for iv in sorted(stored):
        if out and joins(out[-1], iv):
            cur = ('data_reducer', cur, iv[2]) if reducer else None
            out[-1] = (out[-1][0], max(out[-1][1], iv[1]), cur)
        else:
            cur = ('data_reducer', ('copy of', 'init'), iv[2]) if start else iv[2]
            out.append((iv[0], iv[1], cur))
    return uniq(out)


@prop('C06', 'Evaluation of the path summaries of every set operation, cut and merge of the interval tree for generic stored intervals in each order with the '
      'operands: the resulting collection is compared with the definition of the operation.',
      assumptions=['the elementary insertions and removals keep the tree in step (C03)', 'the queries select what they define (C05)',
                   'operations treat every stored interval on its own, merges compare neighbours in sorted order'])
def check_c06(ctx):
    ctx.rule('walks', 'no set operation, cut or merge changes the collection it is walking, also when given the tree itself')
    walk_rule(ctx, 'walks', lambda f: f.module.relpath.endswith('interval/intervaltree.py'), 20)
    ctx.rule('sets', 'union, difference, intersection, symmetric difference and their in-place forms are those of the two interval sets')
    ctx.rule('removal', 'remove_overlap, remove_envelop, del tree[..] and clear remove what they name and nothing else')
    ctx.rule('cuts', 'chop and slice cut the intervals at the given points, keep the remaining parts and their data, and touch no other interval')
    ctx.rule('splits', 'split_overlaps cuts every interval at each boundary within it')
    ctx.rule('merges', 'merges join the runs of intervals they define, with the reduced data, and keep the others')
    ctx.rule('forms', 'the forms that take bounds and data act on the interval with these bounds and data')
    tr = Tree(ctx)
    new = boundaries(ctx, '__init__', 'add', 'remove', 'discard')
    op = boundaries(ctx, *(BASIC + QUERIES + ('difference_update', 'remove_envelop', 'slice', 'chop')))
    no = ()
    i, j = (1, 3, DATA), (2, 5, 'other')
    ops = [(s, (o,), (), f) for s in ((), (i,), (i, j)) for o in ([], [i], [j], [i, j]) for f in ((('set', True),), ())]
    defs = {'union': '|', 'difference': '-', 'intersection': '&', 'symmetric_difference': '^'}
    for n, o in defs.items():
        cases_of(ctx, tr, 'sets', n, n, ops, lambda s, g, m: setop(o, list(s), g[0]), new, swap=(False, True) if n == 'intersection' else (False,))
        cases_of(ctx, tr, 'sets', n + ': operands', n, ops, lambda s, g, m: list(s), new, pick=lambda w, p: w.here, swap=(False, True) if n == 'intersection' else (False,))
    for n, o in (('difference_update', '-'), ('intersection_update', '&'), ('symmetric_difference_update', '^'), ('update', '|')):
        cases_of(ctx, tr, 'sets', n, n, ops, lambda s, g, m: setop(o, list(s), g[0]), boundaries(ctx, 'add', 'remove', 'discard', 'update', '__init__'), pick=state_of)
    for n in ('symmetric_difference_update', 'intersection_update', 'difference_update', 'update') + tuple(defs):
        f, ps = tr.paths(n, new)
        for p in ps:
            arg = mk('param', f.params[1])
            hit = [e for e, _ in walk(p.events) if e.a[0] == 'mut' and args(e)[0] is arg and args(e)[1] in ('add', 'remove', 'discard', 'update', 'clear', 'pop', 'difference_update')]
            ctx.need(not hit, 'sets', n + ': given collection', 'the collection that was given is changed', f.loc())
    one = generic(5)
    pts = spots(5)
    cases_of(ctx, tr, 'removal', 'remove_overlap: point', 'remove_overlap', [((iv,), (p,), (), no) for iv in one for p in pts],
             lambda s, g, m: [iv for iv in s if not inside(iv, g[0])], op, pick=state_of)
    cases_of(ctx, tr, 'removal', 'remove_overlap: range', 'remove_overlap', [((iv,), (b, e), (), no) for iv in one for b in pts for e in pts],
             lambda s, g, m: [iv for iv in s if not shares(iv, *g)], op, pick=state_of)
    cases_of(ctx, tr, 'removal', 'remove_envelop', 'remove_envelop', [((iv,), (b, e), (), no) for iv in one for b in pts for e in pts if b < e],
             lambda s, g, m: [iv for iv in s if not (g[0] <= iv[0] and iv[1] <= g[1])], boundaries(ctx, *(BASIC + QUERIES)), pick=state_of)
    cases_of(ctx, tr, 'removal', 'del [point]', '__delitem__', [((iv,), (p,), (), no) for iv in one for p in pts],
             lambda s, g, m: [iv for iv in s if not inside(iv, g[0])], op, pick=state_of)
    cases_of(ctx, tr, 'removal', 'clear', 'clear', [((iv,), (), (), no) for iv in one], lambda s, g, m: [], op, pick=state_of)

    def chopped(s, g, m):
        b, e = g[:2]
        f = g[2] if len(g) > 2 else None
        out = []
        loose = False
        for iv in s:
            if not shares(iv, b, e):
                loose = loose or f and iv[0] == e
                out.append(iv)
                continue
            if iv[0] < b:
                out.append((iv[0], b, ('datafunc', iv, True) if f else iv[2]))
            if iv[1] > e:
                out.append((e, iv[1], ('datafunc', iv, False) if f else iv[2]))
        # an interval that begins at the end of the cut is not cut; its data may be computed anew
        return ('one of', out, [(x[0], x[1], ('datafunc', x, False)) if x[0] == e and x in s else x for x in out]) if loose else out
    for f in (None, 'f'):
        cases_of(ctx, tr, 'cuts', 'chop' + (': data function' if f else ''), 'chop', [((iv,), (b, e) + ((f,) if f else ()), (), no) for iv in one for b in pts for e in pts if b < e],
                 chopped, op, pick=state_of)
        cases_of(ctx, tr, 'cuts', 'slice' + (': data function' if f else ''), 'slice', [((iv,), (p,) + ((f,) if f else ()), (), no) for iv in one for p in pts],
                 lambda s, g, m: [x for iv in s for x in ([(iv[0], g[0], ('datafunc', iv, True) if f else iv[2]), (g[0], iv[1], ('datafunc', iv, False) if f else iv[2])]
                                                         if iv[0] < g[0] < iv[1] else [iv])], op, pick=state_of)
    d0, d1, d2 = 'd0', 'd1', 'd2'
    spans_ = [(b, e) for b in range(4) for e in range(b + 1, 5)]
    two = [((a + (d0,)), (b + (d1,))) for a in spans_ for b in spans_ if a <= b]
    small = [(b, e) for b in range(3) for e in range(b + 1, 4)]
    three = [(a + (d0,), b + (d1,), c + (d2,)) for a in small for b in small for c in small if a <= b <= c]

    def split(s, g, m):
        bs = sorted({x for iv in s for x in iv[:2]})
        return [(lo, hi, iv[2]) for iv in s for lo, hi in zip(bs, bs[1:]) if iv[0] <= lo < iv[1]]
    cases_of(ctx, tr, 'splits', 'split_overlaps', 'split_overlaps', [(s, (), (), (('exc', True),)) for s in [()] + [(iv,) for iv in one] + two + three], split, op, pick=state_of)
    combos = [(r, k) for r in (None, 'reducer') for k in (None, 'init') if r or not k]

    def merge(name, joins, extra=(), what=''):
        f = tr.c.find(name)
        for r, k in combos:
            cs = []
            for s in [()] + [(iv,) for iv in one[:4]] + two + three:
                vals = {'data_reducer': r, 'data_initializer': k}
                vals.update(dict(extra))
                cs.append((s, (), (), tuple((mk('param', n), v) for n, v in vals.items())))
            cases_of(ctx, tr, 'merges', '%s%s: %s' % (name, what, 'plain' if not r else 'reducer' if not k else 'reducer and start'), name, cs,
                     lambda s, g, m: chain(s, joins, r, k), op, pick=state_of)
    for strict in (True, False):
        merge('merge_overlaps', lambda lo, hi: hi[0] < lo[1] or not strict and hi[0] == lo[1], (('strict', strict),), ' strict' if strict else ' touching')
        for dist in (0, 1, 2):
            merge('merge_neighbors', lambda lo, hi: hi[0] - lo[1] <= dist and not (strict and hi[0] < lo[1]), (('strict', strict), ('distance', dist)),
                  '%s within %d' % (' strict' if strict else '', dist))
    merge('merge_equals', lambda lo, hi: lo[:2] == hi[:2])
    f = tr.c.find('merge_overlaps')
    for n, ds in (('merge_overlaps', {'strict': True}), ('merge_neighbors', {'strict': True, 'distance': 1})):
        for k, v in ds.items():
            ctx.need(default_of(tr.c.find(n), k) == v, 'merges', '%s: default of %s' % (n, k), 'it is %s' % default_of(tr.c.find(n), k), tr.c.find(n).loc())
    iv = (1, 3, DATA)
    basic = boundaries(ctx, 'add', 'remove', 'discard')
    for n, s, want in (('addi', (), [iv]), ('removei', (iv,), []), ('discardi', (iv,), []), ('discardi', (), [])):
        cases_of(ctx, tr, 'forms', n, n, [(s, iv, (), no)], lambda s, g, m: want, basic, pick=state_of, scales=(1,))
    cases_of(ctx, tr, 'forms', '[start:stop] = data', '__setitem__', [((), ({'start': 1, 'stop': 3, 'step': None}, DATA), (), no)], lambda s, g, m: [iv], basic, pick=state_of, scales=(1,))
    cases_of(ctx, tr, 'forms', 'from_tuples', 'from_tuples', [((), ([(1, 3, DATA), (2, 5, 'other')],), (), no)], lambda s, g, m: [(1, 3, DATA), (2, 5, 'other')], new, scales=(1,))
    ctx.floor('sets', 20)
    ctx.floor('merges', 20)
    ctx.floor('cuts', 4)


def state_of(w, p):
    return w.here


# ---------------------------------------------------------------- nodes of the search tree
L_, R_, C_, X_ = 'left_node', 'right_node', 's_center', 'x_center'
PLAIN = ('center_hit', 'hit_branch', '__getitem__', '__setitem__', '__init__', '__str__', '__repr__')
BUILDS = ('rotate', 'srotate', 'drotate', 'add', 'remove', 'discard', 'prune', 'from_sorted_intervals', 'from_intervals', 'from_interval')


class Nodes:
    """paths of the methods of a tree node, its children being nodes and its center holding intervals"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.c = ctx.p.cls(NODE)
        self.hints = {('Node', L_): 'Node', ('Node', R_): 'Node', ('Node', C_): 'List[FloatInterval]', ('Node', 'pop_greatest_child()'): 'Tuple[Node, Node]'}
        for n in BUILDS + (self.helper(),):
            self.hints[('Node', n + '()')] = 'Node'

    def helper(self):
        """the method that removal is handed to, with a flag that says whether a missing interval is an error"""
        if not hasattr(self, '_helper'):
            own = {n for n in self.c.methods if n not in PLAIN and n not in ('rotate', 'srotate', 'drotate', 'prune', 'pop_greatest_child', 'refresh_balance')}

            def called(n):
                f = self.c.find(n)
                if f is None:
                    return []
                held = {y.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and x.value.attr == C_
                        for y in x.targets if isinstance(y, ast.Name)}
                return [x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in own and
                        not (isinstance(x.func.value, ast.Attribute) and x.func.value.attr == C_ or isinstance(x.func.value, ast.Name) and x.func.value.id in held)]

            def reach(n):
                out, todo = [], called(n)
                while todo:
                    m = todo.pop(0)
                    if m not in out:
                        out.append(m)
                        todo += called(m)
                return out
            self.method('remove')
            self._helper = next((m for m in ['remove'] + reach('remove') if m in reach(m)), 'remove')
        return self._helper

    def method(self, n):
        f = self.c.find(n)
        if f is None:
            raise Unproved('a tree node has no method %s' % n)
        return f

    def paths(self, n, inline=()):
        f = self.method(n)
        known = set(BUILDS) | {self.helper(), 'pop_greatest_child', 'search_point', 'contains_point', 'search_overlap', 'all_children', 'all_children_helper', 'refresh_balance',
                               'init_from_sorted', 'verify', 'print_structure', 'count_nodes', 'depth_score', 'depth_score_helper', 'compute_depth'}
        opaque = tuple(g.qualname for m, g in sorted(self.c.methods.items()) if m != n and m in known and m not in inline)
        ivs = [mk('param', x) for x in f.params if x in ('interval', 'iv')]
        return f, self.ctx.run(f.qualname, opaque=opaque, hints=self.hints, setup=typed(ivs))


_TYPED = {}


def typed(ivs):
    k = tuple(ivs)
    if k not in _TYPED:
        def setup(en, st):
            for t in ivs:
                en.types[t] = ('cls', en.p.cls(FI))
        _TYPED[k] = setup
    return _TYPED[k]


def child(side):
    return mk('attr', SELF, side)


CEN = mk('attr', SELF, C_)


def here(env, more=None):
    """leaf for the comparisons of a node: numbers for centers and bounds, presence of the children"""
    def leaf(t):
        if t in env:
            return env[t]
        if t.op == 'truthy' and t.a[0] in env:
            return env[t.a[0]]
        if t.op == 'in' and t.a[1] is CEN and 'has' in env:
            return env['has']
        if t.op == 'call' and t.a[0] == 'hasattr' or t.op == 'truthy' and t.a[0].op == 'call' and t.a[0].a[0] == 'hasattr':
            return env.get('hasattr', False)
        if t.op == 'mres' and t.a[1] == 'contains_point' and t.a[0] in env and isinstance(env[t.a[0]], tuple):
            v = Cases(leaf).value(t.a[2][0])
            return None if v is None else inside(env[t.a[0]], v)
        if t.op == 'truthy' and t.a[0].op == 'mres':
            return leaf(t.a[0])
        if t.op == 'attr' and t.a[1] in ('begin', 'end') and t.a[0] in env and isinstance(env[t.a[0]], tuple):
            return env[t.a[0]][t.a[1] == 'end']
        return None
    return leaf


def feasible(ps, case):
    return [p for p in ps if case.lits(p.guards) is not False]


def center_changes(events):
    return [(args(e)[1], args(e)[2], ch) for e, ch in walk(events) if e.a[0] == 'mut' and args(e)[0] is CEN and
            args(e)[1] not in ('__iter__', '__contains__', '__len__', 'copy')] + \
           [('set', (args(e)[2],), ch) for e, ch in walk(events) if e.a[0] == 'setattr' and args(e)[0] is SELF and args(e)[1] == C_]


def child_changes(events):
    return [(args(e)[1], args(e)[2]) for e, ch in walk(events) if e.a[0] == 'setattr' and args(e)[0] is SELF and args(e)[1] in (L_, R_)]


def fcall_is(t, name, **kw):
    if t.op != 'fcall' or t.a[0] != NODE + '.' + name:
        return False
    return all(fc_arg(t, k) is v for k, v in kw.items())


def routed(b, e, x):
    return C_ if b <= x < e else R_ if b > x else L_


def refreshed(p):
    """after the last change of a child the depth of the node is brought up to date"""
    last = ok = None
    for i, e in enumerate(p.events):
        if e.a[0] == 'setattr' and args(e)[0] is SELF and args(e)[1] in (L_, R_):
            last = i
        if e.a[0] == 'fcall' and dargs(e)[0].op == 'fcall' and dargs(e)[0].a[0].split('.')[-1] in ('refresh_balance', 'rotate', 'srotate', 'drotate', 'prune') and \
                fc_arg(args(e)[0], 'self') is SELF:
            ok = i
    return last is None or ok is not None and ok > last


def single(p, t, iv):
    """t is a new node for that interval alone"""
    if t.op == 'fcall':
        return t.a[0] == NODE + '.from_interval' and any(v is iv for k, v in t.a[1] if k != 'cls') or \
            t.a[0] in (NODE + '.from_intervals', NODE + '.from_sorted_intervals') and any(v.op in ('list', 'tuple', 'set') and v.a == (iv,) for k, v in t.a[1])
    if t.op == 'new' and t.a[0] == NODE:
        h = p.st.heap
        return h.get((t, X_)) is mk('attr', iv, 'begin') and only(p, h.get((t, C_)), iv) and h.get((t, L_)) is NONE and h.get((t, R_)) is NONE
    return False


def only(p, t, iv):
    t = p.engine.deref(p.st, t) if t is not None else None
    while t is not None and (t.op == 'call' and t.a[0] in ('set', 'list', 'frozenset') and len(t.a[1]) == 1 or t.op == 'copyof'):
        t = t.a[1][0] if t.op == 'call' else t.a[1]
    return t is not None and t.op in ('list', 'tuple', 'set') and t.a == (iv,)


def node_cases():
    return all_scales([(x, b, e) for x in range(4) for b in range(4) for e in range(b + 1, 5)])


def check_route(ctx, nd, rid):
    x_t = mk('attr', SELF, X_)
    # insertion
    f, ps = nd.paths('add')
    iv = mk('param', f.params[1])
    bad, n = None, 0
    for x, b, e in node_cases():
        for lf in (True, False):
            for rt in (True, False):
                env = {x_t: x, iv: (b, e), child(L_): lf, child(R_): rt}
                want = routed(b, e, x)
                for p in feasible(ps, Cases(here(env))):
                    n += 1
                    cc, kk = center_changes(p.events), child_changes(p.events)
                    if p.kind != 'return':
                        bad = bad or 'an interval is refused'
                        continue
                    if want == C_:
                        ok = [c[:2] for c in cc] == [('add', (iv,))] and not kk
                    else:
                        there = env[child(want)]
                        ok = not cc and len(kk) == 1 and kk[0][0] == want and \
                            (fcall_is(kk[0][1], 'add', self=child(want)) and fc_arg(kk[0][1], nd.method('add').params[1]) is iv if there else single(p, kk[0][1], iv))
                    if not ok:
                        bad = bad or 'with the center at %d the interval [%d, %d) does not go to the %s' % (x, b, e, {C_: 'center', L_: 'left', R_: 'right'}[want])
                    elif not (p.value is SELF or fcall_is(p.value, 'rotate', self=SELF)):
                        bad = bad or 'adding gives back %s' % short(p.value, 50)
                    elif not refreshed(p):
                        bad = bad or 'the depth is not brought up to date after a child was added'
    ctx.need(bad is None and n >= 40, rid, 'add', bad or 'no cases', f.loc())
    # removal
    hn = nd.helper()
    f, ps = nd.paths(hn)
    iv = mk('param', f.params[1])
    for strict in (True, False):
        if hn == 'remove' and not strict:
            f, ps = nd.paths('discard')
        flag = None
        if hn != 'remove':
            rm = nd.paths('remove' if strict else 'discard')[1]
            call = next((p.value for p in rm if p.kind == 'return'), None)
            if not ctx.need(call is not None and call.op == 'fcall' and call.a[0] == NODE + '.' + hn and fc_arg(call, f.params[1]) is mk('param', nd.method('remove').params[1]),
                            rid, 'remove' if strict else 'discard', 'the removal is not handed on', nd.method('remove').loc()):
                continue
            flag = [(mk('param', k), v.a[0]) for k, v in call.a[1] if v.op == 'const']
        bad, n = None, 0
        for x, b, e in node_cases():
            for lf in (True, False):
                for rt in (True, False):
                    for has in (True, False):
                        env = {x_t: x, iv: (b, e), child(L_): lf, child(R_): rt, 'has': has}
                        env.update(flag or {})
                        want = routed(b, e, x)
                        for p in feasible(ps, Cases(here(env))):
                            if any(a.op == 'exc' and pol for a, pol in all_lits(p.guards)) and (has or want != C_):
                                continue
                            n += 1
                            cc, kk = center_changes(p.events), child_changes(p.events)
                            miss = want == C_ and not has or want != C_ and not env[child(want)]
                            if p.kind == 'raise':
                                if not (miss and strict) or cc or kk:
                                    bad = bad or 'the removal of [%d, %d) fails at a node with the center %d' % (b, e, x)
                                continue
                            if miss:
                                # a set that does not hold the interval raises by itself
                                if strict and not any(c[0] == 'remove' for c in cc) or not strict and (cc or kk):
                                    bad = bad or ('removing an absent interval is not reported' if strict else 'discarding an absent interval changes the tree')
                                continue
                            if want == C_:
                                gone = [c[:2] for c in cc]
                                empty = p.guards.get(mk('truthy', CEN))
                                ok = gone in ([('remove', (iv,))], [('discard', (iv,))]) and not kk and \
                                    (p.value is SELF and empty is True or empty is False and fcall_is(p.value, 'prune', self=SELF))
                                if not ok:
                                    bad = bad or 'the interval is not taken out of the center, or a node without intervals stays in the tree'
                            else:
                                v = kk[0][1] if len(kk) == 1 else None
                                ok = not cc and v is not None and kk[0][0] == want and v.op == 'fcall' and v.a[0] == NODE + '.' + (hn if hn != 'remove' else 'remove' if strict else 'discard') and \
                                    fc_arg(v, 'self') is child(want) and all(fc_arg(v, q) is mk('param', q) for q in f.params[1:])
                                turned = fcall_is(p.value, 'rotate', self=SELF) if p.value is not None else False
                                same = any(pol and a.op == 'truthy' and a.a[0].op == 'param' for a, pol in all_lits(p.guards))
                                if not ok:
                                    bad = bad or 'with the center at %d the interval [%d, %d) is not removed from the %s' % (x, b, e, 'left' if want == L_ else 'right')
                                elif not (turned or p.value is SELF and same):
                                    bad = bad or 'the node is not balanced after a removal below it'
        ctx.need(bad is None and n >= 40, rid, 'remove' if strict else 'discard', bad or 'no cases', f.loc())
    # a new node, a tree from a list
    f, ps = nd.paths('from_interval', inline=('rotate', 'refresh_balance') if False else ())
    iv = mk('param', f.params[1])
    for p in ps:
        v = p.value
        ok = p.kind == 'return' and v.op == 'new' and single(p, v, iv) or fcall_is(v, 'rotate') and single(p, fc_arg(v, 'self'), iv)
        ctx.need(ok, rid, 'from_interval', 'the new node does not hold the one interval at its begin', f.loc())
    f, ps = nd.paths('init_from_sorted')
    src = mk('param', f.params[1])
    for p in ps:
        bad = init_bad(p, src, x_t)
        ctx.need(bad is None, rid, 'init_from_sorted', bad or '', f.loc())
    f, ps = nd.paths('from_sorted_intervals')
    src = mk('param', f.params[1])
    for p in ps:
        some = holds(p.guards, lambda a, q: a.op == 'truthy' and a.a[0] is src and q)
        v = p.value
        ok = v is NONE and not some or some and v.op == 'fcall' and v.a[0] == NODE + '.init_from_sorted' and any(t is src for k, t in v.a[1])
        ctx.need(ok, rid, 'from_sorted_intervals', 'the tree of a list of intervals is %s' % short(v, 60), f.loc())
    f, ps = nd.paths('from_intervals')
    src = mk('param', f.params[1])
    for p in ps:
        some = holds(p.guards, lambda a, q: a.op == 'truthy' and a.a[0] is src and q)
        v = p.dvalue
        arg = next((t for k, t in v.a[1] if k != 'cls'), None) if v.op == 'fcall' else None
        while arg is not None and (arg.op == 'sorted' or arg.op == 'call' and arg.a[0] in ('list', 'sorted', 'tuple', 'set')):
            arg = arg.a[0] if arg.op == 'sorted' else arg.a[1][0]
        ok = v is NONE and not some or v.op == 'fcall' and v.a[0] == NODE + '.from_sorted_intervals' and (arg is src or arg is not None and arg.op == 'content' and any(
            q[0] == 'copy' and q[1] is src for q in arg.a[1]))
        ctx.need(ok, rid, 'from_intervals', 'the tree of a collection is %s' % short(v, 60), f.loc())


def init_bad(p, src, x_t):
    if p.kind != 'return':
        return None
    sets = {}
    for e in p.events:
        if e.a[0] == 'setattr' and args(e)[0] is SELF:
            sets.setdefault(args(e)[1], []).append(args(e)[2])
    x = sets.get(X_, [None])[-1]
    if x is None or not (x.op == 'attr' and x.a[1] == 'begin' and x.a[0].op in ('item', 'elem') and x.a[0].a[0] is src):
        return 'the center is not the begin of one of the intervals'
    cen = sets.get(C_, [None])[-1]
    kids = {}
    for s in (L_, R_):
        v = sets.get(s, [None])[-1]
        if v is None or v.op != 'fcall' or v.a[0] not in (NODE + '.from_sorted_intervals', NODE + '.from_intervals'):
            return 'the %s is not built from the intervals beside the center' % s
        kids[s] = next(t for k, t in v.a[1] if k != 'cls')
    ls = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0] is src]
    fill = {}
    for L in ls:
        el = mk('elem', src, L.a[2])
        for b, e in ((b, e) for b in range(4) for e in range(b + 1, 5)):
            case = Cases(here({x: 2, x_t: 2, el: (b, e)}))
            for lp in L.a[3]:
                if case.lits(lp.a[0]) is False:
                    continue
                if lp.a[2].a[0] not in ('fall', 'continue'):
                    return 'the walk over the intervals stops early'
                got = [args(v)[0] for v, _ in walk(lp.a[1]) if v.a[0] == 'mut' and args(v)[1] in ('add', 'append') and args(v)[2] == (el,)]
                fill.setdefault((b, e), []).append(got)
    filtered = {}
    for s, t in list(kids.items()) + [(C_, cen)]:
        d = p.engine.deref(p.st, t)
        while d.op == 'call' and d.a[0] in ('set', 'list') and len(d.a[1]) == 1:
            d = d.a[1][0]
        filtered[s] = d
    for b, e in ((b, e) for b in range(4) for e in range(b + 1, 5)):
        want = routed(b, e, 2)
        for s in (L_, R_, C_):
            t = kids.get(s, cen)
            n = [sum(1 for o in got if o is t) for got in fill.get((b, e), [])]
            d = filtered[s]
            if not any(n) and d.op == 'map' and d.a[0] is src:
                case = Cases(here({x: 2, x_t: 2, mk('elem', src, d.a[3]): (b, e)}))
                n = [sum(1 for g, v in d.a[2] if case.lits(g) is True and v.op == 'elem')]
            if not n or any(k != (1 if s == want else 0) for k in n):
                return 'with the center at 2 the interval [%d, %d) is %s the %s' % (b, e, 'not put into' if s == want else 'put into', {C_: 'center', L_: 'left part', R_: 'right part'}[s])
    if not (p.value is SELF or fcall_is(p.value, 'rotate', self=SELF)):
        return 'the result is %s' % short(p.value, 50)
    return None


def check_search(ctx, nd, rid):
    x_t = mk('attr', SELF, X_)
    f, ps = nd.paths('search_point')
    pt, res = mk('param', f.params[1]), mk('param', f.params[2])
    bad, n = None, 0
    for x, q in all_scales([(x, q) for x in range(3) for q in range(3)]):
            for lf in (True, False):
                for rt in (True, False):
                    env = {x_t: x, pt: q, child(L_): lf, child(R_): rt}
                    side = L_ if q < x else R_ if q > x else None
                    for p in feasible(ps, Cases(here(env))):
                        n += 1
                        if p.kind != 'return':
                            bad = bad or 'a search fails'
                            continue
                        down = [args(e)[0] for e, ch in walk(p.events) if e.a[0] == 'fcall' and args(e)[0].a[0] == NODE + '.search_point']
                        below = [d for d in down if side and fc_arg(d, 'self') is child(side) and fc_arg(d, f.params[1]) is pt and fc_arg(d, f.params[2]) is res]
                        if side and env[child(side)] and not below:
                            bad = bad or 'a point %s the center is not searched for in the %s' % ('below' if side == L_ else 'above', side)
                        if not (p.value is res or p.value in down or p.value.op == 'fcall' and p.value.a[0] == NODE + '.search_point'):
                            bad = bad or 'the search gives %s' % short(p.value, 40)
                        bad = bad or center_hits(p, pt, q, res, env)
    ctx.need(bad is None and n >= 12, rid, 'search_point', bad or 'no cases', f.loc())
    f, ps = nd.paths('contains_point')
    pt = mk('param', f.params[1])
    bad, n = None, 0
    for x, q in all_scales([(x, q) for x in range(3) for q in range(3)]):
            for lf in (True, False):
                for rt in (True, False):
                    env = {x_t: x, pt: q, child(L_): lf, child(R_): rt}
                    side = L_ if q < x else R_ if q > x else None
                    for p in feasible(ps, Cases(here(env))):
                        n += 1
                        found = p.value is not None and p.value is const(True)
                        if found:
                            if not any(a.op in ('any', 'lt', 'truthy') and mentions(a, lambda t: t.op == 'elem' and t.a[0] is CEN) for a in p.guards):
                                bad = bad or 'a point is reported without an interval that contains it'
                            continue
                        v = p.value
                        if v is not None and mentions(v, lambda t: t.op == 'any'):
                            continue
                        if side and env[child(side)] and not (v is not None and mentions(v, lambda t: fcall_is(t, 'contains_point', self=child(side)) and fc_arg(t, f.params[1]) is pt)):
                            bad = bad or 'a point %s the center is not looked for in the %s' % ('below' if side == L_ else 'above', side)
                        if side and not env[child(side)] and v is not None and v.op == 'const' and v.a[0]:
                            bad = bad or 'a point is found where there is no node'
                        bad = bad or point_hits(p, pt, q)
    ctx.need(bad is None and n >= 12, rid, 'contains_point', bad or 'no cases', f.loc())
    f, ps = nd.paths('search_overlap')
    src = mk('param', f.params[1])
    for p in ps:
        ls = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0] is src]
        ok = p.kind == 'return' and p.value.op == 'new' and len(ls) == 1 and all(
            lp.a[2].a[0] == 'fall' and sum(1 for e, _ in walk(lp.a[1]) if e.a[0] == 'fcall' and fcall_is(args(e)[0], 'search_point', self=SELF) and any(
                v is mk('elem', src, ls[0].a[2]) for k, v in args(e)[0].a[1]) and any(same_obj(v, p.value) for k, v in args(e)[0].a[1])) == 1 for lp in ls[0].a[3])
        ctx.need(ok, rid, 'search_overlap', 'not every point is searched for', f.loc())
    f, ps = nd.paths('all_children', inline=('all_children_helper', ))
    f, ps = nd.paths('all_children_helper') if nd.c.find('all_children_helper') is not None else (f, ps)
    for p in ps:
        res = mk('param', f.params[1]) if len(f.params) > 1 else p.value
        up = [args(e) for e, _ in walk(p.events) if e.a[0] == 'mut' and args(e)[0] is res and args(e)[1] == 'update']
        own = any(a[2] == (CEN,) for a in up)
        for s in (L_, R_):
            there = p.guards.get(mk('truthy', child(s)))
            down = any(e.a[0] == 'fcall' and fc_arg(args(e)[0], 'self') is child(s) and args(e)[0].a[0].startswith(NODE + '.all_children') and
                       any(v is res for k, v in args(e)[0].a[1]) for e, _ in walk(p.events)) or any(mentions(a[2][0], lambda t: t.op == 'fcall' and fc_arg(t, 'self') is child(s)) for a in up)
            ctx.need(own and (there is False or down), rid, 'all_children', 'the intervals of the %s are left out' % (s if own else 'center'), f.loc())


def around(q):
    """intervals in every position to the point"""
    return sorted({(q + b, q + e) for b, e in all_scales([(b, e) for b in (-2, -1, 0, 1) for e in (-1, 0, 1, 2) if b < e])})


def center_hits(p, pt, q, res, env):
    """every interval of the center that contains the point joins the result, no other one does"""
    ls = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0] is CEN]
    ups = [args(e)[2][0] for e in p.events if e.a[0] == 'mut' and args(e)[0] is res and args(e)[1] == 'update']
    for b, e in around(q):
            got = 0
            for L in ls:
                el = mk('elem', CEN, L.a[2])
                case = Cases(here({**env, el: (b, e)}))
                for lp in L.a[3]:
                    if case.lits(lp.a[0]) is False:
                        continue
                    if lp.a[2].a[0] not in ('fall', 'continue'):
                        return 'the walk over the center stops early'
                    hit = any(v.a[0] == 'mut' and args(v)[0] is res and args(v)[1] == 'add' and args(v)[2] == (el,) for v, _ in walk(lp.a[1]))
                    if hit and not inside((b, e), q):
                        return 'an interval that does not contain the point is reported'
                    if not hit and inside((b, e), q) and not ups and len(ls) == 1 and not any(a.op == 'in' and a.a[0] is el and pol for a, pol in all_lits(lp.a[0])):
                        return 'an interval of the center that contains the point may be left out'
                    got += hit
            for t in ups:
                d = p.engine.deref(p.st, t)
                while d.op == 'call' and d.a[0] in ('set', 'list') and len(d.a[1]) == 1:
                    d = d.a[1][0]
                if d.op == 'map' and d.a[0] is CEN:
                    case = Cases(here({**env, mk('elem', CEN, d.a[3]): (b, e)}))
                    hit = any(case.lits(g) is True and v.op == 'elem' for g, v in d.a[2])
                    if hit and not inside((b, e), q):
                        return 'an interval that does not contain the point is reported'
                    got += hit
            if inside((b, e), q) and not got:
                return 'an interval of the center that contains the point is left out'
    return None


def point_hits(p, pt, q):
    ls = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0] is CEN]
    if not ls and not any(a.op == 'any' and a.a[0] is CEN for a in p.guards):
        return 'the intervals of the center are not asked'
    for L in ls:
        el = mk('elem', CEN, L.a[2])
        for b, e in around(q):
                case = Cases(here({pt: q, el: (b, e)}))
                for lp in L.a[3]:
                    ok = case.lits(lp.a[0])
                    if ok is not False and inside((b, e), q) and lp.a[2].a[0] in ('fall', 'continue') and not any(v.a[0] == 'mut' for v, _ in walk(lp.a[1])):
                        return 'an interval of the center that contains the point is passed over'
                    if ok is not False and not inside((b, e), q) and lp.a[2].a[0] == 'return':
                        return 'an interval that does not contain the point ends the search'
    return None


class Shape:
    """in-order sequence of the parts of a tree while the events of a path relink it"""

    def __init__(self, p):
        self.p = p
        self.fields = {}
        self.snap = {}
        self.known = p.guards.get
        self.grown = {SELF} | {args(e)[0] for e in p.events if e.a[0] == 'setattr' and args(e)[1] in (L_, R_)}
        self.split = {}
        for e in p.events:
            if e.a[0] == 'fcall' and fcall_is(args(e)[0], 'pop_greatest_child'):
                self.split[fc_arg(args(e)[0], 'self')] = args(e)[0]
        self.before = self.seq(SELF)
        self.emptied = set()

    def get(self, x, side):
        return self.fields.get((x, side), mk('attr', x, side))

    def seq(self, x):
        if x is NONE or self.known(mk('truthy', x)) is False:
            return []
        if x in self.snap:
            return self.snap[x]
        if x in self.split and x not in self.grown:
            return [('rest', x), ('great', x)]
        if x.op == 'item' and x.a[0].op == 'fcall' and fcall_is(x.a[0], 'pop_greatest_child') and x.a[1] is const(1) and x not in self.grown:
            return [('rest', fc_arg(x.a[0], 'self'))]
        if x.op == 'item' and x.a[0].op == 'fcall' and fcall_is(x.a[0], 'pop_greatest_child') and x.a[1] is const(0):
            own = [('great', fc_arg(x.a[0], 'self'))]
            return (self.kid(x, L_) + own + self.kid(x, R_)) if x in self.grown else own
        if x in self.grown or (x, L_) in self.fields or (x, R_) in self.fields:
            return self.seq(self.get(x, L_)) + [('center', x)] + self.seq(self.get(x, R_))
        return [('tree', x)]

    def kid(self, x, side):
        """a node that was popped has no children of its own"""
        return self.seq(self.fields[(x, side)]) if (x, side) in self.fields else []

    def run(self):
        for e in self.p.events:
            if e.a[0] == 'setattr' and args(e)[1] in (L_, R_):
                self.fields[(args(e)[0], args(e)[1])] = args(e)[2]
            elif e.a[0] == 'fcall':
                t = args(e)[0]
                m = t.a[0].split('.')[-1]
                x = fc_arg(t, 'self')
                if t.a[0].startswith(NODE + '.') and m in ('rotate', 'srotate', 'drotate'):
                    self.snap[t] = self.seq(x)
                elif t.a[0].startswith(NODE + '.') and m == 'prune':
                    self.snap[t] = [y for y in self.seq(x) if y != ('center', x)]
                    self.emptied.add(x)
        return self


def check_turns(ctx, nd, rid):
    """relinking keeps the left-to-right order of all parts"""
    making = {'__init__', 'init_from_sorted', 'from_interval', 'from_intervals', 'from_sorted_intervals'}
    users = {}
    for q, g in ctx.p.functions.items():
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute):
                users.setdefault(x.attr, set()).add(g.node.name if g.cls is nd.c else None)
    while True:
        more = {n for n in nd.c.methods if n not in making and n.startswith('_') and users.get(n) and users[n] <= making}
        if not more:
            break
        making |= more
    for n in sorted(nd.c.methods):
        if n.startswith('__') or n in making:
            continue
        f, ps = nd.paths(n)
        moved = [e for p in ps for e, _ in walk(p.events) if e.a[0] == 'setattr' and args(e)[1] == X_ and args(e)[0].op != 'new']
        ctx.need(not moved, rid, n + ': center', 'the center of a node that is in use changes, so its intervals are no longer where they are looked for', f.loc())
    bal = mk('attr', SELF, 'balance')
    for n in ('srotate', 'drotate'):
        f, ps = nd.paths(n)
        seen = set()
        for p in ps:
            if p.kind != 'return':
                continue
            right = [pol for a, pol in all_lits(p.guards) if a is mk('lt', const(0), bal)]
            seen |= set(right)
            sh = Shape(p).run()
            after = sh.seq(p.value)
            ctx.need(after == sh.before, rid, n, 'a part of the tree is lost, doubled or out of order', f.loc())
            if n == 'srotate' and right:
                ctx.need(p.value is child(R_ if right[0] else L_), rid, n + ': new top', 'the heavy child does not become the top', f.loc())
            if n == 'drotate' and right:
                kk = child_changes(p.events)
                h = R_ if right[0] else L_
                ctx.need(len(kk) == 1 and kk[0][0] == h and fcall_is(kk[0][1], 'srotate', self=child(h)), rid, n + ': heavy child', 'the heavy child is not turned first', f.loc())
            bad = (promoted(p) or stale_top(p)) if n == 'srotate' else None
            ctx.need(bad is None, rid, n + ': overlaps', bad or '', f.loc())
        ctx.need(seen == {True, False}, rid, n + ': sides', 'both sides are not told apart', f.loc())
    # balance
    f, ps = nd.paths('refresh_balance')
    ld, rd = mk('attr', child(L_), 'depth'), mk('attr', child(R_), 'depth')
    bad, n = None, 0
    for lf in (None, 0, 1, 2, 3):
        for rt in (None, 0, 1, 2, 3):
            env = {child(L_): lf is not None, child(R_): rt is not None, ld: lf or 0, rd: rt or 0}
            for p in feasible(ps, Cases(here(env))):
                n += 1
                vs = {args(e)[1]: Cases(here(env)).value(args(e)[2]) for e in p.events if e.a[0] == 'setattr' and args(e)[0] is SELF}
                if vs.get('depth') != 1 + max(lf or 0, rt or 0) or vs.get('balance') != (rt or 0) - (lf or 0):
                    bad = bad or 'with subtrees of depth %s and %s the depth becomes %s and the balance %s' % (lf, rt, vs.get('depth'), vs.get('balance'))
    ctx.need(bad is None and n >= 9, rid, 'refresh_balance', bad or 'no cases', f.loc())
    f, ps = nd.paths('rotate')
    lb, rb = mk('attr', child(L_), 'balance'), mk('attr', child(R_), 'balance')
    bad, n = None, 0
    for b in (-2, -1, 0, 1, 2):
        for cb in (-1, 0, 1):
            env = {lb: cb, rb: cb, child(L_): True, child(R_): True}
            for k in range(1, 4):
                env[mk('attr', SELF, 'balance', k)] = b         # what the refresh left behind
            for c in (child(L_), child(R_)):
                for k in range(1, 4):
                    env[mk('attr', c, 'balance', k)] = cb
            for p in feasible(ps, Cases(bools(here(env)))):
                n += 1
                fresh = [e for e in p.events if e.a[0] == 'fcall' and fcall_is(args(e)[0], 'refresh_balance', self=SELF)] or \
                        {args(e)[1] for e in p.events if e.a[0] == 'setattr' and args(e)[0] is SELF} >= {'depth', 'balance'}
                want = None if abs(b) < 2 else 'drotate' if (b > 0) != (cb > 0) and cb != 0 else 'srotate'
                v = p.value
                ok = p.kind == 'return' and (v is SELF if want is None else fcall_is(v, want, self=SELF)) and fresh
                if not ok:
                    bad = bad or 'with balance %d above a child with balance %d the result is %s' % (b, cb, short(v, 40) if v is not None else 'an error')
    ctx.need(bad is None and n >= 15, rid, 'rotate', bad or 'no cases', f.loc())
    # removal of an emptied node
    f, ps = nd.paths('prune')
    for p in ps:
        sh = Shape(p).run()
        v = p.value
        after = sh.seq(v)
        want = [y for y in sh.before if y != ('center', SELF)]
        lone = all(p.guards.get(mk('truthy', child(s))) is False for s in (L_, R_))
        ctx.need(p.kind == 'return' and (after == want or lone), rid, 'prune', 'a part of the tree is lost, doubled or out of order', f.loc())
        bad = empty_asked(p)
        ctx.need(bad is None, rid, 'prune: branch', bad or '', f.loc())
    f, ps = nd.paths('pop_greatest_child')
    inner = leafs = 0
    for p in ps:
        if p.kind != 'return':
            continue
        deep = p.guards.get(mk('truthy', child(R_)))
        if deep is True:
            inner += 1
            sh = Shape(p).run()
            v = p.value
            ok = v.op == 'tuple' and len(v.a) == 2 and sh.seq(v.a[1]) + sh.seq(v.a[0]) in (sh.before, [y for y in sh.before if y != ('center', SELF)])
            if ok and ('center', SELF) not in sh.seq(v.a[1]):
                ok = p.guards.get(mk('truthy', CEN)) is False
            ctx.need(ok, rid, 'pop_greatest_child', 'a part of the tree is lost, doubled or out of order', f.loc())
            bad = handed(p, v.a[0]) if ok else None
            ctx.need(bad is None, rid, 'pop_greatest_child: overlaps', bad or '', f.loc())
        elif deep is False:
            leafs += 1
            bad = leaf_bad(p)
            ctx.need(bad is None, rid, 'pop_greatest_child: last', bad or '', f.loc())
    ctx.need(inner >= 2 and leafs >= 2, rid, 'pop_greatest_child: cases', 'the last node and the others are not told apart', f.loc())


def empty_asked(p):
    """the greatest node is only taken from a branch that is there"""
    for e, _ in walk(p.events):
        if e.a[0] == 'fcall' and fcall_is(args(e)[0], 'pop_greatest_child'):
            x = fc_arg(args(e)[0], 'self')
            if x.op == 'attr' and x.a[1] in (L_, R_) and not holds(p.guards, lambda a, pol: (a is mk('truthy', x) and pol) or (a is mk('isnone', x) and not pol)):
                return 'the greatest node is taken from a branch that may be empty'
    return None


def stale_top(p):
    """the depth of the new top is brought up to date after the last change below it"""
    top, fresh = p.value, True
    for e in p.events:
        if e.a[0] == 'setattr' and args(e)[0] is top and args(e)[1] in (L_, R_) or e.a[0] == 'loop':
            fresh = False
        elif e.a[0] == 'fcall' and fcall_is(args(e)[0], 'refresh_balance', self=top) or e.a[0] == 'setattr' and args(e)[0] is top and args(e)[1] == 'balance':
            fresh = True
    return None if fresh else 'the depth of the new top is not brought up to date'


def bools(leaf):
    def f(t):
        v = leaf(t)
        if v is not None:
            return v
        if t.op == 'eq' and all(x.op in ('lt', 'not') for x in t.a):
            a, b = Cases(leaf).atom(t.a[0]), Cases(leaf).atom(t.a[1])
            return None if a is None or b is None else a == b
        return None
    return f


def moves(events, src):
    """(added, removed): conditions under which an interval of src is added to another node and taken out of its own"""
    for e in events:
        if e.a[0] == 'loop' and e.a[1][0].a[0] is src:
            yield e.a[1][0]


def promoted(p):
    """intervals of the node that went down which contain the new center move up"""
    top = p.value
    down = [args(e)[2] for e in p.events if e.a[0] == 'setattr' and args(e)[0] is top and args(e)[1] in (L_, R_)]
    if not down:
        return 'nothing goes down'
    light = down[0]
    x = mk('attr', top, X_)
    src = mk('attr', light, C_)
    tc = mk('attr', top, C_)
    ups = [p.engine.deref(p.st, args(e)[2][0]) for e in p.events if e.a[0] == 'mut' and args(e)[0] is tc and args(e)[1] in ('update', '__ior__')]
    none = any(not pol and a.op == 'truthy' and (a.a[0].op == 'map' and a.a[0].a[0] is src) for a, pol in all_lits(p.guards))
    if none:
        m = [a.a[0] for a, pol in all_lits(p.guards) if not pol and a.op == 'truthy' and a.a[0].op == 'map' and a.a[0].a[0] is src]
        return None if all(selects(t, src, x) for t in m) else 'not every interval that contains the new center moves up'
    ls = list(moves(p.events, src)) + [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0].op == 'map' and e.a[1][0].a[0].a[0] is src]
    for b in range(4):
        for e in range(b + 1, 4):
            rem = add = 0
            for L in ls:
                direct = L.a[0] is src
                el = mk('elem', L.a[0], L.a[2])
                if not direct and not chosen_by(L.a[0], src, x, b, e):
                    continue
                case = Cases(here({x: 1, el: (b, e)}))
                for lp in L.a[3]:
                    if case.lits(lp.a[0]) is False:
                        continue
                    for v, _ in walk(lp.a[1]):
                        if v.a[0] == 'fcall' and args(v)[0].a[0].split('.')[-1] in ('remove', 'discard') and any(t is el for k, t in args(v)[0].a[1]):
                            rem += 1
                        if v.a[0] == 'mut' and args(v)[0] is tc and args(v)[1] == 'add' and args(v)[2] == (el,):
                            add += 1
            for t in ups:
                while t.op == 'call' and t.a[0] in ('set', 'list') and len(t.a[1]) == 1:
                    t = t.a[1][0]
                add += t.op == 'map' and t.a[0] is src and chosen_by(t, src, x, b, e)
            want = 1 if inside((b, e), 1) else 0
            if rem != want or add != want:
                return 'an interval that %s the new center is %s below and %s above' % ('contains' if want else 'does not contain',
                                                                                   'removed' if rem else 'kept', 'added' if add else 'not added')
    # the lower node is replaced by what the removal leaves of it
    for e, ch in walk(p.events):
        if e.a[0] == 'fcall' and args(e)[0].a[0].split('.')[-1] in ('remove', 'discard') and ch:
            if not any(v.a[0] == 'setattr' and args(v)[0] is top and args(v)[2] is args(e)[0] for v in ch[-1][1].a[1]):
                return 'what the removal leaves of the lower node is not linked in'
    return None


def chosen_by(t, src, x, b, e):
    case = Cases(here({x: 1, mk('elem', src, t.a[3]): (b, e)}))
    return any(case.lits(g) is True and v.op == 'elem' for g, v in t.a[2])


def selects(t, src, x):
    return all(chosen_by(t, src, x, b, e) == inside((b, e), 1) for b in range(4) for e in range(b + 1, 4))


def handed(p, great):
    """intervals of the center that contain the center of the popped node move into it"""
    x = mk('attr', great, X_)
    ls = list(moves(p.events, CEN))
    if not ls:
        return 'the intervals of the center are not looked at'
    for b in range(4):
        for e in range(b + 1, 4):
            for L in ls:
                el = mk('elem', CEN, L.a[2])
                case = Cases(here({x: 1, el: (b, e)}))
                for lp in L.a[3]:
                    if case.lits(lp.a[0]) is False:
                        continue
                    rem = sum(1 for v, _ in walk(lp.a[1]) if v.a[0] == 'mut' and args(v)[0] is CEN and args(v)[1] in ('remove', 'discard') and args(v)[2] == (el,))
                    add = sum(1 for v, _ in walk(lp.a[1]) if v.a[0] == 'fcall' and fcall_is(args(v)[0], 'add', self=great) and any(t is el for k, t in args(v)[0].a[1]) or
                              v.a[0] == 'mut' and args(v)[0] is mk('attr', great, C_) and args(v)[1] == 'add' and args(v)[2] == (el,))
                    want = 1 if inside((b, e), 1) else 0
                    if (rem, add) != (want, want):
                        return 'an interval that %s the center of the popped node is %s' % ('contains' if want else 'does not contain', 'moved' if add or rem else 'left where it is')
    return None


def leaf_bad(p):
    """the last node gives away the intervals that contain a point at or beyond the ends of all others"""
    v = p.value
    if v.op != 'tuple' or len(v.a) != 2 or v.a[0].op != 'new' or v.a[0].a[0] != NODE:
        return 'no new node is made'
    kid = v.a[0]
    h = p.st.heap
    x = h.get((kid, X_))
    cen = p.engine.deref(p.st, h.get((kid, C_))) if h.get((kid, C_)) is not None else None
    while cen is not None and cen.op == 'call' and cen.a[0] in ('set', 'list') and len(cen.a[1]) == 1:
        cen = cen.a[1][0]
    if x is None or cen is None:
        return 'the new node has no center'
    ys = [(e, ch) for e, ch in walk(p.events) if e.a[0] == 'yield']
    if cen.op == 'map' and cen.a[0] is CEN:
        if not selects(cen, CEN, x):
            return 'the new node does not hold exactly the intervals that contain its center'
    elif ys:
        L = ys[0][1][-1][0]
        el = mk('elem', CEN, L.a[2])
        for b in range(4):
            for e in range(b + 1, 4):
                case = Cases(here({x: 1, el: (b, e)}))
                for lp in L.a[3]:
                    if case.lits(lp.a[0]) is False:
                        continue
                    n = sum(1 for t, _ in walk(lp.a[1]) if t.a[0] == 'yield' and args(t)[0] is el)
                    if n != (1 if inside((b, e), 1) else 0):
                        return 'the new node does not hold exactly the intervals that contain its center'
    else:
        return 'the intervals of the new node are not chosen from those of the old one'
    taken = [c for c in center_changes(p.events)]
    drop = [c for c in taken if c[0] in ('set', 'difference_update', '__isub__')]
    if len(taken) != 1 or len(drop) != 1:
        return 'the intervals of the new node are not taken out of the old one'
    rest = p.guards.get(mk('truthy', drop[0][1][0])) if drop[0][0] == 'set' else p.guards.get(mk('truthy', CEN))
    if rest is None:
        lits = [pol for a, pol in all_lits(p.guards) if a.op == 'truthy' and mentions(a, lambda t: t is CEN)]
        rest = lits[-1] if lits else None
    if not (v.a[1] is SELF and rest is True or v.a[1] is child(L_) and rest is False):
        return 'what is left of the old node is not given back'
    # the center: the greatest end below the greatest one
    loops_ = [e.a[1][0] for e in p.events if e.a[0] == 'loop' and e.a[1][0].a[0].op == 'while']
    lo = [t for t in subterms(x) if t.op == 'lo']
    if not loops_ and not lo:
        return 'the center of the new node is not recognised' if x.op not in ('item', 'mm', 'call', 'alts') else None
    W = lo[0].a[0] if lo else loops_[0]
    grow = 0
    for lp in W.a[3]:
        for var, new in lp.a[3]:
            if lo and var is lo[0].a[1]:
                if new is var:
                    same = [pol for a, pol in conj(lp.a[0]) if a.op == 'eq' and all(t.op == 'attr' and t.a[1] == 'end' for t in a.a)]
                    if lp.a[2].a[0] in ('fall', 'continue') and same != [True]:
                        return 'an end below the greatest one is passed over'
                else:
                    part = [t for t in new.a[1]] if new.op == 'mm' and new.a[0] == 'max' else []
                    if len(part) != 2 or var not in part or not any(t.op == 'attr' and t.a[1] == 'end' for t in part):
                        return 'the center of the new node is not the greatest of the other ends'
                    if [pol for a, pol in conj(lp.a[0]) if a.op == 'eq' and all(t.op == 'attr' and t.a[1] == 'end' for t in a.a)] != [False]:
                        return 'the greatest end itself becomes the center of the new node'
                    grow += 1
        if lp.a[2].a[0] == 'break' and not any(not pol and a.op == 'truthy' for a, pol in conj(lp.a[0])):
            return 'the walk over the ends stops early'
    if not grow:
        return 'the center of the new node does not follow the ends'
    init = dict(W.a[4]).get(lo[0].a[1]) if lo else None
    if init is not None and init is not mk('attr', SELF, X_):
        return 'the center of the new node does not start at the old center'
    order = [t for e, _ in walk(p.events) for a in dargs(e) if isinstance(a, T) for t in subterms(a) if t.op == 'content' and any(q[0] == 'copy' and q[1] is CEN for q in t.a[1])] + \
            [t for a in p.guards for t in subterms(a) if t.op == 'content' and any(q[0] == 'copy' and q[1] is CEN for q in t.a[1])] + \
            [t for lp in W.a[3] for a, _ in conj(lp.a[0]) for t in subterms(a) if t.op == 'content' and any(q[0] == 'copy' and q[1] is CEN for q in t.a[1])]
    for t in order:
        for q in t.a[1]:
            if q[0] == 'copy' and q[1] is CEN:
                srt = [o for o in q[2] if o[0] == 'sorted']
                k = srt[0][1] if srt else None
                if k is None or not (k.op == 'tuple' and k.a[0] is mk('attr', mk('arg'), 'end') or k is mk('attr', mk('arg'), 'end')) or srt[0][2] not in (False, const(False)):
                    return 'the intervals are not walked from the greatest end down'
    return None


@prop('C07', 'Case distinction over every relative order of an interval, a point and the center of a node (insertion, removal, search, construction), and an '
      'in-order analysis of every path that relinks nodes: the left-to-right sequence of all parts is the same before and after.',
      assumptions=['the calls on the children behave as the same method (induction over the height of the tree)'])
def check_c07(ctx):
    node_rules(ctx, ('route', 'search', 'turn'))
    ctx.rule('walks', 'no loop over the intervals of a node changes the collection it walks')
    walk_rule(ctx, 'walks', lambda f: f.module.relpath.endswith('interval/node.py'), 5)


def node_rules(ctx, which):
    nd = Nodes(ctx)
    for rid, text, fn, floor in (('route', 'an interval is stored, and looked for on removal, at the first node on its way whose center it contains', check_route, 6),
                                 ('search', 'a search visits every interval that may contain the point and reports exactly those that do', check_search, 4),
                                 ('turn', 'rotations and the removal of emptied nodes keep every interval, in order, and keep the depths', check_turns, 10)):
        if rid in which:
            ctx.rule(rid, text)
            fn(ctx, nd, rid)
            ctx.floor(rid, floor)
