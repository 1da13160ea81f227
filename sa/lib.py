"""Shared helpers of the rules: runs with caching, walking events, guard queries, obligation bookkeeping."""
import ast
import textwrap
import time

from .engine import Engine
from .loader import AnalysisBroken, FuncInfo, Project
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, num, mentions, subterms, subst, show, show_lit, key

PKG = 'neural_graph_composer.'


class Finding:
    def __init__(self, rule, construct, message, loc=''):
        self.rule, self.construct, self.message, self.loc = rule, construct, message, loc

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.construct)

    def __repr__(self):
        return '[%s] %s: %s (%s)' % (self.rule, self.construct, self.message, self.loc)


class Ctx:
    """One check of one property."""

    def __init__(self, project, prop, thorough=False):
        self.p, self.prop, self.thorough = project, prop, thorough
        self.findings = []
        self.obligations = 0
        self.rules = {}
        self.analysed = set()
        self.paths = 0
        self.events = 0
        self.samples = []
        self._cache = {}
        self.notes = []

    # -- obligations
    def rule(self, rid, text):
        self.rules.setdefault(rid, {'rule': text, 'instances': 0, 'violations': 0})

    def ok(self, rid, n=1):
        self.rules[rid]['instances'] += n
        self.obligations += n

    def bad(self, rid, construct, message, loc=''):
        self.rules[rid]['instances'] += 1
        self.rules[rid]['violations'] += 1
        self.obligations += 1
        f = Finding(rid, construct, message, loc)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def need(self, cond, rid, construct, message, loc=''):
        if cond:
            self.ok(rid)
        else:
            self.bad(rid, construct, message, loc)
        return bool(cond)

    def floor(self, rid, n):
        """An expected minimum of instances: a rule that matches nothing proves nothing."""
        got = self.rules[rid]['instances']
        if got < n:
            self.bad(rid, 'coverage', 'the rule applied to %d constructs, at least %d are expected: the behaviour it '
                     'checks is no longer there' % (got, n))

    # -- analysis
    def engine(self, **kw):
        return Engine(self.p, **kw)

    def run(self, qual, opaque=(), self_cls=None, args=None, pre=None, setup=None, **kw):
        if not qual.startswith(PKG) and qual not in self.p.functions:
            qual = PKG + qual
        ck = (qual, tuple(sorted(opaque)), self_cls, repr(args), repr(pre), id(setup) if setup else None, repr(sorted(kw.items(), key=str)))
        if ck in self._cache:
            return self._cache[ck]
        fn = self.p.func(qual)
        en = Engine(self.p, opaque=opaque, **kw)
        ps = en.run(fn, args=args, pre=pre, setup=setup, self_cls=self.p.cls(self_cls) if isinstance(self_cls, str) else self_cls)
        for p in ps:
            p.engine = en
        self.analysed |= en.analysed
        self.paths += len(ps)
        self._cache[ck] = ps
        self.last_engine = en
        return ps

    def drive(self, module, src, opaque=(), setup=None, **kw):
        """Analyse a usage of the library: src is one function definition, resolved in the scope of the named module.
        It is only interpreted abstractly, like the library itself; nothing is run."""
        module = module if module.startswith(PKG) else PKG + module
        m = self.p.modules.get(module)
        if m is None:
            raise AnalysisBroken('anchor module %s is gone' % module)
        ck = ('drive', module, src, tuple(sorted(opaque)), id(setup) if setup else None, repr(sorted(kw.items(), key=str)))
        if ck in self._cache:
            return self._cache[ck]
        fn = FuncInfo(m, None, ast.parse(textwrap.dedent(src)).body[0], module + '.<usage>')
        en = Engine(self.p, opaque=opaque, **kw)
        ps = en.run(fn, setup=setup)
        for p in ps:
            p.engine = en
        self.analysed |= {f for f in en.analysed if '<usage>' not in f}
        self.paths += len(ps)
        self._cache[ck] = ps
        return ps

    def returns(self, qual, **kw):
        return [p for p in self.run(qual, **kw) if p.kind == 'return']


# ---------------------------------------------------------------- walking
def walk(events, chain=()):
    """-> (event, chain) where chain is the tuple of (loop, iteration path) the event is inside of."""
    for e in events:
        if e.a[0] == 'loop':
            L = e.a[1][0]
            yield e, chain
            for lp in L.a[3]:
                yield from walk(lp.a[1], chain + ((L, lp),))
        else:
            yield e, chain


def kind(e):
    return e.a[0]


def args(e):
    return e.a[1]


def dargs(e):
    """arguments with local containers replaced by what they held at that moment"""
    return e.a[4] if len(e.a) > 4 and e.a[4] else e.a[1]


def eloc(e):
    return e.a[3]


def loops(events):
    for e, ch in walk(events):
        if e.a[0] == 'loop':
            yield e.a[1][0], ch


def normal(lp):
    """iteration path that goes on to the next element"""
    return lp.a[2].a[0] in ('fall', 'continue')


def out_kind(lp):
    return lp.a[2].a[0]


# ---------------------------------------------------------------- guards
def conj(guards):
    """guards as a set of literals (loop delta, dict, or event guards)"""
    if isinstance(guards, dict):
        return frozenset(guards.items())
    return frozenset(guards)


def holds(guards, pred):
    """Some literal known to hold satisfies pred(atom, polarity); disjunctions count when every alternative does."""
    for a, p in conj(guards):
        if pred(a, p):
            return True
        if a.op == 'or':
            if p and all(holds(alt, pred) for alt in a.a[0]):
                return True
            if not p:
                for alt in a.a[0]:
                    if len(alt) == 1:
                        (x, q), = alt
                        if pred(x, not q):
                            return True
    return False


def holds_lit(guards, lit):
    return holds(guards, lambda a, p: a is lit[0] and p == lit[1])


def may_hold(guards, pred):
    """some literal, in some alternative, satisfies pred"""
    for a, p in conj(guards):
        if pred(a, p):
            return True
        if a.op == 'or' and p and any(may_hold(alt, pred) for alt in a.a[0]):
            return True
    return False


def all_lits(guards):
    for a, p in conj(guards):
        if a.op == 'or' and p:
            for alt in a.a[0]:
                yield from all_lits(alt)
        else:
            yield (a, p)


# ---------------------------------------------------------------- terms
def root(t):
    """object a term is reached from"""
    while t.op in ('attr', 'item', 'elem', 'idx', 'mcall', 'mres', 'sorted', 'reversed', 'map', 'copyof', 'enum_'):
        if t.op == 'copyof':
            t = t.a[1]
        else:
            t = t.a[0]
        if not isinstance(t, T):
            break
    return t


def attr_path(t):
    """attr chain -> (root term, 'a.b.c')"""
    names = []
    while t.op == 'attr':
        names.append(t.a[1])
        t = t.a[0]
    return t, '.'.join(reversed(names))


def is_attr(t, name):
    return t.op == 'attr' and t.a[1] == name


def kw_of(pairs, name, default=None):
    for k, v in pairs:
        if k == name:
            return v
    return default


def fc_arg(t, name):
    """argument of an fcall term"""
    return kw_of(t.a[1], name)


def is_copy_of(t, src):
    """t is a fresh (shallow or deep) copy of src"""
    if t.op == 'copyof':
        return t.a[1] is src
    if t.op == 'mcall' and t.a[1] == 'copy':
        return t.a[0] is src
    if t.op == 'call' and t.a[0] in ('dict', 'list', 'set', 'tuple', 'frozenset') and len(t.a[1]) == 1:
        return t.a[1][0] is src
    if t.op == 'map':
        return t.a[0] is src
    return False


def short(t, n=160):
    s = t if isinstance(t, str) else show(t)
    return s if len(s) <= n else s[:n] + '…'


def as_new(t):
    return mk('new', *t.a[0].a) if t.op == 'content' and t.a[0].op == 'objid' else t


def same_obj(t, obj):
    """t is the local container obj, or its content at some moment"""
    return t is obj or (t.op == 'content' and obj.op == 'new' and t.a[0].a == obj.a)


def is_slot(t, obj, k):
    """t is obj[k] or obj.get(k, ..)"""
    if t.op == 'item':
        return same_obj(t.a[0], obj) and t.a[1] is k
    return t.op == 'mcall' and t.a[1] == 'get' and same_obj(t.a[0], obj) and t.a[2] and t.a[2][0] is k


def exhaustive(alts):
    """one of the conjunctions (sets of literals) holds whatever the truth of their atoms"""
    alts = [dict(conj(a)) for a in alts]
    if any(not a for a in alts):
        return True
    if not alts:
        return False
    atom = next(iter(alts[0]))
    if atom.op == 'or' or len({a for d in alts for a in d}) > 14:
        if atom.op == 'or' and all(atom not in d for d in alts[1:]):
            return False
    return all(exhaustive([frozenset((a, p) for a, p in d.items() if a is not atom) for d in alts if d.get(atom, v) == v])
               for v in (True, False))
