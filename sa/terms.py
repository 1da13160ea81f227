"""Hash-consed provenance terms and their normal forms."""
import itertools

_tab = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'a', 'id', '_h', '_key')

    def __init__(self, op, a):
        self.op, self.a = op, a
        self.id = next(_ids)
        self._key = None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):     # deterministic order
        return key(self) < key(o)


def mk(op, *a):
    k = (op, a)
    # distinguish 1 / 1.0 / True, which hash alike
    if op == 'const':
        k = (op, type(a[0]).__name__, a[0] if a[0] == a[0] else 'nan')
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, a)
    return t


def key(t):
    if isinstance(t, T):
        if t._key is None:
            t._key = t.op + '(' + ','.join(key(x) for x in t.a) + ')'
            if len(t._key) > 400:
                import hashlib
                t._key = t._key[:200] + '#' + hashlib.md5(t._key.encode()).hexdigest()
        return t._key
    if isinstance(t, frozenset):
        return '{' + ','.join(sorted(key(x) for x in t)) + '}'
    if isinstance(t, tuple):
        return '[' + ','.join(key(x) for x in t) + ']'
    return repr(t)


def const(v):
    return mk('const', v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t, *vals):
    if t.op != 'const':
        return False
    return not vals or any(t.a[0] == v and type(t.a[0]) == type(v) for v in vals)


def num(t):
    return t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if t.id in seen:
            return
        seen.add(t.id)
        yield t
        for x in t.a:
            yield from subterms(x, seen)
    elif isinstance(t, (tuple, frozenset)):
        for x in t:
            yield from subterms(x, seen)


def mentions(t, pred):
    return any(pred(s) for s in subterms(t))


def subst(t, m, memo=None):
    """Replace subterms (dict T->T)."""
    if memo is None:
        memo = {}
    if isinstance(t, T):
        if t in m:
            return m[t]
        if t.id in memo:
            return memo[t.id]
        na = tuple(subst(x, m, memo) for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
        memo[t.id] = r
        return r
    if isinstance(t, tuple):
        na = tuple(subst(x, m, memo) for x in t)
        return t if all(x is y for x, y in zip(na, t)) else na
    if isinstance(t, frozenset):
        return frozenset(subst(x, m, memo) for x in t)
    return t


NUMERIC_CALLS = {'len', 'int', 'float', 'round', 'abs', 'hash', 'sum', 'math.floor', 'math.ceil', 'id',
                 'math.log2', 'ord'}


def numeric(t):
    if num(t):
        return True
    if t.op == 'call':
        return t.a[0] in NUMERIC_CALLS
    if t.op == 'lin':
        return True
    if t.op == 'bin':
        return t.a[0] in ('/', '//', '**') or (t.a[0] == '*' and (numeric(t.a[1]) or numeric(t.a[2])))
    if t.op == 'idx':
        return True
    return False


def _lin(t):
    """term -> (const, {term: coef})"""
    if num(t):
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    if t.op == 'bin' and t.a[0] == '*' and num(t.a[1]):
        c, d = _lin(t.a[2])
        k = t.a[1].a[0]
        return c * k, {x: v * k for x, v in d.items()}
    return 0, {t: 1}


def _mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return const(c)
    if c == 0 and type(c) is int and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda p: key(p[0]))))


def stringy(t):
    return t.op == 'const' and isinstance(t.a[0], str) or t.op == 'fstr' or t.op == 'call' and t.a[0] == 'str'


def fstr(parts):
    """text made of the parts put one after the other"""
    out = []
    for p in parts:
        for q in (p.a if p.op == 'fstr' else (p,)):
            if q.op == 'call' and q.a[0] == 'str' and len(q.a[1]) == 1:
                q = q.a[1][0]
            if q.op == 'const' and out and out[-1].op == 'const' and isinstance(q.a[0], str) and isinstance(out[-1].a[0], str):
                out[-1] = const(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    out = [q for q in out if q is not const('')] or [const('')]
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return mk('fstr', *out)


def binop(op, a, b):
    if num(a) and num(b):
        try:
            x, y = a.a[0], b.a[0]
            v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                 '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y}[op]()
            return const(v)
        except Exception:
            pass
    if op == '+' and a.op == 'const' and b.op == 'const' and isinstance(a.a[0], str) and isinstance(b.a[0], str):
        return const(a.a[0] + b.a[0])
    if op == '+' and (stringy(a) or stringy(b)):
        return fstr([a, b])
    if op == '-' or (op == '+' and (numeric(a) or numeric(b))):
        c1, d1 = _lin(a)
        c2, d2 = _lin(b)
        s = 1 if op == '+' else -1
        d = dict(d1)
        for t, k in d2.items():
            d[t] = d.get(t, 0) + s * k
        return _mklin(c1 + s * c2, d)
    if op == '*':
        if num(b):
            a, b = b, a
        if num(a) and a.a[0] == 1 and type(a.a[0]) is int:
            return b
        if not num(a):
            a, b = sorted((a, b), key=key)
        return mk('bin', '*', a, b)
    if op in ('&', '|') and key(b) < key(a):
        a, b = b, a
    return mk('bin', op, a, b)


def neg(t):
    if num(t):
        return const(-t.a[0])
    return binop('*', const(-1), t)


# -- atoms and literals: a literal is (atom, polarity) -------------------
def lit_not(l):
    return (l[0], not l[1])


def cmp_lit(op, a, b):
    """-> literal (T, bool)"""
    if op in ('!=', '=='):
        if b.op == 'const' and b.a[0] is None or a.op == 'const' and a.a[0] is None:
            x = a if b.op == 'const' and b.a[0] is None else b
            return (mk('isnone', x), op == '==')
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        for x, y in ((a, b),):
            if is_const(y, True) and not num(y):
                return (mk('eq', x, y), op == '==')
        if b.op == 'const' and num(b) and b.a[0] == 0 and lenarg(a) is not None:
            return (mk('truthy', lenarg(a)), op == '!=')
        if a.op != 'const' and b.op != 'const' and key(b) < key(a):
            a, b = b, a
        if a is b:
            return (TRUE, op == '==')
        if a.op == 'const' and b.op == 'const':
            return (TRUE, (a.a[0] == b.a[0]) == (op == '=='))
        return (mk('eq', a, b), op == '==')
    if op in ('is', 'is not'):
        if is_const(b, None) or is_const(a, None):
            return (mk('isnone', a if is_const(b, None) else b), op == 'is')
        if a is b:
            return (TRUE, op == 'is')
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if is_const(b, True) or is_const(b, False):
            return (mk('eq', a, b), op == 'is')
        if a.op != 'const' and b.op != 'const' and key(b) < key(a):
            a, b = b, a
        return (mk('is', a, b), op == 'is')
    if op in ('in', 'not in'):
        return (mk('in', a, b), op == 'in')
    # orderings; normal form lt(a, b) with polarity
    if op == '>':
        op, a, b = '<', b, a
    elif op == '>=':
        op, a, b = '<=', b, a
    if num(a) and num(b):
        return (TRUE, a.a[0] < b.a[0] if op == '<' else a.a[0] <= b.a[0])
    # len(x) against integer constants
    for_len = None
    if op == '<=':
        # a <= b  ==  not (b < a)
        a, b, pol = b, a, False
    else:
        pol = True
    # now literal: pol * (a < b)
    if num(a) and lenarg(b) is not None and isinstance(a.a[0], int):
        if a.a[0] == 0:
            return (mk('truthy', lenarg(b)), pol)
        if a.a[0] < 0:
            return (TRUE, pol)
    if num(b) and lenarg(a) is not None and isinstance(b.a[0], int):
        # len < c  ==  not (c-1 < len)
        c = b.a[0]
        if c == 1:
            return (mk('truthy', lenarg(a)), not pol)
        if c <= 0:
            return (TRUE, not pol)
        return (mk('lt', const(c - 1), a), not pol)
    if a is b:
        return (TRUE, not pol)
    return (mk('lt', a, b), pol)


def lenarg(t):
    return t.a[1][0] if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1 else None


def atom_term(lit):
    """literal -> boolean value term"""
    a, p = lit
    if a is TRUE:
        return const(p)
    return a if p else mk('not', a)


ATOM_OPS = {'eq', 'lt', 'is', 'isnone', 'in', 'isinst', 'truthy', 'callable', 'not', 'any', 'or', 'exc', 'subclass'}


def is_atom(t):
    return t.op in ATOM_OPS


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return '{' + ', '.join(sorted(show(x) for x in t)) + '}'
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    if depth > 12:
        return '...'
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[0])
    if o == 'param':
        return a[0]
    if o == 'attr':
        return s(a[0]) + '.' + a[1]
    if o == 'item':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'slice':
        return ':'.join('' if is_const(x, None) else s(x) for x in a)
    if o == 'elem':
        return 'each<%s>' % s(a[0]) + ("'" * a[1] if isinstance(a[1], int) else '')
    if o == 'idx':
        return 'index<%s>' % s(a[0])
    if o == 'new':
        return 'new:%s@%s' % (a[0], a[1])
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if o == 'mcall':
        return '%s.%s(%s)' % (s(a[0]), a[1], ', '.join([s(x) for x in a[2]] + ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'lin':
        return '(' + ' + '.join(([str(a[0])] if a[0] else []) + [('%s*' % k if k != 1 else '') + s(x) for x, k in a[1]]) + ')'
    if o == 'eq':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if o == 'lt':
        return '%s < %s' % (s(a[0]), s(a[1]))
    if o == 'isnone':
        return '%s is None' % s(a[0])
    if o == 'in':
        return '%s in %s' % (s(a[0]), s(a[1]))
    if o == 'not':
        return 'not(%s)' % s(a[0])
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'fcall':
        return '%s(%s)' % ('.'.join(a[0].split('.')[-2:]), ', '.join('%s=%s' % (k, s(v)) for k, v in a[1]))
    if o == 'lo':
        return 'after-loop[%s].%s' % (s(a[0].a[0]), s(a[1]))
    if o == 'lv':
        return 'cur:%s' % (a[2],)
    if o == 'lh':
        return 'cur:%s.%s' % (s(a[1]), a[2] if isinstance(a[2], str) else s(a[2]))
    if o == 'loop':
        return 'loop<%s>' % s(a[0])
    if o == 'any':
        return 'any<%s: %s>' % (s(a[0]), ' | '.join(' & '.join(sorted(show_lit(l) for l in alt)) for alt in a[1]))
    if o == 'or':
        return 'or{%s}' % ' | '.join(sorted(' & '.join(sorted(show_lit(l) for l in alt)) for alt in a[0]))
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) if isinstance(x, T) else show(x) for x in a))


def show_lit(l):
    return ('' if l[1] else 'not ') + show(l[0])
