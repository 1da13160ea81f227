"""Case distinction over comparisons: the value of a term and the truth of guards once the order of the leaves is fixed.

The guards and results of the code are linear terms, minima and maxima over a few leaves (a note's start, a bound...), so
their truth depends only on the relative order and distance of the leaves: every order type is represented by one sample
assignment. Atoms that mention anything else are unknown (both outcomes stay possible)."""
import math
from .terms import T, num
from .lib import conj

UNKNOWN = None
# comparisons with an absolute tolerance only show at its own scale: every order type is also tried closer and farther (powers of two: exact)
SCALES = [1, 2.0 ** -8, 2.0 ** -14, 2.0 ** -22, 2.0 ** -34, 2.0 ** 12]


def deepen():
    """the thorough tier: every other power of two that musical times and bounds can have"""
    SCALES[:] = [1] + [2.0 ** k for k in range(-40, 21, 2) if k]


def scaled(x, k):
    """the numbers in a case (tuples, lists and dicts of them) times k"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return x * k
    if isinstance(x, dict):
        return {n: scaled(v, k) for n, v in x.items()}
    return type(x)(scaled(v, k) for v in x) if isinstance(x, (tuple, list)) else x


def all_scales(cases):
    return [scaled(c, k) if k != 1 else c for k in SCALES for c in cases]


class Cases:
    def __init__(self, leaf):
        """leaf(t) -> number or None"""
        self.leaf = leaf

    def value(self, t):
        v = self.leaf(t)
        if v is not None:
            return v
        if num(t):
            return t.a[0]
        if t.op == 'const' and isinstance(t.a[0], (bool, str)):
            return t.a[0]
        o = t.op
        if o == 'lin':
            s = t.a[0]
            for x, k in t.a[1]:
                v = self.value(x)
                if not isinstance(v, (int, float)):
                    return None
                s += k * v
            return s
        if o == 'mm':
            vs = [self.value(x) for x in t.a[1]]
            if any(not isinstance(v, (int, float)) for v in vs):
                return None
            return max(vs) if t.a[0] == 'max' else min(vs)
        if o == 'bin':
            a, b = self.value(t.a[1]), self.value(t.a[2])
            if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b,
                        '%': lambda: a % b, '**': lambda: a ** b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                        '<<': lambda: a << b, '>>': lambda: a >> b}[t.a[0]]()
            except (KeyError, ArithmeticError, TypeError, ValueError):
                return None
        if o == 'ext' and t.a[0] in ('math.inf', 'numpy.inf'):
            return math.inf
        if o == 'call' and t.a[0] == 'math.isclose' and len(t.a[1]) == 2:
            vs, kw = [self.value(x) for x in t.a[1]], {k: self.value(x) for k, x in t.a[2]}
            if any(not isinstance(v, (int, float)) for v in vs + list(kw.values())):
                return None
            try:
                return math.isclose(*vs, **kw)
            except (TypeError, ValueError):
                return None
        if o == 'item' and num(t.a[1]) and t.a[0].op == 'sorted' and t.a[0].a[0].op in ('tuple', 'list'):
            vs = [self.value(x) for x in t.a[0].a[0].a]
            if any(not isinstance(v, (int, float)) for v in vs) or any(x.op != 'const' or x.a[0] for x in t.a[0].a[1:] if isinstance(x, T)):
                return None
            return sorted(vs)[int(t.a[1].a[0])]
        if o == 'item' and num(t.a[1]) and t.a[0].op == 'call' and t.a[0].a[0] == 'divmod' and len(t.a[0].a[1]) == 2:
            vs = [self.value(x) for x in t.a[0].a[1]]
            if any(not isinstance(v, (int, float)) for v in vs) or vs[1] == 0 or t.a[1].a[0] not in (0, 1):
                return None
            return divmod(*vs)[int(t.a[1].a[0])]
        if o == 'call':
            parts = t.a[1]
            if t.a[0] in ('max', 'min') and len(parts) == 1 and parts[0].op in ('tuple', 'list'):
                parts = parts[0].a
            vs = [self.value(x) for x in parts]
            if t.a[2] or not vs or any(not isinstance(v, (int, float)) for v in vs):
                return None
            f = {'float': float, 'int': int, 'round': round, 'abs': abs, 'math.fabs': abs, 'numpy.abs': abs, 'bool': bool, 'math.floor': math.floor, 'numpy.floor': math.floor,
                 'math.ceil': math.ceil, 'numpy.ceil': math.ceil, 'numpy.float64': float, 'math.trunc': int, 'max': max, 'min': min,
                 'numpy.clip': lambda x, lo, hi: min(max(x, lo), hi), 'math.sqrt': math.sqrt, 'divmod': None}.get(t.a[0])
            try:
                return f(*vs) if f else None
            except (TypeError, ValueError, OverflowError):
                return None
        if o == 'not':
            v = self.atom(t.a[0])
            return None if v is None else not v
        if o in ('lt', 'eq', 'isnone', 'truthy', 'or', 'isinst', 'in'):
            return self.atom(t)
        return None

    def atom(self, a):
        v = self.leaf(a)
        if v is not None:
            return bool(v)
        if a.op == 'const':
            return bool(a.a[0])
        if a.op == 'lt':
            x, y = self.value(a.a[0]), self.value(a.a[1])
            if isinstance(x, tuple) and isinstance(y, tuple):
                flat = all(isinstance(v, (int, float)) for v in x + y)
                return x < y if flat else None
            return None if not isinstance(x, (int, float)) or not isinstance(y, (int, float)) else x < y
        if a.op == 'eq' and a.a[0].op == a.a[1].op == 'tuple':
            if len(a.a[0].a) != len(a.a[1].a):
                return False
            vs = [(self.value(x), self.value(y)) for x, y in zip(a.a[0].a, a.a[1].a)]
            if any(None not in v and v[0] != v[1] for v in vs):
                return False
            return None if any(None in v for v in vs) else True
        if a.op == 'eq':
            x, y = self.value(a.a[0]), self.value(a.a[1])
            return None if x is None or y is None else x == y
        if a.op == 'in' and a.a[1].op in ('oneof', 'tuple', 'list'):
            x, ys = self.value(a.a[0]), [self.value(y) for y in (a.a[1].a[0] if a.a[1].op == 'oneof' else a.a[1].a)]
            return True if x is not None and x in ys else None if x is None or None in ys else False
        if a.op == 'in' and a.a[1].op == 'range':
            x, r = self.value(a.a[0]), [self.value(y) for y in a.a[1].a if not (y.op == 'const' and y.a[0] is None)]
            if isinstance(x, (int, float)) and r and all(isinstance(y, int) for y in r) and not (len(r) == 3 and r[2] == 0):
                return x in range(*r)
            return None
        if a.op == 'isnone':
            return False if self.value(a.a[0]) is not None else None
        if a.op == 'isinst':
            x = self.value(a.a[0])
            kinds = {'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool, 'builtins.str': str, 'numbers.Number': (int, float),
                     'numbers.Real': (int, float), 'numbers.Integral': int, 'numpy.ndarray': (), 'builtins.list': (), 'builtins.tuple': (),
                     'builtins.dict': ()}
            names = [c.a[0] if c.op == 'ext' else None for c in a.a[1]]
            if x is None or any(n not in kinds for n in names):
                return None
            return any(isinstance(x, kinds[n]) for n in names)
        if a.op == 'truthy':
            x = self.value(a.a[0])
            return None if x is None else bool(x)
        if a.op == 'not':
            v = self.atom(a.a[0])
            return None if v is None else not v
        if a.op == 'or':
            got = [self.lits(alt) for alt in a.a[0]]
            if any(g is True for g in got):
                return True
            return False if all(g is False for g in got) else None
        return None

    def lits(self, guards):
        """True: all hold; False: one fails; None: it depends on something else"""
        out = True
        for a, p in conj(guards):
            v = self.atom(a)
            if v is None:
                out = None
            elif v != p:
                return False
        return out


KINDS = {'int': int, 'float': float, 'bool': bool, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict}


def taken_by(p, given):
    """whether the path is taken when parameters have these (plain) values: True, False or None (depends on more)"""
    def leaf(t):
        return given[t.a[0]] if t.op == 'param' and t.a[0] in given and isinstance(given[t.a[0]], (int, float)) else None
    lits, sure = [], True
    for a, q in p.guards.items():
        x = a.a[0] if a.a and isinstance(a.a[0], T) else None
        if a.op in ('isinst', 'isnone') and x is not None and x.op == 'param' and x.a[0] in given:
            v = given[x.a[0]]
            if a.op == 'isnone':
                r = v is None
            elif all(c.op == 'ext' and c.a[0].split('.')[-1] in KINDS for c in a.a[1]):
                r = isinstance(v, tuple(KINDS[c.a[0].split('.')[-1]] for c in a.a[1]))
            else:
                r = None
            if r is not None and r is not q:
                return False
            sure = sure and r is not None
        else:
            lits.append((a, q))
    r = Cases(leaf).lits(lits)
    return r if sure or r is False else None
