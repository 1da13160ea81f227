"""Pretty printer for analysis results (debugging aid): python3 -m sa.dump [-r] [-w WIDTH] [-n LINES] [-p PATHNO] QUALNAME [opaque ...]"""
import argparse
import sys
from .loader import Project
from .engine import Engine
from .terms import show, show_lit

ap = argparse.ArgumentParser()
ap.add_argument('-r', action='store_true', help='show raising paths too')
ap.add_argument('-w', type=int, default=120)
ap.add_argument('-n', type=int, default=30)
ap.add_argument('-p', type=int)
ap.add_argument('-c', action='store_true', help='counts only')
ap.add_argument('fn')
ap.add_argument('opaque', nargs='*')


def pguards(g):
    return ' & '.join(sorted(show_lit(l) for l in g)) or 'true'


class Out:
    def __init__(self, w, n):
        self.w, self.n = w, n

    def __call__(self, s):
        if self.n > 0:
            print(s[:self.w])
        self.n -= 1


def pev(e, ind, out, r):
    k, args, g, loc = e.a[:4]
    d = e.a[4] if len(e.a) > 4 else None
    if k == 'loop':
        L = args[0]
        out('%sLOOP over %s order=%s lid=%s @%s' % (ind, show(L.a[0]), show(L.a[1]), L.a[2], loc.split()[0].split(':')[-1]))
        for lp in L.a[3]:
            if lp.a[2].a[0] == 'raise' and not r:
                continue
            out('%s  -- if %s -> %s' % (ind, pguards(lp.a[0]), show(lp.a[2])))
            for x in lp.a[1]:
                pev(x, ind + '       ', out, r)
            if lp.a[3]:
                out('%s       upd %s' % (ind, show(lp.a[3])))
    else:
        out('%s%s:%s %s' % (ind, loc.split()[0].split(':')[-1], k, show(d or args)))


if __name__ == '__main__':
    o = ap.parse_args()
    pr = Project('/repo')
    pre = 'neural_graph_composer.'
    q = o.fn if o.fn in pr.functions else pre + o.fn
    en = Engine(pr, opaque=[x if x in pr.functions or x in pr.classes else pre + x for x in o.opaque])
    ps = en.run(q)
    out = Out(o.w, o.n)
    for i, p in enumerate(ps):
        if o.c or (o.p is not None and i != o.p) or (p.kind == 'raise' and not o.r):
            continue
        out('PATH %d %s %s' % (i, p.kind, show(p.value) if p.value is not None else ''))
        out('   if ' + pguards(p.guards.items()))
        for e in p.events:
            pev(e, '   ', out, o.r)
    print(len(ps), 'paths', sum(p.kind == 'raise' for p in ps), 'raising', en.steps, 'steps', len(en.analysed), 'functions')
