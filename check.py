#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property of /repo from its source.

exit 0: the property holds (known findings may be listed); 1: VIOLATION; 2: the analysis itself could not run."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.loader import AnalysisBroken, Project, Unproved          # noqa: E402
from sa.lib import Ctx                                 # noqa: E402
from sa.rules import REGISTRY                          # noqa: E402
from sa import cases, consumed, kept                                   # noqa: E402

REPO = os.environ.get('SA_REPO', '/repo')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known():
    """-> {(property, key): text}"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf8'):
            line = line.strip()
            if line.startswith('known: '):
                head, _, text = line[7:].partition(' | ')
                prop, _, k = head.partition(' ')
                out[(prop.split('=', 1)[1], k.split('=', 1)[1].strip())] = text
    return out


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    spec = REGISTRY[prop]
    if thorough:
        cases.deepen()
    project = Project(REPO)
    ctx = Ctx(project, prop, thorough)
    try:
        spec.check(ctx)
        ctx.rule('consumed', 'no iterator is used up and then used again in the functions this property depends on')
        consumed.check(ctx, project.trees)
        ctx.rule('kept', 'nothing is taken out again of a collection that only grows, in the functions this property depends on')
        kept.check(ctx, project.trees)
    except Unproved as e:
        ctx.rule('structure', 'the behaviour is there in a form that can be proved')
        ctx.bad('structure', prop, str(e))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        at = traceback.extract_tb(e.__traceback__)[-1]
        ctx.rule('structure', 'the behaviour is there in a form that can be proved')
        ctx.bad('structure', prop, 'the code has a form the rules cannot follow (%s: %s, at %s:%d)' % (
            type(e).__name__, e, os.path.basename(at.filename), at.lineno))
    kn = known()
    fresh, listed = [], []
    for f in ctx.findings:
        (listed if (prop, f.key) in kn else fresh).append(f)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    fns = sorted(ctx.analysed)
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': spec.level,
        'coverage': {
            'explanation': spec.explanation,
            'obligations': ctx.obligations, 'discharged': ctx.obligations - sum(r['violations'] for r in ctx.rules.values()),
            'paths_analysed': ctx.paths, 'functions_analysed': len(fns), 'functions': fns[:200],
            'rules': ctx.rules, 'modules': len(project.modules), 'samples': ctx.samples[:20],
            'known_findings': [repr(f) for f in listed], 'notes': ctx.notes,
        },
        'assumptions': spec.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    if ctx.obligations == 0:
        print('ANALYSIS-BROKEN property=%s no obligation was generated' % prop)
        return 2
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for f in listed:
        print('KNOWN-FINDING: property=%s %s: %s [%s]' % (prop, f.construct, kn[(prop, f.key)], f.rule))
    if fresh:
        rp = os.path.join(evdir, prop + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in fresh:
                fh.write('rule %s: %s\n  construct: %s\n  at: %s\n  found: %s\n\n' % (
                    f.rule, ctx.rules[f.rule]['rule'], f.construct, f.loc, f.message))
        for f in fresh:
            print('  %r' % f)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs' % (
        prop, ctx.obligations, len(fns), ctx.paths, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % (sys.argv[1] if len(sys.argv) > 1 else '?'))
        sys.exit(2)
