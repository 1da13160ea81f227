"""DESIGN.md from design_head.md, the registry, the evidence files, seeded/ with catch.json, and design_tail.md."""
import json, pathlib, sys, textwrap
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from sa.rules import REGISTRY, COMMON
props = [json.loads(l) for l in open(V / 'properties.jsonl')]
out = [(V / 'tools/design_head.md').read_text()]
out.append('## The properties and how each is decided\n\nThe statements are in `properties.jsonl`. "n instances" counts the obligations of a rule on the current tree.\n')
for p in props:
    i = p['id']
    s = REGISTRY[i]
    ev = json.load(open(V / 'evidence' / (i + '.json')))
    c = ev['coverage']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(textwrap.fill('**How.** ' + s.explanation, 140) + '\n')
    for r, d in c['rules'].items():
        out.append('* `%s`: %s (%d instances)' % (r, d['rule'], d['instances']))
    own = [a for a in s.assumptions if a not in COMMON]
    if own:
        out.append('\n' + textwrap.fill('**Assumes.** ' + '; '.join(own) + '.', 140))
    w = p['why_tests_cant']
    if w:
        out.append('\n' + textwrap.fill('**Beyond tests.** ' + w, 140))
    out.append('\n%d functions, %d paths, %.1f s.\n' % (c['functions_analysed'], c['paths_analysed'], ev['wall_s']))
out.append('## Planted changes and what catches them\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
catch = json.load(open(V / 'tools/catch.json')) if (V / 'tools/catch.json').exists() else {}
for d in sorted((V / 'seeded').iterdir()):
    m = json.load(open(d / 'meta.json'))
    out.append('| %s | %s | %s | %s | %s |' % (d.name, m['property'], m['what_it_breaks'], m['needs'], ', '.join(catch.get(d.name, [])) or 'nothing'))
out.append('''
Besides these, about 500 smaller changes (operators, constants, orders, aliases, tolerances, swallowed exceptions, caches, off-by-one at rare inputs)
were made in scratch copies, by hand from the property texts and by mutating every operator and constant of the modules automatically;
the survivors were read one by one, and the checks were strengthened wherever a survivor broke a stated property.
''')
out.append((V / 'tools/design_tail.md').read_text())
(V / 'DESIGN.md').write_text('\n'.join(out))
