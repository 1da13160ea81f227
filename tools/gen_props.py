#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One P(...) call per property; edit here, then run."""
import json, os
OUT = []
B = 'neural_graph_composer/midi_graph_builder.py'
D = 'neural_graph_composer/midi_dataset.py'
R = 'neural_graph_composer/midi_reader.py'
M = 'neural_graph_composer/midi/'
CP = 'neural_graph_composer/custom_pretty_midi.py'
SH = 'ngc_shared.py'
TR = 'neural_graph_composer/transforms.py'
IT = 'neural_graph_composer/interval/'

def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    OUT.append({'id': id, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_text.py')).read())
OUT.sort(key=lambda p: p['id'])
assert len({p['id'] for p in OUT}) == len(OUT)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in OUT: f.write(json.dumps(p) + '\n')
print(len(OUT), 'properties')
