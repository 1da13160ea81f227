"""Rule registry: property id -> Spec."""
REGISTRY = {}

COMMON = ['attributes of external (third-party) objects behave as documented; methods listed as pure have no side effects',
          'no monkey-patching or reflection on library classes from outside']


class Spec:
    def __init__(self, fn, explanation, level='other', assumptions=(), technique=None):
        self.check, self.explanation, self.level = fn, explanation, level
        self.technique = technique or 'path-sensitive dataflow rules over the syntax tree'
        self.assumptions = list(assumptions) + COMMON


def prop(pid, explanation, level='other', assumptions=(), technique=None):
    def deco(fn):
        REGISTRY[pid] = Spec(fn, explanation, level, assumptions, technique)
        return fn
    return deco


from . import builder, dataset, events, program, walks, reader, containers, transforms, experiments, sequences, tracks, views, theory, midifile, intervals, values, grouping  # noqa: E402,F401
