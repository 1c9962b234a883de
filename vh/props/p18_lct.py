"""The left-corner transformation preserves the meaning."""
from ..core import Check
from .. import slashlike

PROPERTY = 'P18'
RULE = ('Random programs (recursive, non-linear, structured, unbound variables, classic dynamic programs) with random data, a random divisor pattern '
        '(an item of the program, a generalisation, or the open pattern) and random admissible spine positions. The transformed program is evaluated by the reference '
        'evaluator and every original item compared; sometimes the result is tidied, pruned or abbreviated and the outputs compared. '
        'Non-trivial: at least one position is on and some defined item is nonzero.')

POST = {'elim': lambda q: q.elim_p(0), 'prune': lambda q: q.prune(), 'prune_fast': lambda q: q.prune_fast()}


def run(case):
    return slashlike.run({**case, 'inputs_too': False}, lambda p, x, pos: p.lct(pos, x=x), POST)


CHECKS = [Check('lct', lambda: slashlike.cases(sorted(POST)), run, quick=4000, case_timeout=4)]
