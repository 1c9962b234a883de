"""Eliminating a rule preserves the meaning."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import dec, unifiable_apart, from_rule, tvars
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys
from ..refeval import fnkey

PROPERTY = 'P16'
RULE = ('Random programs (recursive, non-linear, unbound head variables, repeated subgoals) with random data; a random rule whose head '
        'is no output is eliminated (then, sometimes, another, or the result pruned). The reference evaluator compares every item '
        'that the eliminated rule heads do not unify with. Non-trivial: the eliminated rule matched a subgoal and some compared item is nonzero.')


def candidates(p):
    from dyna.term import Var
    return [i for i, r in enumerate(p.rules) if not p.is_output(r.head) and not p.is_input(r.head)]


def run_elim(case):
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    p = p0 = build(case)
    gone = []
    trace = []
    used = False
    for k in case['picks']:
        c = candidates(p)
        if not c or len(p) > 7 or max(len(r.body) for r in p) > 6:
            break
        i = c[k % len(c)]
        h = from_rule(p.rules[i])[0]
        used |= any(isinstance(b, tuple) and unifiable_apart(h, b) for r in p for b in from_rule(r)[1])
        q = p.elim(i)
        gone.append(h)
        trace.append(f'elim({i})')
        # the eliminated rule is gone: at most len-1 old rules are kept besides the specialised ones
        p = q
    if not trace:
        raise Inconclusive('nothing to eliminate')
    ks = idb_keys(case)

    def keep(f):
        return fnkey(f) in ks and not any(unifiable_apart(f, h) for h in gone)
    what = f'{" ".join(trace)} of\n{p0.__repr__(color=False)}\n->\n{p.__repr__(color=False)}\n'
    compare(rules, ref_rules(p), data, keep, what, base=base)
    if case['prune'] and len(p) <= 7 and not case.get('builtins'):
        outs = [dec(o) for o in case['outputs']]

        def keep_out(f):
            return keep(f) and any(unifiable_apart(f, o) for o in outs)
        q = p.prune()
        compare(rules, ref_rules(q), data, keep_out, f'{what}, then prune ->\n{q.__repr__(color=False)}\n', base=base)
    return Info(used and any(keep(f) for f in base.v), [f'steps{len(trace)}', 'used' if used else 'unused'])


I = st.integers
kw = dict(n_rules=(2, 5), n_idb=(2, 3))


def with_(prog, **k):
    return st.builds(lambda c, **kk: {**c, **kk}, prog, **k)


PROGS = gen.weighted((4, progs.datalog(rr=True, **kw)), (3, progs.datalog(rr=False, **kw)), (2, progs.datalog(rr=True, structs=True, **kw)),
                     (2, progs.datalog(rr=False, structs=True, **kw)), (1, progs.datalog(rr=True, builtins=True, **kw).map(lambda c: {**c, 'builtins': True})), (3, progs.template()))


def goal_only(c):
    return {**c, 'outputs': [['goal']]} if c['picks'] and c['picks'][0] % 4 else c


CASES = with_(PROGS, picks=st.lists(I(0, 11), min_size=1, max_size=3), prune=gen.weighted((3, st.just(False)), (1, st.just(True)))).map(goal_only)
CHECKS = [
    Check('elim', lambda: CASES, run_elim, quick=5000, case_timeout=6),
]
