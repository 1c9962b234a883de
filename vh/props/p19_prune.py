"""Removing dead and useless rules never changes an output."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import dec, from_rule, unifiable_apart, V
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys
from ..refeval import fnkey, BoolS, evaluate, is_builtin

PROPERTY = 'P19'
RULE = ('Random programs with unreachable predicates, subgoals that nothing derives, constants that cut branches off, and random data matching the inputs; every '
        'pruning is applied (sometimes two in a row). The reference evaluator compares the outputs (every item, for bottom-up pruning). Non-trivial: '
        'the pruning removed or specialised a rule and some output is nonzero.')

PRUNE = {
    'prune': lambda p: p.prune(),
    'dead': lambda p: p.prune(specialize=False),
    'shallow': lambda p: p.prune(max_depth=1),
    'dead-shallow': lambda p: p.prune(specialize=False, max_depth=2),
    'bottom_up': lambda p: p.prune_bottom_up(),
    'bottom_up-dead': lambda p: p.prune_bottom_up(specialize=False),
    'fast': lambda p: p.prune_fast(),
    'very_fast': lambda p: p.prune_very_fast(),
}


def run_prune(case):
    p0 = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    outs = [dec(o) for o in case['outputs']]
    q = p0
    for name in case['how']:
        q = PRUNE[name](q)
    ks = idb_keys(case)
    if all(n.startswith('bottom_up') for n in case['how']):
        def keep(f):
            return fnkey(f) in ks
    else:
        def keep(f):
            return fnkey(f) in ks and any(unifiable_apart(f, o) for o in outs)
    what = f'{" ".join(case["how"])} of\n{p0.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n'
    new = ref_rules(q)
    compare(rules, new, data, keep, what, base=base)
    # nothing new is derived
    B = ref_eval(new, data)
    for f, v in B.items():
        g = base.value(_ground(f))
        if v != g and not base.v.get(f) and not g:
            require(False, f'{what}{progs.show(f)} has no value in the original, {v} in the result')
    return Info((len(q) != len(p0) or new != ref_rules(p0)) and any(keep(f) for f in base.v),
                [case['how'][0], f'x{len(case["how"])}', 'cut' if len(q) < len(p0) else 'more' if len(q) > len(p0) else 'same'])


def _ground(f):
    from ..refeval import _fresh_ground
    return _fresh_ground(f)


I = st.integers
kw = dict(n_rules=(3, 6), n_idb=(2, 4))


@st.composite
def dirty(draw, prog):
    "Break some subgoals of a program so that there is something to prune."
    c = draw(prog)
    rules = [[h, list(b)] for h, b in c['rules']]
    for _ in range(draw(gen.weighted((1, st.just(0)), (3, I(1, 3))))):
        i = draw(I(0, len(rules) - 1))
        h, b = rules[i]
        k = draw(I(0, 5))
        subs = [j for j, x in enumerate(b) if isinstance(x, list) and len(x) > 1 and isinstance(x[0], str) and x[0][0] in 'rp']
        if k == 0:
            b.insert(draw(I(0, len(b))), ['dead', progs.v('X')])
        elif k == 1 and subs:
            j = draw(st.sampled_from(subs))
            a = draw(I(1, len(b[j]) - 1))
            b[j] = [*b[j][:a], draw(st.sampled_from([0, 1, ['s', progs.v('X')], ['$nil']])), *b[j][a + 1:]]
        elif k == 2:
            rules.insert(draw(I(0, len(rules))), [['useless', progs.v('X')], [['r1', progs.v('X')], list(h)]])
        elif k == 3 and len(h) > 1:
            a = draw(I(1, len(h) - 1))
            rules.insert(draw(I(0, len(rules))), [[*h[:a], draw(st.sampled_from([0, ['s', 0], 7])), *h[a + 1:]], list(b)])
        elif k == 4:
            f = draw(st.sampled_from(['q1', 'q2']))
            rules.append([[f, progs.v('X')], [['q1', progs.v('X')], ['w0']]])
            b.append([f, progs.v('Y')])
        else:
            rules[i] = [h, b[:-1]] if len(b) > 1 and isinstance(b[-1], (int, float)) else rules[i]
    ws = {x[0] for _, b in rules for x in b if isinstance(x, list) and len(x) == 1 and x[0][0] == 'w'}
    have = {x[0] for x in c['inputs']}
    c = {**c, 'rules': rules}
    for w in sorted(ws - have):
        c['inputs'] = c['inputs'] + [[w]]
        c['data'] = c['data'] + [[[w], ['w', 3]]]
    return c


def programs(rr=True):
    base = gen.weighted((5, progs.datalog(rr=True, **kw)), (2, progs.datalog(rr=False, **kw)), (3, progs.datalog(rr=True, structs=True, **kw)),
                        (2, progs.datalog(rr=False, structs=True, **kw)), (1, progs.datalog(rr=True, builtins=True, **kw)), (3, progs.template()))
    return dirty(base)


CASES = st.builds(lambda c, how: {**c, 'how': how}, programs(),
                  gen.weighted((4, st.sampled_from(sorted(PRUNE)).map(lambda x: [x])), (1, st.lists(st.sampled_from(sorted(PRUNE)), min_size=2, max_size=2))))
CHECKS = [Check('prune', lambda: CASES, run_prune, quick=4000, case_timeout=4)]
