"""Unfolding preserves the meaning of the program."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import dec, to_dyna, unify, rename, text
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys

PROPERTY = 'P14'
RULE = ('Random programs (recursion, repeated variables, structure, unbound head variables, built-ins) with random data; '
        'a random sequence of unfoldable positions is unfolded. Original and result are evaluated by the reference '
        'evaluator on the same data, and every item of every defined predicate compared. Non-trivial: some item is '
        'nonzero and some step replaced a rule by two or more rules or specialised a variable.')


def positions(p):
    return [(i, j) for i, r in enumerate(p.rules) for j, x in enumerate(r.body) if p.safe_inline(x)]


def run_steps(case):
    p0 = build(case)
    rules, data = rules_of(case), data_of(case)
    keys = idb_keys(case)
    base = ref_eval(rules, data)
    p = p0
    interesting = False
    labels, trace = [], []
    for k in case['picks']:
        pos = positions(p)
        if not pos or len(p) > 10 or max(len(r.body) for r in p) > 7:
            break
        i, j = pos[k % len(pos)]
        n = len(p)
        p = p.unfold(i, j)
        interesting |= len(p) != n
        labels.append('dead' if len(p) == n - 1 else 'one' if len(p) == n else 'split')
        trace.append(f'unfold({i},{j})')
    compare(rules, ref_rules(p), data, keys, f'{" ".join(trace)} of\n{p0.__repr__(color=False)}\n->\n{p.__repr__(color=False)}\n', base=base)
    return Info(interesting and any(k[0] == 'goal' or k for k in base.v), labels[:3])


def run_gone(case):
    "unfold_x: unfold until no subgoal unifies with the pattern; outputs keep their values."
    p0 = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    f, a = case['kill']
    pat = (f,) + tuple(progs.V(x) for x in progs.VARN[:a])
    x = to_dyna(pat, {})
    # only where the predicate does not depend on itself (otherwise it need not terminate)
    dep = {}
    for h, b in rules:
        for s in b:
            if isinstance(s, tuple):
                dep.setdefault((h[0], len(h) - 1), set()).add((s[0], len(s) - 1))
    seen, todo = set(), [(f, a)]
    while todo:
        for y in dep.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    if (f, a) in seen:
        raise Inconclusive('recursive')
    q = p0.unfold_x(text(pat) if case['str'] else x)
    for r in q:
        for y in r.body:
            from dyna.term import unifies
            require(not unifies(y, x), f'a subgoal on {f}/{a} is left after unfolding it away:\n{q.__repr__(color=False)}')
    compare(rules, ref_rules(q), data, progs.out_keys(case), f'unfold_x({text(pat)}) gives\n{q.__repr__(color=False)}\n', base=base)
    called = any(isinstance(s, tuple) and (s[0], len(s) - 1) == (f, a) for _, b in rules for s in b)
    return Info(called and base.value(('goal',)), ['called' if called else 'uncalled'])


def run_all(case):
    "unfolds(): one result per unfoldable position, each equivalent."
    p = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    pos = positions(p)
    if len(pos) > 8:
        raise Inconclusive('many positions')
    qs = list(p.unfolds())
    require(len(qs) == len(pos), f'{len(qs)} unfold results for {len(pos)} positions')
    for q in qs:
        compare(rules, ref_rules(q), data, idb_keys(case), f'{q.name} of\n{p.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n', base=base)
    return Info(len(qs) > 1 and bool(base.v))


picks = st.lists(st.integers(0, 30), min_size=1, max_size=4)


def with_(prog, **kw):
    return st.builds(lambda c, **k: {**c, **k}, prog, **kw)


PROGS = gen.weighted((4, progs.datalog(rr=True)), (3, progs.datalog(rr=False, structs=False)), (2, progs.datalog(rr=True, structs=True)),
                     (2, progs.datalog(rr=False, structs=True)), (2, progs.datalog(rr=True, builtins=True)), (3, progs.template()))


@st.composite
def gone(draw):
    c = draw(gen.weighted((3, progs.datalog(rr=True, recursion=False, max_body=2, n_rules=(2, 5))),
                          (2, progs.datalog(rr=False, recursion=False, max_body=2, n_rules=(2, 5))), (1, progs.template())))
    hs = sorted({(h[0], len(h) - 1) for h, _ in c['rules']} - {('goal', 0)}) or [('goal', 0)]
    c['outputs'] = [['goal']]
    return {**c, 'kill': list(draw(st.sampled_from(hs))), 'str': draw(st.booleans())}


CHECKS = [
    Check('steps', lambda: with_(PROGS, picks=picks), run_steps, quick=6000),
    Check('gone', lambda: gone(), run_gone, quick=2400),
    Check('all', lambda: PROGS, run_all, quick=2000),
]
