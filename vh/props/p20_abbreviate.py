"""Abbreviation of item types preserves the outputs."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import dec, tvars
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys
from ..refeval import fnkey, is_builtin, INF

PROPERTY = 'P20'
RULE = ('Random programs (with and without structure, built-ins, variables that occur only in heads) and ground data matching the declared inputs, abbreviated by '
        'the types inferred for them (or, where those overlap, by the generalised, disjoint types). The reference evaluator compares every item the original '
        'defines. Non-trivial: some rule was renamed to an abbreviated item, and some item has a value.')


SORTS = {'n': (0, 1), 'm': (2,)}
REWRITES = '$fail :- n(X), m(X).'


def input_types(case):
    "The declared input types of a sorted case, and the data that matches them."
    from dyna import Program
    lines, rows = [], []
    for f in case['inputs']:
        sigs = case['sorts'].get(f[0], [[]]) if len(f) > 1 else [[]]
        for sig in sigs:
            body = [f'{s}({x["v"]})' if s != '$bound' else f'$bound({x["v"]})' for s, x in zip(sig, f[1:])]
            h = f[0] + (f'({",".join(x["v"] for x in f[1:])})' if len(f) > 1 else '')
            lines.append(h + (' :- ' + ', '.join(body) if body else '') + '.')
    for fact, w in case['data']:
        sigs = case['sorts'].get(fact[0]) if len(fact) > 1 else None
        if sigs is None or any(all(s == '$bound' or x in SORTS[s] for s, x in zip(sig, fact[1:])) for sig in sigs):
            rows.append([fact, w])
    rows += [[[s, x], 1] for s in SORTS for x in SORTS[s]]
    return Program('\n'.join(lines) + '\ninputs: n(_); m(_).'), rows


def types_of(p, how, **kw):
    t = p.type_analysis(basic=how['basic'], max_depth=how['depth'], **kw)
    if not t.is_disjoint():
        t = p.type_analysis(basic=False, max_depth=how['depth'], **kw)
    return t


def run_abbrev(case):
    p0 = build(case)
    kw = {}
    if case.get('sorts') is not None:
        it, rows = input_types(case)
        case = {**case, 'data': rows}
        kw = dict(input_type=it, rewrites=REWRITES)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    t = types_of(p0, case['how'], **kw)
    if not t.is_disjoint():
        raise Inconclusive('overlapping types')
    q = p0.abbreviate(types=t)
    what = f'abbreviation of\n{p0.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n'
    new = ref_rules(q)
    if any(isinstance(b, tuple) and b[0] in ('$free', '$bound') for h, body in new for b in body):
        raise Inconclusive('type parameters in the result')
    ks = idb_keys(case)

    def keep(f):
        return fnkey(f) in ks
    compare(rules, new, data, keep, what, base=base)
    if case['how']['clean']:
        # the recovery rules of items nobody asks for can be pruned away
        outs = {fnkey(dec(o)) for o in case['outputs']}
        r = q.prune_bottom_up(specialize=False) if case['how']['clean'] == 1 else q.prune_very_fast()
        compare(rules, ref_rules(r), data, lambda f: fnkey(f) in outs, what + f'pruned to\n{r.__repr__(color=False)}\n', base=base)
    inf = any(b == INF for h, body in new for b in body)
    return Info(len(t.chart) > 1 and any(keep(f) for f in base.v),
                ['sorted'] * bool(kw) + [f'types{min(len(t.chart), 9)}'] + ['inf'] * inf + ['open'] * any(tvars(f) for f in base.v))


kw = dict(n_rules=(2, 5), n_idb=(2, 3))
PROGS = gen.weighted((4, progs.datalog(rr=True, **kw)), (5, progs.datalog(rr=False, **kw)), (3, progs.datalog(rr=True, structs=True, **kw)),
                     (3, progs.datalog(rr=False, structs=True, **kw)), (2, progs.datalog(rr=True, builtins=True, **kw)), (2, progs.template()))
HOW = st.fixed_dictionaries({'basic': gen.weighted((3, st.just(True)), (1, st.just(False))), 'depth': gen.weighted((3, st.just(5)), (1, st.integers(2, 3))), 'clean': st.integers(0, 3)})

SORTED = gen.weighted((4, progs.datalog(rr=True, **kw)), (2, progs.datalog(rr=False, **kw)), (1, progs.datalog(rr=True, builtins=True, **kw)), (2, progs.template()))


@st.composite
def sorted_case(draw):
    c = draw(SORTED)
    sorts = {}
    for f in c['inputs']:
        a = len(f) - 1
        if a and draw(st.integers(0, 5)):
            sig = st.lists(gen.weighted((3, st.sampled_from(['n', 'm'])), (1, st.just('$bound'))), min_size=a, max_size=a)
            sorts[f[0]] = draw(st.lists(sig, min_size=1, max_size=3, unique_by=str))
        elif a:
            sorts[f[0]] = [['$bound'] * a]
    return {**c, 'sorts': sorts}


CHECKS = [Check('sorted', lambda: st.builds(lambda c, how: {**c, 'how': how}, sorted_case(), HOW), run_abbrev, quick=2000, case_timeout=5),
          Check('abbreviate', lambda: st.builds(lambda c, how: {**c, 'how': how}, PROGS, HOW), run_abbrev, quick=2000, case_timeout=5)]
