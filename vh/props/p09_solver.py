"""Forward chaining computes the weighted fixpoint."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, code_program, data_program, chart_of, check_chart, ordered, with_semiring
from ..refeval import fnkey

PROPERTY = 'P09'
RULE = ('Random range-restricted programs (recursion, self-joins, repeated variables, constants, built-ins, structured terms; classic dynamic programs) with random weighted '
        'data, in six semirings, one of them truncated polynomials in which recursive programs reach an exact fixpoint. Both solvers and the default choice run with the data '
        'in the program or loaded alongside; every item of the chart is compared with an independent naive evaluator. Non-trivial: a defined item is derived and some '
        'rule joins at least two subgoals or is recursive.')


def run_solve(case):
    sem = Sem(case['S'])
    A = ref_chart(case, sem)
    load = case['place'] == 'load'
    p = code_program(case, sem, data=not load)
    data = data_program(case, sem) if load else ''
    how = case['how']
    if how == 'call':
        s = p(data)
    elif how == 'solve':
        s = None
        sol = p.solve(data)
    else:
        s = (p.solver() if how == 'solver' else p.solver2())(data)
    if s is not None:
        sol = s.sol()
    check_chart(A, chart_of(sol, sem), sem, f'{how} of\n{p.__repr__(color=False)}\ndata {case["data"]}')
    # one entry per item
    heads = [str(solve.from_dyna(r.head)) for r in sol.rules]
    require(len(heads) == len(set(heads)), f'an item occurs twice in the chart: {heads}')
    ks = progs.idb_keys(case)
    n = sum(1 for f in A.v if fnkey(f) in ks)
    join = any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules'])
    return Info(n > 1 and join, [case['S'], how, case['place'], 'recursive' if solve.rec(case) else 'acyclic'])


I = st.integers


def programs():
    flat = dict(recursion=False, eps_nonrec=False, n_rules=(2, 6))
    return gen.weighted(
        (3, progs.datalog(rr=True, n_rules=(2, 6), rec_p=2)), (4, progs.datalog(rr=True, **flat)),
        (2, progs.datalog(rr=True, builtins=True, n_rules=(2, 5), rec_p=2)), (2, progs.datalog(rr=True, builtins=True, **flat)),
        (2, progs.datalog(rr=True, structs=True, n_rules=(2, 5), rec_p=2)), (1, progs.datalog(rr=True, structs=True, **flat)), (6, progs.template()))


CASES = st.builds(lambda c, how, place: {**ordered(c), 'how': how, 'place': place}, programs().flatmap(with_semiring()),
                  st.sampled_from(['solver', 'solver2', 'solver', 'solver2', 'call', 'solve']), gen.weighted((2, st.just('rules')), (2, st.just('load')), (1, st.just('text'))))
CHECKS = [Check('solve', lambda: CASES, run_solve, quick=8000, case_timeout=6)]
