"""All evaluation strategies agree."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, code_program, data_program, chart_of, check_chart, ordered, with_semiring
from ..terms import dec, unifiable_apart
from ..refeval import fnkey, is_builtin

PROPERTY = 'P10'
RULE = ('Random programs (recursive and not, with self-joins, built-ins, structure, facts with variables for the strategies that take them) and data in six semirings; each '
        'case runs two or three of: naive iteration, agenda, semi-naive, Newton, the linear-equation solver, the agenda solvers, the component-wise solver with and without '
        'demand restriction (compared on the outputs). Every item is compared with the independent evaluator. Non-trivial: a defined item is derived and the program is '
        'recursive or joins two subgoals.')


def linear(p):
    return all(sum(not p.is_const(b) for b in r.body) <= 1 for r in p)


STRAT = {
    'fc': lambda p: p.fc(max_iter=150),
    'agenda': lambda p: p.agenda(max_iter=20000),
    'seminaive': lambda p: p.seminaive(T=150),
    'newton': lambda p: p.newton(T=40),
    'linear': lambda p: p.solve_linear(),
    'solver': lambda p: p.solver()().sol(),
    'solver2': lambda p: p.solver2()().sol(),
}


def run_strategies(case):
    sem = Sem(case['S'])
    A = ref_chart(case, sem)
    p = code_program(case, sem)
    outs = [dec(o) for o in case['outputs']]
    ran = []
    for name in case['how']:
        q = p
        if name == 'linear' and not linear(p) or name == 'newton' and not nobuiltins(case):
            continue
        if name == 'magic' and any(x in str(case['rules']) for x in ('$cons', "['s'")):
            continue                                   # demand may be infinite
        if name in ('scc', 'magic'):
            from dyna import InstFault
            # declared inputs come from the data argument; without declarations the facts are ordinary rules
            try:
                if case['place'] == 'load':
                    sol = code_program(case, sem, data=False).scc_solver(magic=name == 'magic', data=data_program(case, sem)).sol()
                else:
                    p = code_program(case, sem)
                    p.set_input_types('')
                    sol = p.scc_solver(magic=name == 'magic').sol()
            except InstFault:
                # demand may reach a built-in whose operands it leaves open; the solver says so
                if name == 'magic' and not nobuiltins(case):
                    raise Inconclusive('mode not supported by the solver') from None
                raise
            p = code_program(case, sem)
        else:
            sol = STRAT[name](q)
        keep = None
        if name in ('scc', 'magic'):
            def keep(f):
                return not solve.gen_functor(f) and any(unifiable_apart(f, o) for o in outs)
        B = chart_of(sol, sem)
        check_chart(A, B, sem, f'{name} of\n{p.__repr__(color=False)}', keep)
        ran.append(name)
    ks = progs.idb_keys(case)
    n = sum(1 for f in A.v if fnkey(f) in ks)
    join = any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules'])
    rec = solve.rec(case)
    return Info(bool(ran) and n > 1 and (join or rec), [case['S'], 'recursive' if rec else 'acyclic', *ran])


I = st.integers
flat = dict(recursion=False, eps_nonrec=False, n_rules=(2, 5), n_idb=(2, 3))
rec = dict(n_rules=(2, 5), n_idb=(2, 3), rec_p=2)


@st.composite
def linear_program(draw):
    "Rules with one subgoal: systems of linear equations."
    c = draw(progs.datalog(rr=True, max_body=1, n_rules=(3, 7), weights=True, rec_p=2, repeat_bias=False))
    return {**c, 'inline': 1}


def nobuiltins(c):
    return not any(is_builtin(dec(b)) for _, body in c['rules'] for b in body if isinstance(b, list) and not (b and b[0] == 'w'))


ALL = ['fc', 'agenda', 'seminaive', 'newton', 'solver', 'solver2', 'scc', 'magic']
NONGROUND = ['fc', 'agenda', 'seminaive', 'newton', 'solver2', 'scc', 'magic']
BUILTIN = ['fc', 'agenda', 'seminaive', 'solver', 'solver2', 'scc', 'magic']


def how(names, n=2):
    return st.lists(st.sampled_from(names), min_size=1, max_size=n, unique=True)


def with_how(strat, names):
    return st.builds(lambda c, h, place: {**c, 'how': h, 'place': place}, strat, how(names), st.sampled_from(['rules', 'load']))


def progs_ground():
    return gen.weighted((4, progs.datalog(rr=True, **rec)), (4, progs.datalog(rr=True, **flat)), (2, progs.datalog(rr=True, structs=True, **rec)), (3, progs.template()))


def progs_builtin():
    return gen.weighted((2, progs.datalog(rr=True, builtins=True, **rec)), (2, progs.datalog(rr=True, builtins=True, **flat)))


CASES = with_how(progs_ground().map(ordered).flatmap(with_semiring()), ALL)
BCASES = with_how(progs_builtin().map(ordered).flatmap(with_semiring()), BUILTIN)
LCASES = st.builds(lambda c, h, place: {**c, 'how': [*dict.fromkeys(['linear', *h])], 'place': place}, linear_program().flatmap(with_semiring()),
                   st.lists(st.sampled_from(['newton', 'agenda', 'fc', 'seminaive']), max_size=1), st.just('rules'))
NCASES = with_how(gen.weighted((3, progs.datalog(rr=False, **rec)), (5, progs.datalog(rr=False, **flat))).map(ordered).flatmap(with_semiring()), NONGROUND)
CHECKS = [Check('strategies', lambda: CASES, run_strategies, quick=1500, case_timeout=6),
          Check('builtins', lambda: BCASES, run_strategies, quick=600, case_timeout=6),
          Check('nonground', lambda: NCASES, run_strategies, quick=1000, case_timeout=6),
          Check('linear', lambda: LCASES, run_strategies, quick=800, case_timeout=6)]
