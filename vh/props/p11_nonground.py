"""Facts with variables stand for all their instances."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, code_program, data_program, chart_of, check_chart, ordered, with_semiring
from ..terms import dec, tvars, canon, unifiable_apart
from ..refeval import fnkey

PROPERTY = 'P11'
RULE = ('Random programs whose heads and data contain unbound variables (overlapping patterns, diagonals, structure, variables that disappear, subgoals that several patterns match), in six '
        'semirings. The non-ground solver, the naive iteration and the agenda are compared with an independent non-ground evaluator at one ground point of every region cut out by the patterns. '
        'Non-trivial: some derived or given fact has a variable and overlaps another fact, or a variable disappears.')

STRAT = {
    'solver2': lambda p, d: p.solver2()(d).sol(),
    'call': lambda p, d: p(d).sol(),
    'fc': lambda p, d: p.fc(max_iter=100),
    'agenda': lambda p, d: p.agenda(max_iter=20000),
    'seminaive': lambda p, d: p.seminaive(T=100),
}


def run_nonground(case):
    sem = Sem(case['S'])
    A = ref_chart(case, sem)
    how = case['how']
    load = case['place'] == 'load' and how in ('solver2', 'call')
    p = code_program(case, sem, data=not load)
    data = data_program(case, sem) if load else ''
    if how == 'call' and p.is_range_restricted() and (load and any(tvars(dec(f)) for f, _ in case['data']) or any(b[0] == '=' for _, body in case['rules'] for b in body if isinstance(b, list))):
        how = 'solver2'             # the default choice looks only at where the variables of the rules occur
    sol = STRAT[how](p, data)
    check_chart(A, chart_of(sol, sem), sem, f'{how} of\n{p.__repr__(color=False)}\ndata {case["data"]}')
    open_ = [f for f in A.v if tvars(f)]
    over = any(f != g and f[0] == g[0] and len(f) == len(g) and unifiable_apart(f, g) for f in open_ for g in A.v)
    return Info(over or 'inf' in str(list(A.v.values())), [case['S'], how, 'overlap' if over else '-', 'recursive' if solve.rec(case) else 'acyclic'])


I = st.integers


@st.composite
def open_data(draw, prog):
    "Replace arguments of some data facts by variables."
    c = draw(prog)
    data = []
    for f, k in c['data']:
        if len(f) > 1 and draw(I(0, 3)) == 0:
            f = [f[0]] + [draw(st.sampled_from([x, x, {'v': 'X'}, {'v': 'X'}, {'v': 'Y'}, ['s', {'v': 'X'}]])) for x in f[1:]]
        data.append([f, k])
    return {**c, 'data': data}


def programs():
    flat = dict(recursion=False, eps_nonrec=False, n_rules=(2, 5), n_data=(1, 4))
    rec = dict(n_rules=(2, 5), rec_p=2)
    base = gen.weighted((3, progs.datalog(rr=False, **rec)), (6, progs.datalog(rr=False, **flat)), (2, progs.datalog(rr=True, **rec)), (3, progs.datalog(rr=True, **flat)),
                        (2, progs.datalog(rr=False, structs=True, **flat)), (1, progs.template(names=['cube', 'ternary', 'closure', 'diag', 'mutual', 'path', 'chain'])))
    return gen.weighted((1, base), (3, open_data(base)))


@st.composite
def overlapping(draw):
    "A few overlapping patterns and rules that join several subgoals on them."
    v = progs.v
    arg = gen.weighted((2, st.sampled_from([v('X'), v('Y')])), (2, st.sampled_from([0, 1])), (1, st.sampled_from([['s', v('X')], ['s', 0], ['s', v('Y')]])))
    a = draw(I(1, 2))
    rules = []
    for i in range(draw(I(2, 4))):
        h = ['p'] + [draw(arg) for _ in range(a)]
        rules.append([h, [draw(st.sampled_from([2, 3, 5, 7])), *([['q', *h[1:]]] if draw(I(0, 3)) == 0 else [])]])
    for i in range(draw(I(0, 2))):
        rules.append([['q'] + [draw(arg) for _ in range(a)], [draw(st.sampled_from([1, 2, 3]))]])
    for i in range(draw(I(1, 2))):
        f = draw(st.sampled_from(['g', 'h']))
        body = [[draw(st.sampled_from(['p', 'p', 'p', 'q']))] + [draw(arg) for _ in range(a)] for _ in range(draw(I(2, 3)))]
        if draw(I(0, 4)) == 0:
            eq = ['=', draw(st.sampled_from([v('X'), v('Y'), v('Z')])), draw(gen.weighted((2, arg), (1, st.just(v('Z')))))]
            body = [eq] if draw(I(0, 2)) == 0 else [*body, eq]
        if draw(I(0, 4)) == 0:
            body.append(['w0'])
            f = 'p'
        head = [f] + ([draw(arg) for _ in range(a)] if f == 'p' or draw(st.booleans()) else [])
        rules.append([head, body])
    return {'rules': rules, 'inputs': [], 'outputs': [['g'], ['h']], 'data': [[['w0'], ['w', 2]]] if 'w0' in str(rules) else []}


def with_how(s):
    return st.builds(lambda c, how, place: {**c, 'how': how, 'place': place}, s,
                     gen.weighted((4, st.just('solver2')), *[(1, st.just(x)) for x in ('call', 'fc', 'agenda', 'seminaive')]), st.sampled_from(['rules', 'load']))


CASES = with_how(programs().map(ordered).flatmap(with_semiring()))
OCASES = with_how(overlapping().flatmap(with_semiring()))
CHECKS = [Check('nonground', lambda: CASES, run_nonground, quick=2500, case_timeout=4),
          Check('overlap', lambda: OCASES, run_nonground, quick=1500, case_timeout=4)]
