"""Demand-driven evaluation derives the same outputs, and only demanded items."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, code_program, data_program, chart_of, check_chart, ordered, with_semiring, _Val, semiring
from ..terms import dec, text, covers, rename, subst, unify_in, canon, from_rule, is_t
from ..refeval import BoolS, Limits, NotConverged, evaluate, diff, fnkey, is_builtin

PROPERTY = 'P22'
RULE = ('Random programs (recursion, self-joins, facts and heads with variables, built-ins, structure; list programs whose bottom-up fixpoint is infinite) with random output patterns, some partly instantiated '
        'or overlapping. The demand program is evaluated by the independent evaluator: same support on the outputs, no new items, every demand an instance of a pattern reachable from the outputs. '
        'The component-wise solver, with and without demand, in six semirings, must give the outputs their reference values. Non-trivial: an output is derived and the demand '
        'restriction derives fewer items than the original (templates); an output is derived by a join or recursion (solver).')
OUT = '$out'


def lift_const(r, p):
    h, body = r
    return h, tuple(b for b in body if is_t(b) or isinstance(b, solve.V))


def outs_of(chart, outs, S):
    "The part of a chart that matches the outputs."
    try:
        return evaluate([(f, (_Val(v),)) for f, v in chart.items()] + [((OUT, o), (o,)) for o in outs], S, Limits())
    except NotConverged:
        raise Inconclusive('reference') from None


def bool_eval(rules, data):
    try:
        return evaluate([(f, ()) for f in data] + rules, BoolS, Limits(rounds=60, steps=60000))
    except NotConverged:
        raise Inconclusive('the demand may be infinite') from None


def relevant(rules, outs, cap=300):
    "Patterns of subgoals reachable from the outputs by unifying with heads only, or None."
    D, todo = set(), []

    def add(t):
        t = canon(t)
        if not any(covers(d, t) for d in D):
            D.add(t)
            todo.append(t)
    for o in outs:
        add(o)
    while todo:
        t = todo.pop()
        for h, body in rules:
            s = {}
            if unify_in(rename(t, "'t"), h, s):
                for b in body:
                    if not is_builtin(b):
                        add(subst(s, b))
        if len(D) > cap:
            return None
    return D


def run_templates(case):
    sem = Sem('bool')
    p = code_program(case, sem, data=False)
    if case['declare'] == 'no':
        for r in data_program(case, sem).rules:
            p.append(r)
        p.set_input_types('')
    outs = [dec(o) for o in case['outputs']]
    data = [dec(f) for f, _ in case['data']]
    rules = [lift_const(r, p) for r in progs.rules_of(case)]
    A = bool_eval(rules, data)
    tp = p.magic_templates()
    what = f'demand program of\n{p.__repr__(color=False)}\nis\n{tp.__repr__(color=False)}\n'
    magic = tp.magic_fn
    trules = [lift_const(from_rule(r), p) for r in tp.rules]
    B = bool_eval(trules, data if case['declare'] == 'yes' else [])

    def is_magic(f):
        return isinstance(f, tuple) and len(f) == 2 and str(f[0]) == str(magic)
    d = diff(outs_of(A, outs, BoolS), outs_of(B, outs, BoolS), keep=lambda f: f[0] == OUT)
    require(d is None, lambda: f'{what}output {text(d[0][1])}: {d[1]} in the original, {d[2]} by demand\ndata {case["data"]}')
    both = evaluate([(f, ()) for f in [*A.v, *(f for f in B.v if not is_magic(f))]], BoolS, Limits())
    d = diff(A, both)
    require(d is None, lambda: f'{what}derives {text(d[0])}, which the original does not\ndata {case["data"]}')
    D = relevant(rules, outs)
    if D is not None:
        for f in B.v:
            if is_magic(f):
                require(any(covers(x, f[1]) for x in D), lambda: f'{what}demands {text(f[1])}, which no output can need\ndata {case["data"]}')
    derived = any(f[0] == OUT for f in outs_of(A, outs, BoolS).v)
    fewer = sum(not is_magic(f) for f in B.v) < len(A.v)
    return Info(derived and fewer, ['fewer' if fewer else 'all', case['declare'], 'recursive' if solve.rec(case) else 'acyclic'])


def run_solver(case):
    from dyna import InstFault
    sem = Sem(case['S'])
    A = ref_chart(case, sem)
    outs = [dec(o) for o in case['outputs']]
    S = semiring(sem)
    magic = case['magic']
    try:
        if case['declare'] == 'yes':
            p = code_program(case, sem, data=False)
            sol = p.scc_solver(magic=magic, data=data_program(case, sem)).sol()
        else:
            p = code_program(case, sem)
            p.set_input_types('')
            sol = p.scc_solver(magic=magic).sol()
    except InstFault:
        if magic and 'is' in str(case['rules']) or any(isinstance(b, list) and is_builtin(dec(b)) for _, body in case['rules'] for b in body):
            raise Inconclusive('mode not supported by the solver') from None
        raise
    a, b = outs_of(A, outs, S), outs_of(chart_of(sol, sem), outs, S)
    check_chart(a, b, sem, f'solver with demand={magic} of\n{p.__repr__(color=False)}\noutputs {[text(o) for o in outs]} data {case["data"]}', keep=lambda f: f[0] == OUT)
    derived = any(f[0] == OUT for f in a.v)
    join = any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules'])
    return Info(derived and (join or solve.rec(case)), [case['S'], 'magic' if magic else 'plain', case['declare']])


# ---------------------------------------------------------------------------
# list programs: infinite bottom-up, finite by demand

def L(*xs):
    t = ['$nil']
    for x in reversed(xs):
        t = ['$cons', x, t]
    return t


V_ = progs.v
X, Y, Z, XS, YS, ZS = map(V_, ['X', 'Y', 'Z', 'Xs', 'Ys', 'Zs'])


def cons(a, b):
    return ['$cons', a, b]


LISTS = {
    'weight': ([[['f', L()], []], [['f', cons(X, XS)], [['r1', X], ['f', XS]]]], [['goal'], [['in', XS], ['f', XS]]]),
    'select': ([[['sel', X, cons(X, XS), XS], []], [['sel', X, cons(Y, XS), cons(Y, YS)], [['sel', X, XS, YS]]]], [['goal'], [['in', XS], ['sel', X, XS, YS], ['r1', X]]]),
    'append': ([[['app', L(), YS, YS], []], [['app', cons(X, XS), YS, cons(X, ZS)], [['app', XS, YS, ZS]]]], [['goal'], [['in', XS], ['app', YS, ZS, XS], ['pick', YS]]]),
    'align': ([[['al', L(), L()], []], [['al', cons(X, XS), cons(Y, YS)], [['r2', X, Y], ['al', XS, YS]]], [['al', cons(X, XS), YS], [['r1', X], ['al', XS, YS]]],
               [['al', XS, cons(Y, YS)], [['r1', Y], ['al', XS, YS]]]], [['goal'], [['in', XS], ['in2', YS], ['al', XS, YS]]]),
    'member': ([[['mem', X, cons(X, XS)], []], [['mem', X, cons(Y, XS)], [['mem', X, XS]]]], [['goal'], [['in', XS], ['mem', X, XS], ['r1', X]]]),
}


def py_lists(name, ins, r1, r2, pick, S):
    "The value of the goal, computed directly."
    plus, times, one, zero = S.plus, S.times, S.one, S.zero
    tot = zero

    def al(a, b):
        if not a and not b:
            return one
        t = zero
        if a and b and (a[0], b[0]) in r2:
            t = plus(t, times(r2[a[0], b[0]], al(a[1:], b[1:])))
        if a and a[0] in r1:
            t = plus(t, times(r1[a[0]], al(a[1:], b)))
        if b and b[0] in r1:
            t = plus(t, times(r1[b[0]], al(a, b[1:])))
        return t
    for xs, w in ins.items():
        if name == 'weight':
            t = one
            for x in xs:
                t = times(t, r1.get(x, zero))
            tot = plus(tot, times(w, t))
        elif name in ('select', 'member'):
            for x in xs:
                tot = plus(tot, times(w, r1.get(x, zero)))
        elif name == 'append':
            for i in range(len(xs) + 1):
                tot = plus(tot, times(w, pick.get(xs[:i], zero)))
        else:
            for ys, u in pick.items():
                tot = plus(tot, times(times(w, u), al(xs, ys)))
    return tot


def run_lists(case):
    sem = Sem(case['S'])
    rules, goal = LISTS[case['prog']]
    rules = [*rules, goal]
    rules = [rules[i] for i in sorted(range(len(rules)), key=lambda i: (case['perm'] >> i & 1, i))]
    rules = [[h, body[::-1] if case['rev'] >> i & 1 else body] for i, (h, body) in enumerate(rules)]
    ins, r1, r2, pick = {}, {}, {}, {}
    for xs, k in case['ins']:
        ins.setdefault(tuple(xs), sem.val(k))
    for x, k in case['r1']:
        r1.setdefault(x, sem.val(k))
    for x, y, k in case['r2']:
        r2.setdefault((x, y), sem.val(k))
    for xs, k in case['pick']:
        pick.setdefault(tuple(xs), sem.val(k))
    want = py_lists(case['prog'], ins, r1, r2, pick, sem.ref)
    c = {'rules': rules, 'inputs': [['in', XS], ['r1', X], ['r2', X, Y], ['pick', XS], ['in2', XS]], 'outputs': [['goal']], 'data': []}
    p = code_program(c, sem, data=False)
    from dyna import Program
    facts = [(('in', dec(L(*xs))), v) for xs, v in ins.items()] + [(('r1', x), v) for x, v in r1.items()] + [(('r2', x, y), v) for (x, y), v in r2.items()] \
        + [((k, dec(L(*xs))), v) for k in ('pick', 'in2') for xs, v in pick.items()]
    data = Program([solve.crule(f, [sem.code(v)], sem) for f, v in facts], semiring=sem.cls())
    what = f'solver by demand of\n{p.__repr__(color=False)}\non\n{data.__repr__(color=False)}'
    sol = p.scc_solver(magic=True, data=data).sol()
    B = chart_of(sol, sem)
    got = B.value(('goal',))
    require(sem.same(got, want), f'{what}: goal is {got}, expected {want}')
    return Info(want != sem.ref.zero, [case['S'], case['prog']])


I = st.integers
flat = dict(recursion=False, eps_nonrec=False, n_rules=(3, 6), n_idb=(2, 4))
rec = dict(n_rules=(3, 7), n_idb=(2, 4), rec_p=2)


@st.composite
def outputs(draw, prog):
    c = ordered(draw(prog))
    heads = [h for h, _ in c['rules']]
    outs = []
    for h in draw(st.lists(st.sampled_from(heads), min_size=1, max_size=3)):
        o = [h[0]]
        for i, x in enumerate(h[1:]):
            o.append(draw(gen.weighted((3, st.just(progs.v(f'O{i}'))), (2, I(0, 2)), (1, st.just(progs.v('O0'))))))
        if o not in outs:
            outs.append(o)
    return {**c, 'outputs': outs, 'declare': draw(st.sampled_from(['yes', 'no'])), 'magic': draw(st.sampled_from([True, True, False]))}


def pool():
    return gen.weighted((4, progs.datalog(rr=True, **rec)), (2, progs.datalog(rr=True, **flat)), (2, progs.datalog(rr=True, structs=True, **flat)), (2, progs.datalog(rr=False, **flat)),
                        (1, progs.datalog(rr=False, **rec)), (2, progs.template()), (1, progs.datalog(rr=True, builtins=True, **flat)))


TEMPL = outputs(pool())
SOLV = outputs(pool()).flatmap(with_semiring())
XSEQ = st.lists(I(0, 2), max_size=4)
W = st.sampled_from([2, 3, 5, 7])
LIST = st.fixed_dictionaries({'prog': st.sampled_from(sorted(LISTS)), 'S': st.sampled_from(['poly', 'float', 'minplus', 'maxtimes', 'bool']), 'perm': I(0, 15), 'rev': I(0, 15),
                              'ins': st.lists(st.tuples(XSEQ, W).map(list), min_size=1, max_size=3), 'r1': st.lists(st.tuples(I(0, 2), W).map(list), max_size=4),
                              'r2': st.lists(st.tuples(I(0, 2), I(0, 2), W).map(list), max_size=5), 'pick': st.lists(st.tuples(XSEQ, W).map(list), max_size=4)})
CHECKS = [Check('templates', TEMPL, run_templates, quick=3000, case_timeout=8),
          Check('solver', SOLV, run_solver, quick=1500, case_timeout=8),
          Check('lists', LIST, run_lists, quick=600, case_timeout=8)]
