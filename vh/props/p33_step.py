"""One inference step and the groundings of a program are exact."""
from collections import Counter
from itertools import product

from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, chart_of, check_chart, crule, _Val
from ..terms import dec, from_dyna, text, canon, rename, subst, unify_in
from ..refeval import fnkey

PROPERTY = 'P33'
RULE = ('Random programs and charts (several rules for one item, facts with variables, structured arguments, all semirings). One step is compared with the one-step reference chart; the groundings '
        'with a brute-force join (rule number, instance and value, with multiplicity), also when an enumeration is abandoned half way or several are interleaved, after which program and chart must be '
        'unchanged. Non-trivial: some rule with two subgoals fires, and (groundings) one fires twice.')
I = st.integers
HEAD = 'rule'


def mark(b):
    return ['c_' + b[0], *b[1:]] if isinstance(b, list) and not progs.is_builtin(dec(b)) else b


def chart_program(case, sem):
    from dyna import Program
    return Program([crule(dec(f), [sem.code(sem.val(k))], sem) for f, k in case['chart']], semiring=sem.cls())


def program(case, sem):
    from dyna import Program
    return Program([crule(h, [sem.code(sem.val(b)) if not isinstance(b, (tuple, solve.V)) else b for b in body], sem) for h, body in progs.rules_of(case)], semiring=sem.cls())


def run_step(case):
    sem = Sem(case['S'])
    p, c = program(case, sem), chart_program(case, sem)
    before = (p.__repr__(color=False), c.__repr__(color=False))
    ref = {'rules': [[h, [mark(b) for b in body]] for h, body in case['rules']], 'data': [[mark(f), k] for f, k in case['chart']]}
    A = ref_chart(ref, sem)
    q = p.step(c)
    what = f'one step of\n{before[0]}\non\n{before[1]}\ngives\n{q.__repr__(color=False)}'
    check_chart(A, chart_of(q, sem), sem, what, keep=lambda f: not str(fnkey(f)[0]).startswith('c_'))
    require((p.__repr__(color=False), c.__repr__(color=False)) == before, f'{what}\nbut the arguments changed')
    return Info(len(A.v) > len(case['chart']) and any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules']), [case['S']])


def brute(case, sem):
    "All (rule number, head, value, factors) by trying every combination of chart rules."
    out = []
    facts = [(dec(f), sem.val(k)) for f, k in case['chart']]
    for i, (h, body) in enumerate(progs.rules_of(case)):
        alts = []
        for b in body:
            if isinstance(b, (tuple, solve.V)):
                alts.append([(rename(f, f'\'{len(alts)}.{n}'), v) for n, (f, v) in enumerate(facts) if fnkey(f) == fnkey(b)])
            else:
                alts.append([(None, sem.val(b))])
        for pick in product(*alts):
            s = {}
            if not all(unify_in(b, f, s) for b, (f, _) in zip(body, pick) if f is not None):
                continue
            inst = (HEAD, subst(s, h), *[subst(s, b) if f is not None else ('const',) for b, (f, _) in zip(body, pick)])
            out.append((i, text(canon(inst)), value(tuple(sem.code(v) for _, v in pick), sem)))
    return Counter(out)


def value(v, sem):
    "The product of the factors of a grounding."
    t = sem.ref.one
    for x in (v if isinstance(v, tuple) else (v,)):
        t = sem.ref.times(t, sem.back(x))
    return solve.strip_zero(t)


def seen(g, sem):
    from dyna import is_const
    names = {}
    r = g.rule
    inst = (HEAD, from_dyna(r.head, names), *[('const',) if is_const(b) else from_dyna(b, names) for b in r.body])
    return (g.i, text(canon(inst)), value(g.value, sem)), r.i


def run_groundings(case):
    sem = Sem(case['S'])
    p, c = program(case, sem), chart_program(case, sem)
    before = (p.__repr__(color=False), c.__repr__(color=False))
    want = brute(case, sem)
    what = f'groundings of\n{before[0]}\non\n{before[1]}\n'
    its = []
    for n in case['nest']:              # abandoned, interleaved enumerations
        it = iter(p.groundings(c))
        got = []
        for _ in range(n):
            g = next(it, None)
            if g is None:
                break
            got.append(seen(g, sem)[0])
        its.append((it, got))
    got = []
    for g in p.groundings(c):
        key, i = seen(g, sem)
        require(i == g.i, f'{what}a grounding of rule {g.i} is labelled {i}')
        got.append(key)
    require(Counter(got) == want, lambda: f'{what}are {sorted(Counter(got).items())}\nexpected {sorted(want.items())}')
    order = case['order']
    for n, (it, g0) in enumerate(its if order == 'fifo' else its[::-1]):
        if case['finish'] >> n & 1:
            for g in it:
                g0.append(seen(g, sem)[0])
            require(Counter(g0) == want, lambda: f'{what}when enumerated in between are {sorted(Counter(g0).items())}\nexpected {sorted(want.items())}')
        else:
            it.close()
        require(not Counter(g0) - want, f'{what}include {Counter(g0) - want}')
    require((p.__repr__(color=False), c.__repr__(color=False)) == before, f'{what}but the arguments changed')
    from dyna import is_const
    q = p.instantiate(c)
    have = Counter()
    for r in q.rules:
        names = {}
        have[text(canon((HEAD, from_dyna(r.head, names), *[('const',) if is_const(b) else from_dyna(b, names) for b in r.body])))] += 1
    insts = Counter()
    for (i, t, v), n in want.items():
        insts[t] += n
    require(have == insts, f'{what}instantiate gives {have}, expected {insts}')
    big = any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules'])
    return Info(big and max(Counter(i for (i, _, _) in want.elements()).values(), default=0) > 1, [case['S'], 'nested' if case['nest'] else 'plain'])


@st.composite
def chart(draw, prog, names=('poly', 'float', 'bool', 'minplus', 'maxtimes')):
    c = draw(prog)
    c = solve.ordered(c)
    atoms = [b for _, body in c['rules'] for b in body if isinstance(b, list) and not progs.is_builtin(dec(b))]
    facts = []

    def inst(b, env):
        if isinstance(b, dict):
            if b['v'] not in env:
                env[b['v']] = draw(gen.weighted((6, I(0, 2)), (1, st.just(progs.v('A'))), (1, st.just(progs.v('B'))), (1, st.just(['f', 0]))))
            return env[b['v']]
        return [b[0], *[inst(x, env) for x in b[1:]]] if isinstance(b, list) else b
    if atoms:
        for _ in range(draw(I(1, 7))):
            facts.append([inst(draw(st.sampled_from(atoms)), {}), draw(st.sampled_from([2, 3, 5, 7]))])
    return {'rules': c['rules'], 'chart': facts, 'S': draw(st.sampled_from(names)), 'nest': draw(st.lists(I(0, 4), max_size=3)),
            'order': draw(st.sampled_from(['fifo', 'lifo'])), 'finish': draw(I(0, 7))}


def programs(**kw):
    return gen.weighted((3, progs.datalog(rr=False, structs=False, recursion=True, n_rules=(1, 4), **kw)), (1, progs.datalog(rr=False, structs=True, n_rules=(1, 3), **kw)))


CHECKS = [Check('step', chart(gen.weighted((3, programs()), (1, programs(builtins=True)))), run_step, quick=4000),
          Check('groundings', chart(programs()), run_groundings, quick=4000)]
