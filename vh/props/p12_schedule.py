"""The answer does not depend on scheduling or on how data arrives."""
import hashlib

from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, ref_rules, code_program, chart_of, check_chart, ordered, with_semiring, crule, _Val
from ..terms import dec, tvars, to_dyna, from_dyna, text, canon
from ..refeval import fnkey

PROPERTY = 'P12'
RULE = ('Random programs (self-joins, recursion, facts with variables for the non-ground solver) and data, given in random batches (a fact may come in several parts, and parts may be pushed one '
        'by one) with runs and queries in between, under random priority functions and both queue types. After every run the chart is compared with the reference chart of the facts given so far. '
        'Non-trivial: at least two batches derive something and some rule joins two subgoals or is recursive.')


def priority(kind, salt):
    if kind == 'none':
        return None
    count = [0]

    def f(item):
        t = text(canon(from_dyna(item)))
        if kind == 'hash':
            return int(hashlib.md5(f'{salt}{t}'.encode()).hexdigest()[:4], 16) % 5 + 1
        if kind == 'const':
            return 1
        if kind == 'functor':
            return int(hashlib.md5(f'{salt}{t[:2]}'.encode()).hexdigest()[:4], 16) % 4 + 1
        count[0] += 1
        return {'lifo': count[0], 'fifo': -count[0], 'zigzag': count[0] * (-1) ** (count[0] // 3)}[kind]
    return f


def part(sem, k, i, n):
    "The i-th of n parts of a weight: they sum to the whole (idempotent semirings: a worse value first)."
    v = sem.val(k)
    if n == 1:
        return v
    if sem.name == 'poly':
        if i == n - 1:
            return tuple(x - (n - 1) * (x // n) for x in v)
        return tuple(x // n for x in v)
    if sem.name in ('float', 'damped'):
        return v / 2 ** min(i + 1, n - 1)
    if sem.name == 'minplus':
        return v + (n - 1 - i)
    if sem.name == 'maxtimes':
        return v / (n - i)
    return v


def run_schedule(case):
    from dyna import Program
    from dyna.util.bucket_queue import BucketQueue
    sem = Sem(case['S'])
    rules, facts = ref_rules(case, sem)
    p = code_program(case, sem, data=False)
    if case['perm']:
        rs = list(p.rules)
        perm = sorted(range(len(rs)), key=lambda i: hashlib.md5(f'{case["perm"]}{i}'.encode()).digest())
        p = Program([rs[i] for i in perm], inputs=p.inputs, outputs=p.outputs, semiring=p.semiring)
    kw = {}
    if case['queue'] == 'bucket':
        kw['AgendaType'] = BucketQueue
    s = (p.solver2 if case['how'] == 'solver2' else p.solver)(priority=priority(case['prio'], case['salt']), **kw)
    parts = {}
    for _, b in case['batches']:
        for i in b:
            parts[i] = parts.get(i, 0) + 1
    seen, given, ran, what = {}, [], 0, f'{case["how"]}, batches {case["batches"]} on\n{p.__repr__(color=False)}\ndata {case["data"]}'
    last = 0
    for op, b in case['batches']:
        batch = []
        for i in b:
            j = seen.get(i, 0)
            seen[i] = j + 1
            f, k = case['data'][i]
            batch.append((dec(f), part(sem, k, j, parts[i])))
        batch = [(f, v) for f, v in batch if v != sem.ref.zero and solve.strip_zero(v) != ()]
        given += [(f, (_Val(v),)) for f, v in batch]
        A = ref_chart(case, sem, data=given)
        last += len(A.v) > len(given)
        rs = [crule(f, [sem.code(v)], sem) for f, v in batch]
        if op == 'update':
            for f, v in batch:
                s.update(to_dyna(f, {}), sem.code(v))
            s()
        elif op == 'query':
            for f, v in batch:
                s.update(to_dyna(f, {}), sem.code(v))
            for q in case['outputs']:
                got = s.user_query(to_dyna(dec(q), {}))
                B = chart_of(got, sem)
                ks = fnkey(dec(q))
                check_chart(A, B, sem, f'query {text(dec(q))} of {what}', keep=lambda f: fnkey(f) == ks)
        else:
            s(Program(rs, semiring=sem.cls()))
        check_chart(A, chart_of(s.sol(), sem), sem, f'after {len(given)} facts, {what}')
        require(not s.agenda, 'work is left on the agenda')
    join = any(sum(isinstance(b, list) for b in body) > 1 for _, body in case['rules'])
    rec = solve.rec(case)
    return Info(last > 1 and (join or rec), [case['S'], case['how'], case['prio'], case['queue'], 'recursive' if rec else 'acyclic'])


I = st.integers


@st.composite
def schedule(draw, prog, ground):
    c = draw(prog)
    n = len(c['data'])
    idx = draw(st.permutations(range(n))) if n else []
    again = draw(st.lists(st.integers(0, n - 1), max_size=4)) if n else []
    seq = list(idx) + list(again)
    cuts = sorted(draw(st.lists(I(0, len(seq)), max_size=4)))
    bs, a = [], 0
    for x in [*cuts, len(seq)]:
        bs.append([draw(st.sampled_from(['load', 'load', 'update', 'query'])), seq[a:x]])
        a = x
    how = draw(st.sampled_from(['solver', 'solver', 'solver2'])) if ground else 'solver2'
    return {**c, 'batches': bs, 'how': how, 'perm': draw(I(0, 3)), 'salt': draw(I(0, 50)), 'queue': draw(st.sampled_from(['heap', 'heap', 'bucket'])),
            'prio': draw(st.sampled_from(['none', 'hash', 'hash', 'const', 'functor', 'lifo', 'fifo', 'zigzag']))}


@st.composite
def selfjoin(draw):
    "Rules over one relation that use it several times, and derive into it."
    v = progs.v
    arg = st.sampled_from([v('X'), v('Y'), v('X'), 0])
    rules = []
    for i in range(draw(I(1, 3))):
        body = [['r1', draw(arg)] for _ in range(draw(I(1, 3)))]
        if draw(st.booleans()):
            body.insert(draw(I(0, len(body))), ['p', draw(arg)])
        xs = progs.tv(['', *body]) or [0]
        h = draw(st.sampled_from([['goal'], ['p', xs[0]], ['p', xs[-1]], ['p', 0]]))
        if h[0] == 'p' and any(b[0] == 'p' for b in body):
            body.append(['w0'])
        rules.append([h, body])
    rules.append([['goal'], [['p', v('X')]] + [['p', draw(arg)] for _ in range(draw(I(0, 2)))]])
    data = [[['r1', i], [2, 3, 5][i]] for i in range(draw(I(1, 3)))] + ([[['w0'], ['w', 2]]] if 'w0' in str(rules) else [])
    return {'rules': rules, 'inputs': [], 'outputs': [['goal'], ['p', v('X')]], 'data': data}


def ground_programs():
    flat = dict(recursion=False, eps_nonrec=False, n_rules=(2, 5))
    rec = dict(n_rules=(2, 5), rec_p=2)
    return gen.weighted((3, progs.datalog(rr=True, **rec)), (2, progs.datalog(rr=True, **flat)), (1, progs.datalog(rr=True, builtins=True, **flat)),
                        (1, progs.datalog(rr=True, structs=True, **rec)), (3, progs.template()), (4, selfjoin()))


def open_programs():
    from .p11_nonground import open_data
    flat = dict(recursion=False, eps_nonrec=False, n_rules=(2, 5))
    rec = dict(n_rules=(2, 4), rec_p=2)
    return open_data(gen.weighted((2, progs.datalog(rr=False, **rec)), (4, progs.datalog(rr=False, **flat)), (3, selfjoin())))


CASES = schedule(ground_programs().map(ordered).flatmap(with_semiring()), True)
OCASES = schedule(open_programs().map(ordered).flatmap(with_semiring()), False)
CHECKS = [Check('schedule', lambda: CASES, run_schedule, quick=2500, case_timeout=5),
          Check('nonground', lambda: OCASES, run_schedule, quick=1200, case_timeout=5)]
