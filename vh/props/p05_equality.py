"""Equality of rules and programs is variant equality, with a matching hash."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen, rulegen
from ..rulegen import rule, variant_of, near, ref, same_rule, is_const
from ..terms import to_dyna, rule_text

PROPERTY = 'P05'
RULE = ('Pairs of rules (a rule with a renamed and reordered copy, or with a near miss: one variable occurrence, constant, subgoal or argument order changed; separate or common variable objects) and pairs of '
        'programs built from them with duplicates, compared with brute force over all alignments. Non-trivial: the rules have two subgoals sharing a variable and differ textually.')
INF = float('inf')


def code(r, env=None):
    from dyna import Rule
    env = {} if env is None else env
    h, body = r
    return Rule(to_dyna(h, env), *[to_dyna(b, env) for b in body])


def run_rules(case):
    r, s = ref(case['r']), ref(case['s'])
    env = {}
    a, b = code(r, env), code(s, env if case['share'] else {})
    want = same_rule(r, s)
    what = f'{rule_text(*r)}   {rule_text(*s)}'
    require(a.same(b) == want, f'same is {a.same(b)}: {what}')
    require(b.same(a) == want, f'same (the other way) is {b.same(a)}: {what}')
    require(a.same(a) and b.same(b), f'a rule is not the same as itself: {what}')
    require(not want or a._hash_cache == b._hash_cache, f'equal rules hash differently: {what}')
    require(not want or a.signature == b.signature, f'equal rules have different signatures: {what}')
    multi = len(r[1]) > 1 and str(case['r']) != str(case['s'])
    return Info(multi, ['same' if want else 'different'])


def ref_fold(rules, one=1.0):
    "{(representative skeleton): total} by brute force."
    acc = []
    for h, body in rules:
        c = one
        for b in body:
            if is_const(b):
                c = c * b
        sk = (h, tuple(b for b in body if not is_const(b)))
        for e in acc:
            if same_rule(e[0], sk):
                e[1] += c
                break
        else:
            acc.append([sk, c])
    return acc


def ref_metric(A, B):
    a, b = ref_fold(A), ref_fold(B)
    if len(a) != len(b):
        return INF
    d = 0
    for sk, c in a:
        m = [x for x in b if same_rule(sk, x[0])]
        if not m:
            return INF
        if sk[1]:
            if c != m[0][1]:
                return INF
        else:
            d = max(d, abs(c - m[0][1]))
    return d


def run_programs(case):
    from dyna import Program
    A, B = [ref(r) for r in case['p']], [ref(r) for r in case['q']]
    p, q = Program([code(r) for r in A]), Program([code(r) for r in B])
    ga = rulegen.groups(A + B)
    count = [(sum(r is x for r in g for x in A), sum(r is x for r in g for x in B)) for g in ga]
    want = all(x == y for x, y in count)
    what = f'{p.__repr__(color=False)}\n{q.__repr__(color=False)}'
    require((p == q) == want and (q == p) == want, f'equality is {p == q}, {q == p}, should be {want}:\n{what}')
    require(not want or hash(p) == hash(q), f'equal programs hash differently:\n{what}')
    require(p == p and p == Program(list(p.rules)), f'not equal to itself:\n{what}')
    al = p.align(q)
    left, right = [i for i, _ in al if i is not None], [j for _, j in al if j is not None]
    require(sorted(left) == list(range(len(A))) and sorted(right) == list(range(len(B))), f'alignment {al} does not list each rule once:\n{what}')
    n = 0
    for i, j in al:
        if i is not None and j is not None:
            n += 1
            require(same_rule(A[i], B[j]), f'alignment {al} pairs different rules {i}, {j}:\n{what}')
    require(n == sum(min(x) for x in count), f'alignment {al} is not the largest ({sum(min(x) for x in count)} pairs):\n{what}')
    d, m = p.metric(q), ref_metric(A, B)
    require(d == m or abs(d - m) < 1e-9, f'distance {d}, expected {m}:\n{what}')
    require(q.metric(p) == d, f'the distance is not symmetric: {d}, {q.metric(p)}:\n{what}')
    try:
        p.assert_equal(q)
        ok = True
    except AssertionError:
        ok = False
    require(ok == (m <= 1e-5), f'assert_equal {"accepts" if ok else "refuses"} at distance {m}:\n{what}')
    return Info(any(len(r[1]) > 1 for r in A) and sum(x > 0 and y > 0 for x, y in count), ['equal' if want else 'close' if m < INF else 'apart', 'dup' if any(x > 1 for x, _ in count) else 'nodup'])


@st.composite
def pairs(draw):
    r = draw(rule(bare=True))
    s = draw(gen.weighted((3, st.just('v')), (4, st.just('n')), (1, st.just('o'))))
    s = variant_of(draw, r) if s == 'v' else near(draw, r) if s == 'n' else draw(rule(bare=True))
    return {'r': r, 's': s, 'share': draw(st.booleans())}


@st.composite
def symmetric(draw):
    "Rules whose subgoals differ only in their variables."
    k = draw(I(3, 4))
    vs = rulegen.VARS[:k]
    body = [['e', draw(st.sampled_from(vs)), draw(st.sampled_from(vs))] for _ in range(draw(I(2, 4)))]
    h = draw(st.sampled_from([['a'], ['p', vs[0]]]))
    r = [h, body]
    return {'r': r, 's': near(draw, r) if draw(st.booleans()) else variant_of(draw, r), 'share': draw(st.booleans())}


@st.composite
def programs(draw):
    base = draw(st.lists(gen.weighted((2, rule(max_body=3, bare=True)), (1, symmetric().map(lambda c: c['r'])), (1, st.tuples(st.sampled_from([['a'], ['p', 0], ['p', rulegen.VARS[0]]]), st.sampled_from([[2], [3], [0.5, 2]])).map(list))),
                         min_size=1, max_size=4))
    p = base + draw(st.lists(st.sampled_from(base), max_size=2))
    q = [variant_of(draw, r) for r in p]
    for _ in range(draw(gen.weighted((3, st.just(0)), (3, st.just(1)), (1, st.just(2))))):
        i = draw(I(0, max(0, len(q) - 1)))
        k = draw(st.sampled_from(['near', 'drop', 'dup', 'other', 'num', 'num']))
        if not q:
            continue
        if k == 'near':
            q[i] = near(draw, q[i])
        elif k == 'drop':
            q.pop(i)
        elif k == 'dup':
            q.append(variant_of(draw, q[i]))
        elif k == 'other':
            q[i] = variant_of(draw, draw(st.sampled_from(p)))
        else:
            q[i] = [q[i][0], [b + draw(st.sampled_from([0.5, 1e-7])) if not isinstance(b, (list, dict)) else b for b in q[i][1]]]
    return {'p': p, 'q': draw(st.permutations(q))}


I = st.integers
CHECKS = [Check('rules', gen.weighted((2, pairs()), (1, symmetric())), run_rules, quick=6000), Check('programs', programs(), run_programs, quick=3000)]
