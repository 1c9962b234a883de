"""Constant folding keeps the meaning and is canonical."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen, rulegen, solve
from ..rulegen import rule, variant_of, ref, same_rule, is_const
from ..solve import Sem, crule, _Val
from ..terms import from_dyna

PROPERTY = 'P07'
RULE = ('Random programs with planted duplicates in six semirings: contributions of one rule split into renamed, reordered copies, coefficients split into factors and scattered, zero coefficients, cancelling coefficients. '
        'The folded program must be the brute-force folded one, fold to itself, and equal the folding of the original with its rules, factors and splits shuffled. Non-trivial: at least two rules merge into one '
        'with subgoals, or a rule is dropped.')
I = st.integers


def code(rules, sem):
    from dyna import Program
    return Program([crule(h, [sem.code(sem.val(b)) if is_const(b) else b for b in body], sem) for h, body in rules], semiring=sem.cls())


def neg(sem, k):
    return k


def ref_fold(rules, sem):
    S = sem.ref
    acc = []
    for h, body in rules:
        c = S.one
        for b in body:
            if is_const(b):
                c = S.times(c, sem.val(b))
        if sem.same(c, S.zero):
            continue
        sk = (h, tuple(b for b in body if not is_const(b)))
        for e in acc:
            if same_rule(e[0], sk):
                e[1] = S.plus(e[1], c)
                break
        else:
            acc.append([sk, c])
    return [e for e in acc if not sem.same(e[1], S.zero)]


def read(p, sem):
    "A program in reference form: [(skeleton, coefficient)] with the constants multiplied."
    from dyna import is_const as code_const
    out = []
    for r in p.rules:
        names = {}
        h = from_dyna(r.head, names)
        c, xs = sem.ref.one, []
        for b in r.body:
            if code_const(b):
                c = sem.ref.times(c, sem.back(b))
            else:
                xs.append(from_dyna(b, names))
        out.append(((h, tuple(xs)), c))
    return out


def check_fold(q, want, sem, what):
    got = read(q, sem)
    for i, (a, _) in enumerate(got):
        require(not any(same_rule(a, b) for b, _ in got[:i]), f'{what}\nhas two rules for one pattern')
    require(len(got) == len(want), f'{what}\nhas {len(got)} rules, expected {len(want)}: {want}')
    for sk, c in want:
        m = [x for s, x in got if same_rule(s, sk)]
        require(m and sem.same(m[0], c), f'{what}\ngives {sk} the coefficient {m}, expected {c}')


def run(case):
    sem = Sem(case['S'])
    A, B = [ref(r) for r in case['p']], [ref(r) for r in case['q']]
    p = code(A, sem)
    before = p.__repr__(color=False)
    q = p.constant_folding()
    want = ref_fold(A, sem)
    what = f'folding of\n{before}\nis\n{q.__repr__(color=False)}'
    check_fold(q, want, sem, what)
    require(p.__repr__(color=False) == before, f'{what}\nand changed its argument')
    again = q.constant_folding()
    require(again == q, f'{what}\nfolding again gives\n{again.__repr__(color=False)}')
    p2 = code(B, sem)
    q2 = p2.constant_folding()
    check_fold(q2, ref_fold(B, sem), sem, f'folding of\n{p2.__repr__(color=False)}\nis\n{q2.__repr__(color=False)}')
    if sem.name not in ('maxtimes', 'damped'):         # the factors of rounded products may differ in the last digit
        require(q == q2, f'{what}\nbut with rules, factors and coefficients rearranged\n{p2.__repr__(color=False)}\nfolds to\n{q2.__repr__(color=False)}')
    require(p.metric(p2) <= 1e-9 and q.metric(p2) <= 1e-9, f'{what}\nis at distance {p.metric(p2)} from its rearrangement\n{p2.__repr__(color=False)}')
    # folded one rule at a time
    for r in p.rules:
        f = p.constant_folding_rhs(r)
        w = ref_fold([([x for x in A][p.rules.index(r)])], sem) if sum(r is x for x in p.rules) == 1 else None
        if w is not None:
            require((f is None) == (not w), f'folding the rule {r.__repr__(color=False)} alone gives {f}')
    merged = len(A) > len(want)
    return Info(merged and any(sk[1] for sk, _ in want), [case['S'], 'merged' if merged else 'distinct'])


COEF = {'poly': [1, 2, 3], 'float': [1, 2, 3, 0.5], 'bool': [1], 'minplus': [0, 1, 2], 'maxtimes': [1, 0.5, 0.25]}


@st.composite
def cases(draw):
    S = draw(st.sampled_from(['poly', 'float', 'float', 'bool', 'minplus', 'maxtimes']))
    base = draw(st.lists(gen.weighted((2, rule(max_body=3, consts=False)), (1, sym(draw))), min_size=1, max_size=4))
    p, q = [], []
    for r in base:
        k = draw(I(1, 3))
        cs = [draw(st.sampled_from(COEF[S])) for _ in range(k)]
        for c in cs:
            p.append(spread(draw, r, [c], S))
        if S == 'float' and draw(I(0, 6)) == 0:                  # contributions that cancel
            p.append(spread(draw, r, [-sum(cs)], S))
            continue
        if draw(I(0, 7)) == 0 and S in ('float', 'poly'):
            p.append(spread(draw, r, [0], S))
        mode = draw(st.sampled_from(['same', 'total', 'total']))
        if mode == 'same' or S in ('minplus', 'maxtimes'):
            for c in draw(st.permutations(cs)):
                q.append(spread(draw, r, [c], S))
        elif S == 'bool':
            q.append(spread(draw, r, [1], S))
        else:
            t, n = sum(cs), draw(I(1, 3))
            q += [spread(draw, r, [t - (n - 1)], S)] * (t - (n - 1) != 0) + [spread(draw, r, [1], S) for _ in range(n - 1)]
    return {'S': S, 'p': draw(st.permutations(p)), 'q': draw(st.permutations(q))}


def sym(draw):
    vs = rulegen.VARS[:3]
    e = st.tuples(st.just('e'), st.sampled_from(vs), st.sampled_from(vs)).map(list)
    return st.tuples(st.sampled_from([['a'], ['p', vs[0]]]), st.lists(e, min_size=2, max_size=4)).map(list)


def spread(draw, r, cs, S):
    "A variant of the rule with the coefficient as scattered factors."
    h, body = variant_of(draw, r)
    [c] = cs
    fs = [c]
    if S == 'float' and draw(I(0, 2)) == 0:
        fs = [c * 2, 0.5]
    elif S == 'minplus' and c and draw(st.booleans()):
        fs = [c - 1, 1]
    elif S in ('poly', 'float') and c == 1 and draw(I(0, 1)):
        fs = []
    for f in fs:
        body = list(body)
        body.insert(draw(I(0, len(body))), f)
    return [h, body]


CHECKS = [Check('fold', cases(), run, quick=4000)]
