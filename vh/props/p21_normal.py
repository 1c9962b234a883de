"""Normalisations preserve the meaning and reach their normal form."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import dec, enc, tvars, unifiable_apart, unify, V
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys
from ..refeval import fnkey, is_builtin, eval_builtin, NOTREADY

PROPERTY = 'P21'
RULE = ('Random programs (repeated, nested and long bodies, constants, equations, comparisons, arithmetic, heads with unbound variables); each normalisation, sometimes '
        'two in a row. The reference evaluator compares every item the original defines on random data, and the shape of the result is checked on our own copy of its '
        'rules. Non-trivial: the normalisation changed some rule and some item of the program has a value.')


def subgoals(b):
    return [x for x in b if isinstance(x, tuple) and not is_builtin(x)]


def linear(new, what):
    for h, b in new:
        s = subgoals(b)
        for i in range(len(s)):
            for j in range(i):
                # subgoals of one rule share variables
                require(unify(s[i], s[j], {}) is None, f'{what}subgoals {progs.show(s[j])} and {progs.show(s[i])} of one rule still unify')


def binary(new, what):
    for h, b in new:
        require(len(b) <= 2, f'{what}a rule still has {len(b)} subgoals')


def flat(new, what):
    for h, b in new:
        for x in (h,) + b:
            if not isinstance(x, tuple):
                continue
            if x[0] == '=' and len(x) == 3:
                require(isinstance(x[1], V), f'{what}{progs.show(x)} is not an equation for a variable')
                if isinstance(x[2], tuple):
                    require(all(isinstance(a, V) for a in x[2][1:]), f'{what}{progs.show(x)} is not a shallow equation')
            else:
                require(all(isinstance(a, V) for a in x[1:]), f'{what}{progs.show(x)} is not flat')


def no_eq(new, what):
    for h, b in new:
        require(not any(isinstance(x, tuple) and x[0] == '=' and len(x) == 3 for x in b), f'{what}an equation is left')


def none_ready(new, what):
    for h, b in new:
        for x in b:
            if is_builtin(x) and not isinstance(x, V) and x[0] != '$not_matches':
                require(eval_builtin(x, {}) is NOTREADY, f'{what}{progs.show(x)} could have been run')


def folded(new, what):
    from ..terms import canon
    seen = set()
    for h, b in new:
        cs = [x for x in b if not isinstance(x, (tuple, V))]
        require(len(cs) <= 1, f'{what}a rule still has {len(cs)} constants')
        k = canon(('$', h, *sorted((x for x in b if isinstance(x, (tuple, V))), key=str)))
        require(len(cs) != len(b) or (canon(h), len(cs) and True) not in seen or k not in seen, f'{what}two constant rules for {progs.show(h)}')
        if len(cs) == len(b):
            require(k not in seen, f'{what}two constant rules for {progs.show(h)}')
        seen.add(k)


def two(p):
    return p.binarize()


FORMS = {
    'linearize': (lambda p: p.linearize(), linear),
    'binarize': (lambda p: p.binarize(), binary),
    'flatten': (lambda p: p.normalize_unification2(), flat),
    'snap': (lambda p: p.snap_unifications(), no_eq),
    'run': (lambda p: p.run_builtins(), none_ready),
    'fold': (lambda p: p.constant_folding(), folded),
    'sort': (lambda p: p.sort(), None),
    'fresh': (lambda p: p.fresh(), None),
}


def run_normal(case):
    p0 = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    q = p0
    what = ''
    changed = False
    for name in case['how']:
        f, shape = FORMS[name]
        old = q
        q = f(q)
        what = f'{" ".join(case["how"])} of\n{p0.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n'
        new = ref_rules(q)
        changed = changed or new != ref_rules(old)
        if shape is not None:
            shape(new, what)
    ks = idb_keys(case)

    def keep(f):
        return fnkey(f) in ks
    compare(rules, new, data, keep, what, base=base)
    return Info(changed and any(keep(f) for f in base.v), [*case['how'][:1], 'changed' if changed else 'same'])


kw = dict(n_rules=(2, 5), n_idb=(1, 3), max_body=4, arities=(0, 1, 2, 2, 3))
I = st.integers


@st.composite
def rich(draw, prog):
    "Repeat subgoals (renamed or specialised), add equations and built-ins."
    c = draw(prog)
    rules = [[h, list(b)] for h, b in c['rules']]
    for _ in range(draw(I(0, 4))):
        i = draw(I(0, len(rules) - 1))
        h, b = rules[i]
        k = draw(I(0, 8))
        subs = [x for x in b if isinstance(x, list) and len(x) > 1 and isinstance(x[0], str) and x[0][0] in 'rpq']
        vs = progs.tv(['', h, *b])
        if not subs:
            continue
        x = draw(st.sampled_from(subs))
        if k == 0:
            b.insert(draw(I(0, len(b))), list(x))
        elif k == 1:
            a = draw(I(1, len(x) - 1))
            b.insert(draw(I(0, len(b))), [*x[:a], draw(st.sampled_from(vs or [0])), *x[a + 1:]])
        elif k == 2:
            b.insert(draw(I(0, len(b))), draw(st.sampled_from([2, 3, 0, 1, 0.5])))
        elif k == 3:
            b.insert(draw(I(0, len(b))), ['=', draw(st.sampled_from(vs or [0])), draw(st.sampled_from((vs or [0]) + [0, 1]))])
        elif k == 4:
            b.insert(draw(I(0, len(b))), ['=', ['s', draw(st.sampled_from(vs or [0]))], ['s', draw(st.sampled_from((vs or [0]) + [1]))]])
        elif k == 5:
            b.insert(draw(I(0, len(b))), [draw(st.sampled_from(['<', '!=', '=='])), draw(st.sampled_from([0, 1, 2])), draw(st.sampled_from([0, 1, 2]))])
        elif k >= 7:
            # a near copy of the rule: merged with it only if nothing but the coefficient differs
            nb = list(b)
            m = draw(I(0, 4))
            if m == 0:
                nb.append(draw(st.sampled_from([2, 3, 5])))
            elif m == 1:
                nb.append(list(x))
            elif m == 2:
                a = draw(I(1, len(x) - 1))
                nb[nb.index(x)] = [*x[:a], draw(st.sampled_from(vs or [0])), *x[a + 1:]]
            elif m == 3:
                nb = nb[::-1]
            else:
                h = [h[0]] + [draw(st.sampled_from(h[1:])) for _ in h[1:]]
            rules.insert(draw(I(0, len(rules))), [h, nb])
        else:
            b.insert(draw(I(0, len(b))), ['is', v_('R'), [draw(st.sampled_from('+*-')), draw(st.sampled_from([0, 1, 2])), draw(st.sampled_from([0, 1, 2]))]])
            if len(h) > 1:
                rules[i][0] = [*h[:-1], v_('R')]
    return {**c, 'rules': rules}


def v_(x):
    return {'v': x}


@st.composite
def near_copies(draw):
    "One predicate defined by several variants of the same rule."
    vs = [v_(x) for x in 'XYZ']
    var = st.sampled_from(vs)
    atom = st.one_of(st.tuples(st.just('r2'), var, var).map(list), st.tuples(st.just('r1'), var).map(list))
    body = draw(st.lists(atom, min_size=1, max_size=3))
    used = progs.tv(['', *body])
    h = ['p', *[draw(st.sampled_from(used)) for _ in range(draw(I(1, 2)))]]
    rules = []
    for _ in range(draw(I(2, 4))):
        b, hh = list(body), list(h)
        for _ in range(draw(I(0, 2))):
            m = draw(I(0, 5))
            if m == 0:
                b = draw(st.permutations(b))
            elif m == 1:
                b.insert(draw(I(0, len(b))), draw(st.sampled_from(b)))
            elif m == 2:
                i = draw(I(0, len(b) - 1))
                if isinstance(b[i], list):
                    b[i] = [b[i][0]] + [draw(st.sampled_from(used)) for _ in b[i][1:]]
            elif m == 3:
                hh = [hh[0]] + [draw(st.sampled_from(used)) for _ in hh[1:]]
            else:
                b.insert(draw(I(0, len(b))), draw(st.sampled_from([2, 3, 5, 1, 0])))
        ren = draw(st.permutations('XYZ'))
        m = {x: v_(y) for x, y in zip('XYZ', ren)}

        def rn(t):
            return m[t['v']] if isinstance(t, dict) else [t[0], *map(rn, t[1:])] if isinstance(t, list) else t
        live = progs.tv(['', *[x for x in b if isinstance(x, list)]])
        hh = [hh[0]] + [x if x in live else 0 for x in hh[1:]]
        rules.append([rn(hh), [rn(x) for x in b]])
    rules.append([['goal'], [['p', *vs[:len(h) - 1]]]])
    return progs.finish(draw, rules, (0, 1, 2), None)


BASE = gen.weighted((5, progs.datalog(rr=True, **kw)), (2, progs.datalog(rr=False, **kw)), (2, progs.datalog(rr=True, structs=True, **kw)),
                    (1, progs.datalog(rr=False, structs=True, **kw)), (3, progs.datalog(rr=True, builtins=True, **kw)), (2, progs.template()))
HOW = gen.weighted((4, gen.weighted((1, st.just('fold')), (3, st.sampled_from(sorted(FORMS)))).map(lambda x: [x])), (1, st.lists(st.sampled_from(sorted(FORMS)), min_size=2, max_size=3)))
CASES = gen.weighted((5, st.builds(lambda c, how: {**c, 'how': how}, rich(BASE), HOW)), (1, near_copies().map(lambda c: {**c, 'how': ['fold']})))
CHECKS = [Check('normal', lambda: CASES, run_normal, quick=8000, case_timeout=5)]
