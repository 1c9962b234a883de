"""Small rules with shared variables, near-variants of them, and a brute-force model of rule equality."""
from itertools import permutations

from hypothesis import strategies as st

from . import gen
from .progs import v
from .terms import variant, dec, is_t, V

I = st.integers
VARS = [v(x) for x in 'XYZW']


def is_const(b):
    return not isinstance(b, (tuple, V))


def same_rule(r, s):
    "Variants of each other up to the order of subgoals (rules in reference form)."
    (h, a), (g, b) = r, s
    if len(a) != len(b):
        return False
    R = ('$r', h, *a)
    return any(variant(R, ('$r', g, *p)) for p in set(permutations(b)))


def groups(rules, key=same_rule):
    out = []
    for r in rules:
        for g in out:
            if key(g[0], r):
                g.append(r)
                break
        else:
            out.append([r])
    return out


@st.composite
def rule(draw, max_body=4, consts=True, heads=('a', 'b', 'p'), bare=False):
    arg = gen.weighted((8, st.sampled_from(VARS[:draw(I(1, 4))])), (1, I(0, 1)), (1, st.just(['f', VARS[0]])))
    fns = {'a': 0, 'b': 0, 'p': 1, 'e': 2, 'q': 1}

    def atom(f):
        return [f, *[draw(arg) for _ in range(fns[f])]]
    body = [atom(draw(st.sampled_from(['e', 'e', 'q', 'p', 'a']))) for _ in range(draw(I(0, max_body)))]
    if draw(I(0, 9)) == 0:
        body.append([draw(st.sampled_from(['<', '='])), draw(arg), draw(arg)])
    if bare and draw(I(0, 7)) == 0:         # the value of a variable
        body.insert(draw(I(0, len(body))), draw(st.sampled_from(VARS[:3])))
    if consts and draw(I(0, 2)) == 0:
        body.insert(draw(I(0, len(body))), draw(st.sampled_from([2, 3, 0.5])))
    if bare and draw(I(0, 15)) == 0:
        return [VARS[0], body]
    return [atom(draw(st.sampled_from(heads))), body]


def rename_json(j, m):
    if isinstance(j, dict):
        return v(m.get(j['v'], j['v']))
    if isinstance(j, list):
        return [j[0], *[rename_json(x, m) for x in j[1:]]] if j and isinstance(j[0], str) else [rename_json(x, m) for x in j]
    return j


def variant_of(draw, r):
    "A renamed, reordered copy."
    h, body = r
    body = draw(st.permutations(body))
    names = draw(st.permutations(['X', 'Y', 'Z', 'W']))
    m = dict(zip(['X', 'Y', 'Z', 'W'], names))
    return [rename_json(h, m), [rename_json(b, m) for b in body]]


def near(draw, r):
    "A rule close to `r`: usually not a variant."
    h, body = r
    body = list(body)
    k = draw(I(0, 6))
    if k == 0 and body:
        body.append(draw(st.sampled_from(body)))
    elif k == 1 and body:
        body.pop(draw(I(0, len(body) - 1)))
    elif k == 2:
        a, b = draw(st.sampled_from('XYZW')), draw(st.sampled_from('XYZW'))
        h, body = rename_json(h, {a: b}), [rename_json(x, {a: b}) for x in body]
    elif k == 3 and body:                                   # one occurrence changes
        i = draw(I(0, len(body) - 1))
        a, b = draw(st.sampled_from('XYZW')), draw(st.sampled_from('XYZW'))
        body[i] = rename_json(body[i], {a: b})
    elif k == 4 and body:
        i = draw(I(0, len(body) - 1))
        if isinstance(body[i], list) and len(body[i]) == 3:
            body[i] = [body[i][0], body[i][2], body[i][1]]
        elif not isinstance(body[i], (list, dict)):
            body[i] = body[i] + 1
    elif k == 5:
        h = rename_json(h, {draw(st.sampled_from('XYZW')): draw(st.sampled_from('XYZW'))})
    return variant_of(draw, [h, body])


def ref(r):
    h, body = r
    return dec(h), tuple(dec(b) for b in body)
