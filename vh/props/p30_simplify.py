"""Comparing and combining simple types is sound."""
from itertools import combinations

from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, typemodel as tm
from ..terms import V, dec, enc, tvars, text, to_dyna, from_dyna
from .p29_propagate import apply

PROPERTY = 'P30'
RULE = ('Random simple types (patterns with user constraints, $free and $bound), random theories and a finite model satisfying them, in which items may contain unbound variables. The set of items of '
        'each type is enumerated; covers, same, disjoint, intersect, anti_unifier, dedup and disjoin must agree with inclusion, overlap and union of these sets (as far as the result claims anything). '
        'Non-trivial: two types overlap, and one has a constraint.')
I = st.integers


def items(m, head, body):
    "The items of a simple type in the model (with arguments in its universe)."
    U = set(m.U)
    free = [b[1] for b in body if b[0] == '$free']
    rest = [b for b in body if b[0] != '$free']
    out = set()
    for env in m.solutions(rest, [*tvars(head), *(v for t in free for v in tvars(t))]):
        it = apply(env, head)
        ok = True
        for t in free:
            g = apply(env, t)
            ok &= tm.is_free(g) and not any(tm.count_free(x, g) for v, x in env.items() if v != t)
        if ok and all(x in U for x in it[1:]):
            out.add(it)
    return out


def read(r):
    names = {}
    return from_dyna(r.head, names), [from_dyna(b, names) for b in r.body]


def run_types(case):
    from dyna import Program, Rule
    from dyna.analyze.rewrites import Rewrites
    types = [(dec(h), [dec(b) for b in body]) for h, body in case['types']]
    facts = [dec(f) for f in case['facts']]
    if any(b[0] == 'ks' for _, bs in types for b in bs):        # ground elements of lists are assumed to have their type
        facts += [('k', u) for u in tm.STRUCT]
    theory, m = tm.model_of('struct', case['rules'], facts, free=True)
    R = Rewrites(tm.theory_text(theory))

    def rule(t):
        env = {}
        return Rule(to_dyna(t[0], env), *[to_dyna(b, env) for b in t[1]])
    rs = [rule(t) for t in types]
    den = [items(m, *t) for t in types]

    def denot(r):
        return items(m, *read(r))
    thy = tm.theory_text(theory)
    what = lambda *ts: f'{thy}\n' + '\n'.join(type_text(t) for t in ts) + '\n'
    hit = False
    for i in range(len(rs)):
        require(R.covers(rs[i], rs[i]) or not den[i] or hidden(types[i]), lambda: f'{what(types[i])}does not cover itself')
        for j in range(len(rs)):
            if i == j:
                continue
            r, s = rs[i], rs[j]
            w = what(types[i], types[j])
            hit |= bool(den[i] & den[j]) and bool(types[i][1])
            if R.covers(r, s):
                require(den[j] <= den[i], lambda: f'{w}the first is said to cover the second, but not {text(min(den[j] - den[i], key=text))}')
            if R.same(r, s):
                require(den[i] == den[j], lambda: f'{w}are said to be the same')
            x = R.intersect(r, s)
            require((x is None) == R.disjoint(r, s), lambda: f'{w}intersect and disjoint differ')
            both = den[i] & den[j]
            if x is None:
                require(not both, lambda: f'{w}are said to be disjoint, but share {text(min(both, key=text))}')
            else:
                d = denot(x)
                require(both <= d, lambda: f'{w}the intersection {x} misses {text(min(both - d, key=text))}')
                require(d <= both or 'ks' in str(types), lambda: f'{w}the intersection {x} contains {text(min(d - both, key=text))}')
            if i < j:
                a = R.anti_unifier(r, s)
                # (if the two are disjoint nothing is claimed)
                lost = (den[i] | den[j]) - denot(a) if both else ()
                require(not lost, lambda: f'{w}the anti-unifier {a} misses {text(min(lost, key=text))}')
    p = Program([rule(t) for t in types])
    union = set().union(*den)
    before = str(p)
    for name in ('dedup', 'disjoin'):
        q = getattr(R, name)(p)
        d = set().union(*map(denot, q.rules)) if len(q) else set()
        require(union <= d, lambda: f'{what(*types)}{name} gives\n{q}\nwithout {text(min(union - d, key=text))}')
        if name == 'dedup':
            require(d <= union, lambda: f'{what(*types)}{name} gives\n{q}\nwith the new {text(min(d - union, key=text))}')
        else:
            for x, y in combinations(q.rules, 2):
                sh = denot(x) & denot(y)
                require(not sh, lambda: f'{what(*types)}{name} gives\n{q}\nwhich share {text(min(sh, key=text))}')
    require(str(p) == before, lambda: f'{what(*types)}the types changed to\n{p}')
    return Info(hit, [f'{len(theory)} rules'])


def hidden(t):
    "Does the type have variables that are not in its head?"
    hv = set(tvars(t[0]))
    return any(set(tvars(b)) - hv or b[0] == '$free' for b in t[1])


def type_text(t):
    return text(t[0]) + ' += ' + ' * '.join(map(text, t[1]))


@st.composite
def simple_type(draw, fn, arity, insts):
    arg = gen.weighted((6, st.sampled_from('XYZ').map(lambda n: {'v': n})), (1, st.sampled_from([0, 'a', ['c'], ['$nil']])), (1, st.sampled_from('XYZ').map(lambda n: ['s', {'v': n}])),
                       (1, st.sampled_from([['f', {'v': 'X'}, {'v': 'Y'}], ['$cons', {'v': 'X'}, {'v': 'Y'}]])))
    head = [fn] + [draw(arg) for _ in range(arity)]
    vs = [x['v'] for x in walk(head)]
    body = []
    for _ in range(draw(I(0, 3))):
        b = draw(tm.atom('struct', eq=False, ks=insts != 'noks'))
        hv = [x for x in walk(b)]
        if vs and draw(I(0, 6)):
            b = rename(b, {x['v']: draw(st.sampled_from(vs)) for x in hv})
        body.append(b)
    if insts == 'insts':
        for n in sorted(set(vs)):
            k = draw(I(0, 3))
            if k == 1:
                body.append(['$bound', {'v': n}])
            elif k == 2:
                body = [b for b in body if {'v': n} not in walk(b)] + [['$free', {'v': n}]]
    return [head, draw(st.permutations(body))]


def walk(j):
    if isinstance(j, dict):
        return [j]
    return [x for y in j[1:] for x in walk(y)] if isinstance(j, list) else []


def rename(j, m):
    if isinstance(j, dict):
        return {'v': m[j['v']]}
    return [j[0], *[rename(x, m) for x in j[1:]]] if isinstance(j, list) else j


@st.composite
def cases(draw):
    rules, facts = draw(tm.theory('struct'))
    insts = draw(st.sampled_from(['insts', 'insts', 'plain', 'noks']))
    n = draw(I(1, 2))
    types = []
    for _ in range(draw(I(2, 4))):
        if types and draw(I(0, 2)) == 0:
            h, b = draw(st.sampled_from(types))         # a variation of another type
            b = list(b)
            if b and draw(st.booleans()):
                b.pop(draw(I(0, len(b) - 1)))
            if draw(st.booleans()) and walk(h):
                m = {x['v']: x['v'] for y in [h, *b] for x in walk(y)}
                v = draw(st.sampled_from([x['v'] for x in walk(h)]))
                w = draw(st.sampled_from(['c', *'XYZ']))
                h, b = put(h, v, w), [put(x, v, w) for x in b]
                b = [x for x in b if x[0] != '$free' or isinstance(x[1], dict)]
            types.append([h, b])
        else:
            types.append(draw(simple_type('p', n if draw(I(0, 15)) else 3 - n, insts)))
    return {'rules': rules, 'facts': [enc(f) for f in facts], 'types': types}


def put(j, v, w):
    if isinstance(j, dict):
        return (0 if w == 'c' else {'v': w}) if j['v'] == v else j
    return [j[0], *[put(x, v, w) for x in j[1:]]] if isinstance(j, list) else j


CHECKS = [Check('types', cases(), run_types, quick=4000, case_timeout=6)]
