"""Type and usefulness analysis never misses an item."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import V, dec, tvars, text, from_dyna, match, subst, is_t
from .. import gen, progs, typemodel as tm
from ..progs import build, rules_of, data_of, ref_eval
from ..refeval import BoolS, fnkey, evaluate, is_builtin

PROPERTY = 'P26'
RULE = ('Random programs (recursion, structures, head-only variables, built-ins) with typed inputs, theories relating the type parameters, and random data satisfying both; input items may have unbound variables. '
        'Every item of the reference chart must match an inferred type whose parameters, $free and $bound constraints hold of it; for usefulness, every item used in deriving an output. '
        'Non-trivial: some derived item, and an inferred type with a constraint or more than one type of an item.')
I = st.integers

SORTS = {'n': [0, 1], 'm': [2, 7], 'k': [0, 2, ('s', 0)]}
RULES = {
    '$fail :- n(X), m(X).': lambda S: not set(S['n']) & set(S['m']),
    'k(X) :- n(X).': lambda S: set(S['n']) <= set(S['k']),
    'k(X) :- m(X).': lambda S: set(S['m']) <= set(S['k']),
    '$fail :- n(X), k(X).': lambda S: not set(S['n']) & set(S['k']),
    '$fail :- m(X), k(X).': lambda S: not set(S['m']) & set(S['k']),
    '$bound(X) :- n(X).': lambda S: True,
    '$bound(X) :- k(X).': lambda S: True,
    'n(X) :- k(s(X)).': lambda S: all(x[1] in S['n'] for x in S['k'] if isinstance(x, tuple)),
    'X=Y :- n(X), n(Y).': lambda S: len(S['n']) <= 1,
    'm(X) :- n(X), k(X).': lambda S: set(S['n']) & set(S['k']) <= set(S['m']),
    '$fail :- m(s(X)).': lambda S: not any(isinstance(x, tuple) for x in S['m']),
    '$fail :- n(0).': lambda S: 0 not in S['n'],
    'n(0).': lambda S: 0 in S['n'],
}


def freeze(t):
    "Replace the variables of an item by distinct stand-ins."
    return subst({x: (f'?{i}',) for i, x in enumerate(dict.fromkeys(tvars(t)))}, t)


def member(item, head, body, sorts):
    "Is the (frozen) item in the simple type?"
    env = match(head, item)
    if env is None:
        return False
    for b in body:
        if tvars(b) and any(v not in env for v in tvars(b)):
            raise Inconclusive('local variables')
        g = subst(env, b)
        if b[0] == '$bound':
            ok = not tm.has_free(g[1])
        elif b[0] == '$free':
            ok = tm.is_free(g[1]) and not any(tm.count_free(x, g[1]) for v, x in env.items() if v != b[1])
        elif b[0] in sorts and len(b) == 2:
            ok = g[1] in sorts[b[0]]
        else:
            raise Inconclusive('another constraint')
        if not ok:
            return False
    return True


def read_chart(chart):
    out = []
    for r in chart:
        names = {}
        out.append((from_dyna(r.head, names), [from_dyna(b, names) for b in r.body]))
    return out


def setup(case):
    sorts = {k: [dec(x) for x in v] for k, v in case['sorts'].items()}
    theory = [r for r in sorted(RULES) if r in case['theory'] and RULES[r](sorts)]
    lines, rows = [], []
    for f in case['inputs']:
        for sig in case['sigs'].get(f[0], [[]]):
            body = [f'{s}({x["v"]})' for s, x in zip(sig, f[1:]) if s != '']
            h = f[0] + (f'({",".join(x["v"] for x in f[1:])})' if len(f) > 1 else '')
            lines.append(h + (' :- ' + ', '.join(body) if body else '') + '.')
    for fact, w in case['data']:
        sigs = case['sigs'].get(fact[0], [[]])
        for i in [case['pick'] % len(sigs), *range(len(sigs))]:
            sig = sigs[i]
            if all(s == '$bound' or s == '$free' or dec(x) in sorts[s] for s, x in zip(sig, fact[1:])):
                rows.append([[fact[0], *[{'v': f'F{j}'} if s == '$free' else x for j, (s, x) in enumerate(zip(sig or [''] * 9, fact[1:]))]], w])
                break
    for f in case['inputs']:        # make some use of each sort
        for sig in case['sigs'].get(f[0], []):
            for j in range(2):
                args = [{'v': f'F{i}'} if s == '$free' else 3 if s == '$bound' else case['sorts'][s][(i + j) % len(case['sorts'][s])] if sorts[s] else None for i, s in enumerate(sig)]
                if None not in args:
                    rows.append([[f[0], *args], 1])
    rows += [[[s, x], 1] for s in case['sorts'] for x in case['sorts'][s]]
    text_ = '\n'.join(lines) + '\ninputs: ' + '; '.join(f'{s}(_)' for s in sorts) + '.'
    return sorts, theory, text_, {**case, 'data': rows}


def run_types(case):
    from dyna import Program
    sorts, theory, it, case = setup(case)
    p = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    rw = '\n'.join(theory)
    how = case['how']
    kw = dict(input_type=Program(it), rewrites=rw, use_insts=how['insts'], basic=how['basic'], max_depth=how['depth'])
    what = f'{p.__repr__(color=False)}\ninput types\n{it}\nrewrites\n{rw}\n'
    items = {freeze(f) for f in base.v if base.v[f]}
    skip = set(sorts)
    if case['useful']:
        t = p.usefulness_analysis(**kw)
        items &= needed(case, rules, data, {freeze(f): f for f in base.v})
    else:
        t = p.type_analysis(**kw)
    types = read_chart(t.chart)
    shown = '\n'.join(text(h) + ' += ' + ' * '.join(map(text, b)) for h, b in types)
    n = 0
    ks = progs.idb_keys(case)
    for f in items:
        if f[0] in skip:
            continue
        n += fnkey(f) in ks
        if not any(member(f, h, b, sorts) for h, b in types):
            require(False, f'{what}the item {text(f)} is in none of the types\n{shown}')
    if case['ask']:
        # the items of a query's simple types
        q = case['ask']
        r = t.intersect(progs.rule_text(dec(q[0]), [dec(b) for b in q[1]]))
        got = read_chart(r)
        for f in items:
            if f[0] == q[0][0] and member(f, dec(q[0]), [dec(b) for b in q[1]], sorts):
                require(any(member(f, h, b, sorts) for h, b in got), f'{what}types\n{shown}\nintersected with {text(dec(q[0]))} {q[1]} gives\n{r}\nwithout {text(f)}')
    fns = [fnkey(h) for h, b in types if is_t(h) and fnkey(h) in ks]
    rich = any(b for h, b in types if is_t(h) and fnkey(h) in ks) or len(set(fns)) < len(fns)
    return Info(n > 0 and rich, ['useful' if case['useful'] else 'types', *['free'] * any(tm.has_free(f) for f in items), f'theory{len(theory)}'])


def needed(case, rules, data, orig):
    "The (frozen) items that are used to derive an output."
    rows = [(f, ()) for f, _ in data]
    allr = rules + rows
    dem = [(('$u', dec(o)), (dec(o),)) for o in case['outputs']]
    for h, body in rules:
        user = [b for b in body if is_t(b) and not is_builtin(b)]
        for b in user:
            dem.append((('$u', b), (('$u', h), *body)))
    ch = evaluate(allr + dem, BoolS)
    return {freeze(f[1]) for f in ch.v if is_t(f) and f[0] == '$u' and ch.v[f]}


kw = dict(n_rules=(2, 5), n_idb=(2, 3))
PROGS = gen.weighted((5, progs.datalog(rr=True, **kw)), (4, progs.datalog(rr=False, **kw)), (4, progs.datalog(rr=True, structs=True, **kw)), (4, progs.datalog(rr=False, structs=True, **kw)),
                     (1, progs.datalog(rr=True, builtins=True, **kw)), (3, progs.template()))


@st.composite
def cases(draw):
    c = draw(PROGS)
    sorts = {k: sorted(draw(st.lists(st.sampled_from([0, 1, 2, 7, ['s', 0], ['s', 1]]), max_size=3, unique_by=str)), key=str) for k in SORTS}
    sigs = {}
    for f in c['inputs']:
        a = len(f) - 1
        if a:
            sig = st.lists(gen.weighted((5, st.sampled_from(['n', 'm', 'k'])), (2, st.just('$bound')), (2, st.just('$free'))), min_size=a, max_size=a)
            sigs[f[0]] = draw(st.lists(sig, min_size=1, max_size=3, unique_by=str))
    ask = None
    heads = [h for h, b in c['rules'] if len(h) > 1]
    if heads and draw(I(0, 2)) == 0:
        h = draw(st.sampled_from(heads))
        vs = [progs.v(x) for x in 'XYZW'[:len(h) - 1]]
        h = [h[0], *[draw(gen.weighted((4, st.just(x)), (1, st.just(vs[0])), (1, st.sampled_from([0, 2, ['s', vs[0]]])))) for x in vs]]
        hv = [x for x in h[1:] if isinstance(x, dict)]
        ask = [h, [[draw(st.sampled_from(['n', 'm', 'k', '$bound'])), x] for x in hv if draw(I(0, 1))]]
    return {**c, 'sorts': sorts, 'sigs': sigs, 'theory': draw(st.lists(st.sampled_from(sorted(RULES)), max_size=6, unique=True)), 'pick': draw(I(0, 5)), 'ask': ask,
            'useful': draw(gen.weighted((2, st.just(False)), (1, st.just(True)))),
            'how': {'basic': draw(gen.weighted((3, st.just(True)), (1, st.just(False)))), 'depth': draw(gen.weighted((3, st.just(5)), (2, I(1, 3)))), 'insts': draw(gen.weighted((3, st.just(True)), (1, st.just(False))))}}


CHECKS = [Check('types', cases(), run_types, quick=4000, case_timeout=5)]
