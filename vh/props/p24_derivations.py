"""Enumerating derivations yields each proof tree exactly once."""
from collections import Counter
from itertools import islice

from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import V, dec, enc, tvars, text, from_dyna, to_dyna, match, subst, is_t, rule_text
from .. import gen, progs
from ..refeval import eval_builtin, is_builtin, walk, deref

PROPERTY = 'P24'
RULE = ('Random ground-chart programs (recursion, self-joins, repeated rules, structure, arithmetic), the data added as rules with weights. All proof trees up to a height (bounded so that there are at most a few hundred) are listed by brute force; '
        'the naive, semi-naive, agenda and top-down enumerations must list the same trees, each once, each with its value, size and height. Non-trivial: some asked item has two proof trees and one is of height 3 or more.')
I = st.integers
LIMIT = 150


# a proof tree: (rule index, item, children); a child is a proof tree, a number, or ('builtin', text)

def join(body, chart, env):
    "(environment, children) for each way to satisfy a body."
    if not body:
        yield env, ()
        return
    b = deref(body[0], env) if is_t(body[0]) else body[0]
    if not is_t(b):
        for e, cs in join(body[1:], chart, env):
            yield e, (b, *cs)
    elif is_builtin(b):
        for e, cs in join(body[1:], chart, env):        # built-ins last (their inputs are bound by then)
            r = run_builtin(b, e)
            if r is not None:
                yield r, ((0,), *cs)
    else:
        for item, trees in list(chart.items()):
            if item[0] == b[0] and len(item) == len(b):
                m = match(b, item)
                if m is not None:
                    for t in list(trees):
                        for e, cs in join(body[1:], chart, {**env, **m}):
                            yield e, (t, *cs)


def run_builtin(b, env):
    b = deref(b, env)
    f, x, y = b
    if f == 'is':
        if tvars(y):
            raise Inconclusive('delayed builtin')
        v = {'+': lambda a, c: a + c, '-': lambda a, c: a - c, '*': lambda a, c: a * c}[y[0]](y[1], y[2])
        if isinstance(x, V):
            return {**env, x: v}
        return env if x == v else None
    if f == '=':
        m = match(x, y) if not tvars(y) else match(y, x) if not tvars(x) else False
        if m is False:
            raise Inconclusive('delayed builtin')
        return None if m is None else {**env, **m}
    raise Inconclusive('comparison')         # (one that does not hold is a factor of zero)


def brute(rules, T):
    "Proof trees by height: a list of charts {item: set of trees}, until a fixpoint or the limit."
    out = [{}]
    for _ in range(T):
        new = {}
        n = 0
        for i, (h, body) in enumerate(rules):
            for env, cs in join(body, out[-1], {}):
                item = deref(h, env)
                if tvars(item):
                    raise Inconclusive('nonground item')
                new.setdefault(item, set()).add((i, item, cs))
                n += 1
                if n > LIMIT:
                    return out, False
        if new == out[-1]:
            return out, True
        out.append(new)
    return out, False


def tree(d):
    "The code's derivation as a proof tree."
    from dyna.derivations import Derivation
    if isinstance(d, Derivation):
        if d.i is None:
            return (0,)
        return d.i, from_dyna(d.head), tuple(tree(b) for b in d.body)
    return from_dyna(d)


def val(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 1:
        return 1
    r = 1
    for c in t[2]:
        r *= val(c)
    return r


def size(t):
    return 0 if not isinstance(t, tuple) or len(t) == 1 else 1 + sum(map(size, t[2]))


def height(t):
    return 0 if not isinstance(t, tuple) or len(t) == 1 else 1 + max(map(height, t[2]), default=0)


def show(t, d=0):
    if not isinstance(t, tuple) or len(t) == 1:
        return '  ' * d + str(t)
    return '\n'.join(['  ' * d + f'{text(t[1])}   (rule {t[0]})', *[show(c, d + 1) for c in t[2]]])


def setup(case):
    "The rules, with the data."
    from dyna import Program
    rules = progs.rules_of(case)
    rules = rules + [(dec(f), (k[1] if isinstance(k, list) else k,)) for f, k in case['data']]
    return rules, Program('\n'.join(rule_text(h, b) for h, b in rules))


def judge(what, got, want):
    got = Counter(map(tree, got)) if not isinstance(got, Counter) else got
    for t, n in got.items():
        require(t in want, lambda: f'{what} lists\n{show(t)}\nwhich is no such proof tree')
        require(n == 1, lambda: f'{what} lists {n} times\n{show(t)}')
    for t in sorted(want, key=str):
        require(t in got, lambda: f'{what} misses\n{show(t)}')


def run_derivations(case):
    rules, p = setup(case)
    charts, done = brute(rules, case['T'])
    T = len(charts) - 1
    if T < 1:
        raise Inconclusive('many derivations')
    text_ = '\n'.join(f'{i}: {rule_text(h, b)}' for i, (h, b) in enumerate(rules)) + '\n'
    bi = any(is_t(b) and is_builtin(b) for _, bs in rules for b in bs)
    heads = sorted({h for h, _ in rules}, key=text)
    pats = [heads[case['ask'] % len(heads)], ('goal',)]
    if case['open']:
        pats = [(q[0], *(V(f'A{i}') for i in range(len(q) - 1))) for q in pats]
    rich = False
    before = str(p)
    for q in pats:
        def want_at(t):
            return {x for it, xs in charts[min(t, T)].items() if match(q, it) is not None for x in xs}

        def ask():
            return to_dyna(q, {})
        for t in sorted({T, max(T - 1, 1)}):
            w = want_at(t)
            judge(f'{text_}the naive enumeration of {text(q)} up to height {t}', p.derivations(t, ask()), w)
            if not bi:
                judge(f'{text_}the semi-naive enumeration of {text(q)} up to height {t}', p.derivations_seminaive(t, ask()), w)
        w = want_at(T)
        if done:
            judge(f'{text_}the naive enumeration of {text(q)} to the end', p.derivations(None, ask()), w)
            if not bi:
                judge(f'{text_}the semi-naive enumeration of {text(q)} to the end', p.derivations_seminaive(None, ask()), w)
                if acyclic(rules):
                    judge(f'{text_}the top-down enumeration of {text(q)}', p.sld(ask()), w)
            tot = sum(val(t) for t in w)
            if not tvars(q):
                c = p.agenda().user_lookup(ask()) if not bi else p.fc().user_lookup(ask())
                v = [float(x[0]) if len(x) else 1.0 for r in c for x in [r.body]]
                require((v == [] and tot == 0) or len(v) == 1 and abs(v[0] - tot) < 1e-6 * max(1, abs(tot)), lambda: f'{text_}the proofs of {text(q)} add up to {tot}, the chart says {v}')
        rich |= len(w) > 1 and any(height(t) > 2 for t in w)
        for d in p.derivations(T, ask()):
            t = tree(d)
            x = d.value()
            y = 1
            for z in (x if isinstance(x, tuple) else [x]):
                y *= float(from_dyna(z)) if not isinstance(z, float) else z
            require(bi or abs(y - val(t)) < 1e-9 * max(1, abs(y)), lambda: f'{text_}{show(t)}\nis given the value {x}')
            require(d.size() == size(t) and d.height() == height(t), lambda: f'{text_}{show(t)}\nis given the size {d.size()} and height {d.height()}')
            require(d.is_subtree(d) and all(d.is_subtree(b) for b in d.body), lambda: f'{text_}{show(t)}\nis not a subtree of itself, or does not contain its children')
    if not bi and done:
        allw = {x for xs in charts[T].values() for x in xs}
        judge(f'{text_}the agenda enumeration', islice(p.derivations_agenda(), LIMIT + 50), allw)
    elif not bi:
        got = Counter(map(tree, islice(p.derivations_agenda(), 60)))
        for t, n in got.items():
            require(valid(t, rules), lambda: f'{text_}the agenda enumeration lists\n{show(t)}\nwhich is no proof tree')
            require(n == 1, lambda: f'{text_}the agenda enumeration lists {n} times\n{show(t)}')
    require(str(p) == before, lambda: f'{text_}the program changed to\n{p}')
    return Info(rich, ['finite' if done else 'infinite', 'builtins' if bi else 'plain', f'T{T}'])


def acyclic(rules):
    fns = {}
    for h, bs in rules:
        fns.setdefault(h[0], set()).update(b[0] for b in bs if is_t(b))
    done = set()
    while True:
        more = {f for f in fns if f not in done and all(g in done or g not in fns for g in fns[f])}
        if not more:
            return len(done) == len(fns)
        done |= more


def valid(t, rules):
    if not isinstance(t, tuple):
        return True
    i, item, cs = t
    h, body = rules[i]
    m = match(('$r', h, *body), ('$r', item, *[c[1] if isinstance(c, tuple) else c for c in cs]))
    return m is not None and all(valid(c, rules) for c in cs)


kw = dict(n_rules=(2, 4), n_idb=(1, 3), dom=(0, 1))
PROGS = gen.weighted((4, progs.datalog(rr=True, recursion=False, **kw)), (4, progs.datalog(rr=True, **kw)), (2, progs.datalog(rr=True, structs=True, **kw)), (2, progs.datalog(rr=True, builtins=True, **kw)),
                     (2, progs.template(dom=(0, 1))))


@st.composite
def cases(draw):
    c = draw(PROGS)
    rules = [list(r) for r in c['rules']]
    if draw(I(0, 3)) == 0:      # a repeated rule
        rules.append(draw(st.sampled_from(rules)))
    data = c['data']
    big = [d for d in data if len(d[0]) > 1]
    if len(big) > 6:
        keep = draw(I(0, 2 ** 16))
        data = [d for i, d in enumerate(data) if len(d[0]) == 1 or keep >> (i % 16) & 1]
    return {**c, 'rules': rules, 'data': data, 'T': draw(I(2, 6)), 'ask': draw(I(0, 30)), 'open': draw(st.booleans())}


CHECKS = [Check('derivations', cases(), run_derivations, quick=3000, case_timeout=6)]
