"""Constraint propagation only adds consequences."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, typemodel as tm
from ..terms import V, dec, tvars, subst, match, text, unify_in, to_dyna, from_dyna, canon

PROPERTY = 'P29'
RULE = ('Random theories (definite rules, functional dependencies, exclusion, order axioms, constants) with a random finite model that satisfies them, and random conjunctions of constraints '
        '(user predicates on structured terms and lists, equality, comparison, arithmetic). Every assignment over the universe is enumerated: a reported failure must have no solution, every propagated '
        'constraint must hold in every solution, the result must be closed under the rules, contain the input, and not depend on the order or the names. Simplifying a rule by the theory must keep the '
        'set of instances of its head. Non-trivial: at least one constraint beyond the input is derived, or a failure is reported.')
I = st.integers


def norm(chart, s):
    out = set()
    for c in chart:
        if c[0] != '=':
            out.add(c)
    return out


def classes(eqs, names):
    """Most general solution of equations with a canonical choice of representatives: None, or a
    map from variables to terms over the least variable of each class."""
    s = {}
    for _, a, b in eqs:
        if not unify_in(a, b, s):
            return None
    full = {}
    for v in sorted(names, key=lambda v: v.name):
        full[v] = resolve(v, s)
    rep = {}
    for v in sorted(names, key=lambda v: v.name):
        t = full[v]
        if isinstance(t, V) and t not in rep:
            rep[t] = v
    return {v: apply(rep, t) for v, t in full.items()}


def apply(s, t):
    "Apply a substitution once."
    if isinstance(t, V):
        return s.get(t, t)
    if isinstance(t, tuple):
        return (t[0],) + tuple(apply(s, x) for x in t[1:])
    return t


def resolve(t, s):
    if isinstance(t, V):
        return resolve(s[t], s) if t in s else t
    if isinstance(t, tuple):
        return (t[0],) + tuple(resolve(x, s) for x in t[1:])
    return t


def propagate(theory, body, order, hook=()):
    from dyna import Program, ConstraintPropagation
    cp = ConstraintPropagation(Program(tm.theory_text(theory)))
    env = {}
    for v in order[1]:
        to_dyna(v, env)
    cs = [to_dyna(b, env) for b in body]
    chart = cp([cs[i] for i in order[0]])
    if chart is None:
        return None
    names = {}
    for n, v in env.items():
        from_dyna(v, names)
        names[id(v)] = (V(n), v)
    return [from_dyna(c, names) for c in chart]


def run_propagate(case):
    theory, m = tm.model_of(case['kind'], case['rules'], [dec(f) for f in case['facts']])
    body = [dec(b) for b in case['body']]
    if case['kind'] == 'numeric' and any(len(tvars(b)) == 0 and b[0] == 'is' and not isinstance(b[1], int) for b in body):
        raise Inconclusive('type')
    vs = sorted({v for b in body for v in tvars(b)}, key=lambda v: v.name)
    sols = m.solutions(body)
    what = f'{tm.theory_text(theory)}\npropagating {", ".join(map(text, body))}\n'
    results = []
    n = len(body)
    orders = [(list(range(n)), vs), (list(range(n))[::-1], vs[::-1]), ([i for i in case['perm'] if i < n], vs)]
    for order in orders:
        chart = propagate(theory, body, order)
        if chart is None:
            require(not sols, lambda: f'{what}fails, but {show(sols[0])} is a solution')
            results.append(None)
            continue
        for c in chart:
            require(set(tvars(c)) <= set(vs), lambda: f'{what}introduces variables: {text(c)}')
        for env in sols:
            for c in chart:
                require(holds(m, subst(env, c)), lambda: f'{what}derives {text(c)}, which is false in the solution {show(env)}')
        for b in body:
            require(b in chart, lambda: f'{what}loses {text(b)}')
        s = classes([c for c in chart if c[0] == '='], vs)
        require(s is not None, lambda: f'{what}does not notice that the equations {[text(c) for c in chart if c[0] == "="]} have no solution')
        nf = {apply(s, c) for c in chart if c[0] != '='}
        # closed under the rules, up to the equations
        for h, rb in theory:
            for e in joins_in(rb, nf):
                g = apply(e, h)
                require(g[0] != '$fail', lambda: f'{what}gives {sorted(map(text, nf))}\nwhich {tm.rule_text_(h, rb)} refutes')
                if g[0] == '=':
                    require(apply(s, g[1]) == apply(s, g[2]), lambda: f'{what}gives {sorted(map(text, nf))}\nbut not {text(g)} by {tm.rule_text_(h, rb)}')
                else:
                    require(apply(s, g) in nf, lambda: f'{what}gives {sorted(map(text, nf))}\nbut not {text(g)} by {tm.rule_text_(h, rb)}')
        results.append(({v: s[v] for v in vs}, nf))
    for o, r in zip(orders, results):
        require(r == results[0], lambda: f'{what}depends on the order of the constraints\n{orders[0]}: {results[0]}\n{o}: {r}')
    r = results[0]
    return Info(r is None or len(r[1]) > len({apply(r[0], b) for b in body if b[0] != '='}), ['fail' if r is None else 'ok', case['kind'], 'solutions' if sols else 'none'])


def holds(m, c):
    try:
        return m.holds(c)
    except TypeError:
        raise Inconclusive('type') from None


def show(env):
    return {v.name: text(t) for v, t in env.items()}


def joins_in(body, facts, env=None):
    "Match the body of a rule (its variables apart) against constraints with variables."
    env = env or {}
    if not body:
        yield {V(k): t for k, t in env.items()}
        return
    for f in facts:
        e = dict(env)
        if one(body[0], f, e):
            yield from joins_in(body[1:], facts, e)


def one(p, t, e):
    if isinstance(p, V):
        if p.name in e:
            return e[p.name] == t
        e[p.name] = t
        return True
    if isinstance(p, tuple):
        return isinstance(t, tuple) and len(t) == len(p) and t[0] == p[0] and all(one(a, b, e) for a, b in zip(p[1:], t[1:]))
    return p == t and type(p) is type(t)


def run_rewrite(case):
    from dyna import Rule
    from dyna.analyze.rewrites import Rewrites
    theory, m = tm.model_of(case['kind'], case['rules'], [dec(f) for f in case['facts']])
    body = [dec(b) for b in case['body']]
    head = dec(case['head'])
    R = Rewrites(tm.theory_text(theory))
    env = {}
    r = Rule(to_dyna(head, env), *[to_dyna(b, env) for b in body])
    what = f'{tm.theory_text(theory)}\nsimplifying {text(head)} :- {", ".join(map(text, body))}\n'
    want = {subst(e, head) for e in m.solutions(body, tvars(head))}
    # an existential variable of an arithmetic constraint may have its solution outside the universe
    exact = not any(b[0] == 'is' for b in body) or set(tvars(head)) >= {v for b in body for v in tvars(b)}
    for drop in (False, True):
        for insts in (False, True):
            s = R(r, drop_checked=drop, USE_INSTS=insts)
            if s is None:
                require(not want, lambda: f'{what}fails, but {text(min(want, key=text))} is an instance')
                continue
            names = {}
            h = from_dyna(s.head, names)
            bs = [from_dyna(b, names) for b in s.body]
            got = {subst(e, h) for e in m.solutions(bs, tvars(h))}
            inside = {t for t in got if all(in_universe(m, x) for x in t[1:])}
            miss = {t for t in want - got if case['kind'] == 'struct' or all(in_universe(m, x) for x in t[1:])}
            require(not miss, lambda: f'{what}gives {s}\nwithout the instance {text(min(miss, key=text))}')
            require(inside <= want or not exact or case['kind'] == 'struct' and 'ks' in str(body), lambda: f'{what}gives {s}\nwith the new instance {text(min(inside - want, key=text))}')
    return Info(len(want) > 0 and (s is None or len(s.body) != len(body)), [case['kind'], 'empty' if not want else 'some'])


def in_universe(m, t):
    return t in m.U


@st.composite
def cases(draw, kind, head=False):
    rules, facts = draw(tm.theory(kind))
    body = draw(st.lists(tm.atom(kind), min_size=1, max_size=4))
    c = {'kind': kind, 'rules': rules, 'facts': [enc_(f) for f in facts], 'body': body, 'perm': draw(st.permutations(range(len(body))))}
    if head:
        t = tm.term(kind)
        c['head'] = ['h'] + [draw(t) for _ in range(draw(I(1, 2)))]
    return c


def enc_(t):
    from ..terms import enc
    return enc(t)


CASES = gen.weighted((3, cases('struct')), (2, cases('numeric')))
RCASES = gen.weighted((3, cases('struct', True)), (2, cases('numeric', True)))
CHECKS = [Check('propagate', CASES, run_propagate, quick=5000, case_timeout=6), Check('rewrite', RCASES, run_rewrite, quick=3000, case_timeout=6)]
