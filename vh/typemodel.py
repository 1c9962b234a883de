"""Finite models of constraints over terms.

A theory is a list of rules over user predicates; a model interprets the
predicates over a finite universe of ground terms (and, for simple types, of
terms containing distinguishable unbound variables '?1', '?2').
"""
import itertools

from hypothesis import strategies as st

from . import gen
from .core import Inconclusive
from .terms import V, tvars, subst, match, text, dec, unify_in

I = st.integers
NIL = ('$nil',)


def cons(*xs, tail=NIL):
    for x in reversed(xs):
        tail = ('$cons', x, tail)
    return tail


NUMERIC = [0, 1, 2, 3]
STRUCT = [0, 1, 'a', 'k', ('c',), ('s', 0), ('s', ('s', 0)), ('s', 'a'), ('f', 0, 1), ('f', 0, ('s', 0)), NIL, cons(0), cons('a'), cons(0, 'a'), cons(('c',))]
FREE = [('?1',), ('?2',), ('s', ('?1',))]

CMPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


def is_free(t):
    return isinstance(t, tuple) and len(t) == 1 and t[0].startswith('?')


def has_free(t):
    return is_free(t) or isinstance(t, tuple) and any(has_free(x) for x in t[1:])


def count_free(t, v):
    return (t == v) + (sum(count_free(x, v) for x in t[1:]) if isinstance(t, tuple) else 0)


class Model:
    def __init__(self, universe, facts, item=None):
        self.U = universe
        self.facts = facts          # set of ground terms

    def holds(self, a):
        f = a[0]
        if f == '=':
            return a[1] == a[2] and isinstance(a[1], str) == isinstance(a[2], str)
        if f in CMPS:
            return CMPS[f](a[1], a[2])
        if f == 'is':
            x, e = a[1], a[2]
            return isinstance(x, (int, float)) and x == ARITH[e[0]](e[1], e[2])
        if f == 'ks':
            x = a[1]
            while isinstance(x, tuple) and x[0] == '$cons':
                if not self.holds(('k', x[1])):
                    return False
                x = x[2]
            return x == NIL
        if f == '$bound':
            return not has_free(a[1])
        if f == '$free':
            raise ValueError
        return a in self.facts

    def solutions(self, atoms, variables=()):
        """Assignments of the variables of the atoms (and `variables`) that make the atoms true.  Equations
        and arithmetic are solved; the remaining variables range over the universe."""
        vs = sorted({v for a in atoms for v in tvars(a)} | set(variables), key=lambda v: v.name)
        pref = set(variables)
        out = []
        budget = [40000]

        def full(t, env):
            if isinstance(t, V):
                return full(env[t], env) if t in env else t
            if isinstance(t, tuple):
                return (t[0],) + tuple(full(x, env) for x in t[1:])
            return t

        def go(env, todo):
            budget[0] -= 1
            if budget[0] < 0:
                raise Inconclusive('many assignments')
            rest = []
            changed = False
            for a in todo:
                a = full(a, env)
                if a[0] == '=':
                    env = dict(env)
                    if not unify_in(a[1], a[2], env):
                        return
                    changed = True
                elif not tvars(a):
                    if not self.holds(a):
                        return
                elif a[0] == 'is':
                    r = invert(a)
                    if r is None:
                        rest.append(a)
                    elif r is False:
                        return
                    else:
                        env = {**env, r[0]: r[1]}
                        changed = True
                else:
                    rest.append(a)
            if changed:
                return go(env, rest)
            open_ = sorted({w for v in vs for w in tvars(full(v, env))}, key=lambda v: v.name)
            if not open_:
                if not rest:
                    out.append({v: full(v, env) for v in vs})
                return
            v = max(open_, key=lambda v: (v in pref, sum(v in tvars(a[2]) for a in rest if a[0] == 'is'), sum(v in tvars(a) for a in rest)))
            for u in self.U:
                go({**env, v: u}, rest)
        go({}, list(atoms))
        return out


def invert(a):
    "Solve an arithmetic constraint with one unknown: (variable, value), False, or None (not yet)."
    x, (op, y, z) = a[1], a[2]
    num = lambda t: isinstance(t, (int, float))
    unknown = [t for t in (x, y, z) if not num(t)]
    if len(unknown) != 1:
        return None
    u = unknown[0]
    if not isinstance(u, V):
        return False
    if u is x or u == x:
        return u, ARITH[op](y, z)
    if op == '+':
        return u, x - (z if u == y else y)
    if op == '-':
        return u, (x + z if u == y else y - x)
    o = z if u == y else y
    if o == 0:
        return None if x == 0 else False
    return u, x / o


def close(theory, facts, U, limit=400):
    "Forward closure of ground facts under the definite rules of the theory."
    facts = set(facts)
    new = True
    while new:
        new = False
        for h, body in theory:
            if h[0] in ('=', '$fail', '$bound') or any(b[0] in CMPS or b[0] in ('is', '=', 'ks') for b in body) or h[0] in CMPS:
                continue
            for env in joins(body, facts):
                g = subst(env, h)
                if tvars(g):
                    return None
                if g not in facts:
                    facts.add(g)
                    new = True
                    if len(facts) > limit:
                        return None
    return facts


def joins(body, facts, env=None):
    env = env or {}
    if not body:
        yield env
        return
    b = subst(env, body[0])
    for f in list(facts):
        if f[0] == b[0] and len(f) == len(b):
            m = match(b, f)
            if m is not None:
                yield from joins(body[1:], facts, {**env, **m})


def satisfied(rule, model):
    h, body = rule
    for env in model.solutions(list(body)):
        if h[0] == '$fail':
            return False
        if not model.holds(subst(env, h)):
            return False
    return True


# -- generation ---------------------------------------------------------------

X, Y, Z, W = V('X'), V('Y'), V('Z'), V('W')
THEORY = {
    'struct': [
        (('k', X), (('m', X),)), (('n', X), (('m', X),)), (('k', X), (('w', X, Y),)), (('n', Y), (('w', X, Y),)), (('w', Y, X), (('w', X, Y),)),
        (('w', X, Z), (('w', X, Y), ('w', Y, Z))), (('=', X, Y), (('w', X, Z), ('w', Y, Z))), (('=', Y, Z), (('w', X, Y), ('w', X, Z))), (('m', X), (('m', ('s', X)),)),
        (('k', X), (('w', ('s', X), Y),)), (('n', X), (('n', ('f', X, Y)),)), (('k', Y), (('n', ('f', X, Y)),)), (('k', 'a'), ()), (('n', 0), ()), (('m', ('s', 0)), ()), (('n', ('c',)), ()),
        (('$fail',), (('k', X), ('n', X))), (('$fail',), (('m', X), ('n', X))), (('$fail',), (('w', X, X),)), (('$fail',), (('k', X), ('m', X))), (('$fail',), (('w', X, Y), ('w', Y, X))),
        (('=', X, Y), (('m', X), ('m', Y))), (('=', X, ('s', Y)), (('w', X, Y),)), (('w', X, X), (('k', X),)), (('k', X), (('ks', ('$cons', X, Y)),)), (('ks', Y), (('ks', ('$cons', X, Y)),)),
        (('$bound', X), (('k', X),)), (('=', X, 0), (('m', X),)), (('=', X, ('f', Y, Z)), (('w', X, Y), ('w', X, Z))), (('k', X), (('m', X), ('n', X))), (('$fail',), (('k', ('s', X)),)),
    ],
    'numeric': [
        (('<', X, Z), (('<', X, Y), ('<', Y, Z))), (('$fail',), (('<', X, X),)), (('$fail',), (('<', X, Y), ('<', Y, X))), (('<', Y, X), (('>', X, Y),)), (('>', Y, X), (('<', X, Y),)),
        (('=', X, Y), (('<=', X, Y), ('<=', Y, X))), (('<=', X, Y), (('<', X, Y),)), (('k', X), (('m', X),)), (('<', X, Y), (('w', X, Y),)), (('k', X), (('w', X, Y),)),
        (('w', X, Z), (('w', X, Y), ('w', Y, Z))), (('=', Y, Z), (('w', X, Y), ('w', X, Z))), (('n', 0), ()), (('k', 1), ()), (('$fail',), (('k', X), ('n', X))), (('<=', 0, X), (('k', X),)),
    ],
}


def rule_text_(h, body):
    t = text(h)
    return f'{t} :- {", ".join(text(b) for b in body)}.' if body else f'{t}.'


def theory_text(theory):
    return '\n'.join(rule_text_(h, b) for h, b in theory)


@st.composite
def theory(draw, kind, free=False):
    "A theory and a model of it."
    U = STRUCT + FREE if free else STRUCT if kind == 'struct' else NUMERIC
    closed = [u for u in U if not has_free(u)]
    rules = draw(st.lists(st.sampled_from(range(len(THEORY[kind]))), max_size=5, unique=True))
    facts = []
    for p in 'kmn':
        for u in draw(st.lists(st.sampled_from(closed), max_size=4, unique=True)):
            facts.append((p, u))
    for _ in range(draw(I(0, 4))):
        facts.append(('w', draw(st.sampled_from(closed)), draw(st.sampled_from(closed))))
    return rules, facts


def model_of(kind, rules, facts, free=False):
    "The satisfied part of the chosen rules, and the model: the closure of the facts."
    U = STRUCT + FREE if free else STRUCT if kind == 'struct' else NUMERIC
    th = [THEORY[kind][i] for i in rules]
    facts = close(th, facts, U)
    if facts is None:
        raise Inconclusive('the closure is large')
    m = Model(U, facts)
    return [r for r in th if satisfied(r, m)], m


def term(kind, vs='XYZ'):
    v = st.sampled_from(vs).map(lambda n: {'v': n})
    if kind == 'numeric':
        return gen.weighted((5, v), (1, st.sampled_from(NUMERIC)))
    return gen.weighted((8, v), (1, st.sampled_from([0, 1, 'a', 'k', ['c']])), (1, v.map(lambda x: ['s', x])), (1, st.tuples(v, v).map(lambda t: ['f', *t])),
                        (1, st.sampled_from([['$nil'], ['$cons', {'v': 'X'}, {'v': 'Y'}], ['s', 0]])))


def atom(kind, vs='XYZ', eq=True, ks=True):
    t = term(kind, vs)
    a = [(4, st.tuples(st.sampled_from('kmn'), t).map(list)), (3, st.tuples(st.just('w'), t, t).map(list))]
    if eq:
        a.append((3, st.tuples(st.just('='), t, t).map(list)))
    if kind == 'numeric':
        a.append((3, st.tuples(st.sampled_from(sorted(CMPS)), t, t).map(list)))
        a.append((2, st.tuples(st.just('is'), t, st.tuples(st.sampled_from('+-*'), t, t).map(list)).map(list)))
    elif ks:
        a.append((2, gen.weighted((2, t), (2, st.just(['$cons', {'v': 'X'}, {'v': 'Y'}])), (1, st.just(['$cons', {'v': 'Z'}, {'v': 'Z'}]))).map(lambda x: ['ks', x])))
    return gen.weighted(*a)
