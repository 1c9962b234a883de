"""Unification computes most general unifiers and leaves no trace."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from ..terms import V, dec, from_dyna, subst, to_dyna, tvars, unify as ref_unify, variant, is_t
from .. import gen

PROPERTY = 'P01'
RULE = ('Term pairs (half of them edited copies of one term) over variables X..W shared between the two sides, '
        'on top of 0-3 earlier bindings, and histories of nested unifications that are left normally, abandoned or '
        'left by an exception; compared with a Robinson reference. Non-trivial: at least one side compound and '
        'a variable gets bound (or the occurs check decides).')
NAMES = gen.VARS


def _snapshot(env):
    return {n: (env[n].value if env[n].is_bound() else None) for n in env}


def _same_state(a, b):
    return all(a[n] is b[n] for n in a)


def tup(*xs):
    return ('$t',) + tuple(xs)


class Boom(Exception):
    pass


def run_history(case):
    """ops: ['push', x, y] open a unification; ['pop'] resume the innermost open one
    to its end; ['close'] abandon it; ['throw'] leave it by an exception."""
    from dyna.term import Var, unify, is_ground, deref, snap, term_vars, unifies
    env = {n: Var(n) for n in NAMES}
    blank = _snapshot(env)
    stack = []          # (generator, reference substitution before, snapshot before)
    s = {}
    nontrivial = False
    labels = set()
    for op in case['ops']:
        if op[0] == 'push':
            x, y = dec(op[1]), dec(op[2])
            dx, dy = to_dyna(x, env), to_dyna(y, env)
            want = ref_unify(x, y, s)
            before = _snapshot(env)
            # `unifies` is the test without the bindings
            require(bool(unifies(dx, dy)) == (want is not None),
                    f'unifies({x}, {y}) under {s}: expected {want is not None}')
            require(_same_state(before, _snapshot(env)), f'unifies({x}, {y}) left a binding behind')
            g = unify(dx, dy)
            try:
                next(g)
                ok = True
            except StopIteration:
                ok = False
            require(ok == (want is not None), f'unify({x}, {y}) under {s}: succeeded={ok}, expected {want is not None}')
            if not ok:
                require(_same_state(before, _snapshot(env)), f'failed unify({x}, {y}) left a binding behind')
                labels.add('fail')
                if is_t(x) and is_t(y):
                    nontrivial = True
                continue
            stack.append((g, s, before))
            if want != s:
                labels.add('bound')
                if is_t(x) or is_t(y):
                    nontrivial = True
            s = want
            require(dx == dy, f'after unify({x}, {y}) the two sides are not equal')
        elif not stack:
            continue
        else:
            g, s0, before = stack.pop()
            labels.add(op[0])
            if op[0] == 'pop':
                try:
                    next(g)
                    require(False, 'unify yielded a second solution')
                except StopIteration:
                    pass
            elif op[0] == 'close':
                g.close()
            else:
                try:
                    g.throw(Boom())
                except Boom:
                    pass
            s = s0
            require(_same_state(before, _snapshot(env)), f'bindings not undone by {op[0]}')
        # the bindings now are exactly the most general ones
        names = {}
        have = from_dyna(tuple_term(env), names)
        want = tup(*[subst(s, V(n)) for n in NAMES])
        require(variant(have, want), f'bindings {have} are not a variant of the most general {want}')
        for n in NAMES:
            t = subst(s, V(n))
            require(is_ground(env[n]) == (not tvars(t)), f'is_ground({t})')
            require(len(term_vars(env[n])) == len(tvars(t)), f'term_vars({t})')
            require(from_dyna(deref(env[n]), names) == from_dyna(env[n], names), f'deref({t})')
            require(isinstance(snap(env[n]), Var) == isinstance(t, V), f'snap({t})')
    depth = len(stack)
    while stack:
        g, _, before = stack.pop()
        g.close()
        require(_same_state(before, _snapshot(env)), 'bindings not undone')
    require(_same_state(blank, _snapshot(env)), 'bindings left after everything was undone')
    return Info(nontrivial, sorted(labels) + [f'depth{min(depth, 3)}'])


def tuple_term(env):
    from dyna.term import Term
    return Term('$t', *[env[n] for n in NAMES])


def run_mgu(case):
    "The side-effect-free algorithm computes the same most general unifier, extending what it is given."
    from dyna.term import Subst, Var, intersect, Term, FAIL
    env = {n: Var(n) for n in NAMES}
    s = {}
    S = Subst()
    nontrivial = False
    for x, y in case['pairs']:
        x, y = dec(x), dec(y)
        dx, dy = to_dyna(x, env), to_dyna(y, env)
        want = ref_unify(x, y, s)
        got = S.copy().mgu(dx, dy)
        require((got is not FAIL) == (want is not None), f'mgu({x}, {y}) given {s}: {got}, expected {want}')
        require(not any(v.is_bound() for v in env.values()), 'mgu bound a variable destructively')
        if not s:
            z = intersect(dx, dy)
            require((z is None) == (want is None), f'intersect({x}, {y}) = {z}')
            if z is not None:
                require(variant(from_dyna(z), subst(want, x)), f'intersect({x}, {y}) = {from_dyna(z)}')
                from dyna.term import term_vars
                require(not (set(map(id, term_vars(z))) & {id(v) for v in env.values()}),
                        'intersect returned a variable of its arguments')
        if want is None:
            continue
        if want != s and (is_t(x) or is_t(y)):
            nontrivial = True
        s, S = want, got
        have = from_dyna(S(tuple_term(env)))
        exp = tup(*[subst(s, V(n)) for n in NAMES])
        require(variant(have, exp), f'mgu gives {have}, expected a variant of {exp}')
        require(S(dx) == S(dy), 'the mgu does not make the two sides equal')
    return Info(nontrivial)


PAIR = gen.pair(3)
push = PAIR.map(lambda p: ['push', p[0], p[1]])
op = gen.weighted((3, push), (1, st.sampled_from([['pop'], ['close'], ['throw']])))

CHECKS = [
    Check('history', lambda: st.builds(lambda ops: {'ops': ops}, st.lists(op, min_size=1, max_size=9)),
          run_history, quick=10000),
    Check('mgu', lambda: st.builds(lambda ps: {'pairs': ps}, st.lists(PAIR, min_size=1, max_size=4)),
          run_mgu, quick=10000),
]
