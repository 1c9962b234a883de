"""Subsumption, variants, canonical forms, renaming, matching of subgoal lists, term order."""
import itertools
from hypothesis import strategies as st

from ..core import Check, Info, require
from ..terms import (V, canon, covers as ref_covers, dec, from_dyna, match, rename, subst, to_dyna, tvars,
                     variant, is_t)
from .. import gen

PROPERTY = 'P02'
RULE = ('Pairs of related terms (variables of the two sides the same objects, or disjoint), pairs of subgoal lists, '
        'and triples of ground/non-ground terms for the order; compared with one-way matching written independently. '
        'Non-trivial: both sides compound and one strictly subsumes the other, or they are variants with variables, '
        'or an alignment exists.')


def run_covers(case):
    from dyna.term import covers, same, canonicalize, fresh, term_vars, Var, is_ground
    x, y = dec(case['x']), dec(case['y'])
    share = case['share']
    ex = {}
    dx = to_dyna(x, ex)
    dy = to_dyna(y, ex if share else {})
    for (a, b, da, db) in [(x, y, dx, dy), (y, x, dy, dx)]:
        want = ref_covers(a, b)
        got = covers(da, db)
        require(bool(got) == want, f'covers({a}, {b}) = {got}, expected {want} (share={share})')
    want = variant(x, y)
    require(bool(same(dx, dy)) == want, f'same({x}, {y}) should be {want} (share={share})')
    cx, cy = canonicalize(dx), canonicalize(dy)
    require((cx == cy) == want, f'canonicalize({x}) == canonicalize({y}) should be {want}')
    if want:
        require(hash(cx) == hash(cy), f'equal canonical forms of {x} and {y} hash differently')
    require(variant(from_dyna(cx), x), f'canonicalize({x}) = {from_dyna(cx)} is not a variant of it')
    require(canonicalize(cx) == cx, f'canonicalize is not idempotent on {x}')
    fx = fresh(dx)
    require(variant(from_dyna(fx), x), f'fresh({x}) = {from_dyna(fx)}')
    old = {id(v) for v in term_vars(dx)}
    require(not any(id(v) in old for v in term_vars(fx)), f'fresh({x}) reuses a variable')
    require(len(term_vars(dx)) == len(tvars(x)) and is_ground(dx) == (not tvars(x)), f'term_vars({x})')
    require(not any(v.is_bound() for v in ex.values()), 'a test bound a variable')
    strict = ref_covers(x, y) != ref_covers(y, x)
    return Info(is_t(x) and is_t(y) and (strict or (want and tvars(x))),
                ['strict' if strict else 'variant' if want else 'neither', 'shared' if share else 'apart'])


def run_bound(case):
    "Subsumption, renaming and canonical form look through bound variables."
    from dyna.term import covers, same, canonicalize, fresh, unify, Var, deref
    x = dec(case['x'])
    binds = [(v, dec(t)) for v, t in case['binds']]
    env = {n: Var(n) for n in gen.VARS}
    s = {}

    def go(i):
        nonlocal s
        if i == len(binds):
            dx = to_dyna(x, env)
            t = subst(s, x)
            plain = to_dyna(t, {})
            require(variant(from_dyna(dx), t), 'structure')
            require(bool(same(dx, plain)) and bool(covers(plain, dx)) and bool(covers(dx, plain)),
                    f'{x} under bindings {s} is not the same as {t}')
            require(canonicalize(dx) == canonicalize(plain), f'canonicalize {x} under {s}')
            require(hash(canonicalize(dx)) == hash(canonicalize(plain)), f'hash canonicalize {x} under {s}')
            f = fresh(dx)
            d = deref(dx)
            require(variant(from_dyna(f), t), f'fresh({x}) under {s}')
            require(d == dx and not isinstance(d, Var) or d is dx or isinstance(t, V), f'deref({x}) under {s}')
            return f, t
        n, t = binds[i]
        from ..terms import unify as ru
        s2 = ru(V(n), t, s)
        if s2 is None:
            return go(i + 1)
        s = s2
        for _ in unify(env[n], to_dyna(t, env)):
            return go(i + 1)
    f, t = go(0)
    # the copy made inside the scope is unaffected by leaving it
    require(variant(from_dyna(f), t), f'a fresh copy of {x} changed when the bindings were undone')
    return Info(bool(s) and is_t(x) and any(v in s for v in tvars(x)))


def run_lists(case):
    "Matching a list of subgoals into another list: all injective alignments, no others."
    from dyna.term import Product
    xs = [dec(t) for t in case['xs']]
    ys = [rename(dec(t), 'r') for t in case['ys']]
    env = {}
    dx = Product([to_dyna(t, env) for t in xs])
    dy = Product([to_dyna(t, env) for t in ys])
    want = set()
    for js in itertools.permutations(range(len(ys)), len(xs)):
        m = {}
        for i, j in enumerate(js):
            m = match(xs[i], ys[j], m)
            if m is None:
                break
        if m is not None:
            want.add(js)
    got = []
    for (S, A, R) in dx.covers(dy):
        js = [None] * len(xs)
        for j, i in A.items():
            js[i] = j
        require(None not in js and len(set(js)) == len(js), f'alignment {A} is not one-to-one on {xs}')
        got.append(tuple(js))
        require(sorted(R) == [j for j in range(len(ys)) if j not in js], f'uncovered set {R} for {A}')
        for i, j in enumerate(js):
            require(S(dx[i]) == dy[j], f'substitution does not map {xs[i]} to {ys[j]}')
    require(len(got) == len(set(got)), f'alignment reported twice: {got}')
    require(set(got) == want, f'{xs} into {ys}: alignments {sorted(set(got))}, expected {sorted(want)}')
    full = len(list(dx.match_comm(dy))) if len(xs) == len(ys) else 0
    if len(xs) == len(ys):
        require(full == len(want), f'commutative matches of {xs} with {ys}: {full}, expected {len(want)}')
    return Info(bool(want) and len(xs) > 0 and any(tvars(x) for x in xs), [f'align{min(len(want), 4)}'])


def run_order(case):
    "The order used for sorting is a strict total order; sorting does not depend on the initial arrangement."
    from dyna.term import lt
    ts = [dec(t) for t in case['ts']]
    env = {}
    ds = [to_dyna(t, env) for t in ts]
    n = len(ds)
    L = [[bool(lt(a, b)) for b in ds] for a in ds]
    for i in range(n):
        require(not L[i][i], f'{ts[i]} < itself')
        for j in range(n):
            if i != j:
                eq = ds[i] == ds[j]
                require(L[i][j] + L[j][i] + bool(eq) == 1,
                        f'{ts[i]} and {ts[j]}: < is {L[i][j]}, > is {L[j][i]}, equal is {bool(eq)}')
            for k in range(n):
                if L[i][j] and L[j][k]:
                    require(L[i][k], f'not transitive: {ts[i]} < {ts[j]} < {ts[k]}')
    terms = [d for d, t in zip(ds, ts) if is_t(t)]
    from dyna.term import Term
    a = sorted(terms)
    b = sorted(reversed(terms))
    require(len(a) == len(b) and all(x == y for x, y in zip(a, b)), f'sorting {ts} depends on the initial order')
    return Info(n >= 3 and len({type(t) for t in ts}) >= 2)


def run_replace(case):
    "Replacing a subterm replaces every occurrence and nothing else; substitution application agrees."
    from dyna.term import replace_in_expr, Subst
    x, t, r = dec(case['x']), dec(case['t']), dec(case['r'])
    env = {}
    dx, dt, dr = to_dyna(x, env), to_dyna(t, env), to_dyna(r, env)

    def rep(e):
        if e == t and type_ok(e, t):
            return r
        if isinstance(e, tuple):
            return (e[0],) + tuple(rep(a) for a in e[1:])
        return e
    names = {}
    have = from_dyna(replace_in_expr(dx, dt, dr), names)
    back = {n: from_dyna(v, names) for n, v in env.items()}
    want = subst_flat({V(n): back[n] for n in back}, rep(x))
    require(have == want, f'replace {t} by {r} in {x}: {have}, expected {want}')
    if isinstance(t, V):
        from ..terms import occurs
        if not occurs({}, t, r):
            have = from_dyna(Subst({dt: dr})(dx), names)
            require(have == want, f'substituting {r} for {t} in {x}: {have}')
    return Info(is_t(x) and rep(x) != x)


def type_ok(a, b):
    return True


def subst_flat(m, e):
    if isinstance(e, V):
        return m.get(e, e)
    if isinstance(e, tuple):
        return (e[0],) + tuple(subst_flat(m, a) for a in e[1:])
    return e


NOB = [c for c in gen.CONSTS if c is not True]
NUMS = [0, 1, 2, -3, 2.5]
KW = dict(consts=[0, 1, 2, 'a', 'b'])
sub = st.one_of(gen.pair(2, **KW).flatmap(lambda p: st.sampled_from(p)), gen.compound(1, **KW))
FN1 = [('f', 2), ('g', 1)]
small = gen.compound(2, vars=['X', 'Y', 'Z'], atoms=['a'], consts=[0], functors=FN1)
lists = st.builds(lambda base, es, extra, perm: {
    'xs': base, 'ys': [gen.mutate(b, e) for b, e in zip(base, es)][:4] + extra},
    st.lists(small, min_size=0, max_size=3),
    st.lists(st.lists(st.tuples(st.integers(1, 5), st.sampled_from([['a'], ['b'], {'v': 'X'}, {'v': 'Y'}, {'copy': 1}, 0])),
                      max_size=2), min_size=3, max_size=3),
    st.lists(small, max_size=2), st.just(0))
bind = st.tuples(st.sampled_from(gen.VARS), gen.term(2)).map(list)
CHECKS = [
    Check('covers', lambda: st.builds(lambda p, s: {'x': p[0], 'y': p[1], 'share': s}, gen.pair(3), st.booleans()),
          run_covers, quick=10000),
    Check('bound', lambda: st.builds(lambda x, b: {'x': x, 'binds': b}, gen.compound(3), st.lists(bind, min_size=1, max_size=4)),
          run_bound, quick=5000),
    Check('lists', lambda: lists, run_lists, quick=7000),
    Check('order', lambda: st.builds(lambda ts: {'ts': ts},
                                     st.lists(gen.term(2, consts=NOB + [7, 'f', 'g', 'zz']), min_size=3, max_size=5)),
          run_order, quick=6000),
    Check('replace', lambda: st.builds(lambda x, t, i, r: {'x': x, 'r': r, 't': (
        t if t is not None else gen._get(x, list(gen._sites(x))[i % len(list(gen._sites(x)))]))},
        gen.compound(3, consts=NUMS), st.one_of(st.none(), gen.term(1, consts=NUMS)), st.integers(0, 9), gen.term(1, consts=NUMS)),
          run_replace, quick=4000),
]
