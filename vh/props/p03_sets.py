"""Anti-unification and the set-of-patterns containers."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from ..terms import (V, covers, dec, from_dyna, lgg, rename, to_dyna, tvars, unifiable_apart, variant, is_t)
from .. import gen

PROPERTY = 'P03'
RULE = ('Pairs of related terms for generalization; histories of insertions (3-9 related patterns, inserted as written, so '
        'later patterns may share variables with earlier ones) into the most-general, disjoint and no-duplicate '
        'containers, with membership questions after every insertion, judged with independent matching/unification. '
        'Non-trivial: the two terms differ below a shared functor / an insertion is absorbed or evicts or merges.')


def linear_lgg(x, y, n):
    if is_t(x) and is_t(y) and x[0] == y[0] and len(x) == len(y):
        return (x[0],) + tuple(linear_lgg(a, b, n) for a, b in zip(x[1:], y[1:]))
    if not is_t(x) and not is_t(y) and not isinstance(x, V) and not isinstance(y, V) and x == y:
        return x
    n[0] += 1
    return V(f'L{n[0]}')


def run_generalizer(case):
    from dyna.term import generalizer
    x, y = dec(case['x']), dec(case['y'])
    env = {}
    g = from_dyna(generalizer(to_dyna(x, env), to_dyna(y, {})))
    require(covers(g, x), f'generalization {g} of {x} and {y} does not cover the first')
    require(covers(g, y), f'generalization {g} of {x} and {y} does not cover the second')
    n = [0]
    top = linear_lgg(x, y, n)
    require(covers(top, g), f'generalization {g} of {x} and {y} forgets structure the two agree on ({top})')
    if not tvars(x) and not tvars(y):
        require(variant(g, lgg(x, y)), f'generalization {g} of ground {x} and {y} is not the least general {lgg(x, y)}')
    require(not any(v.is_bound() for v in env.values()), 'generalizer bound a variable')
    return Info(is_t(x) and is_t(y) and x[0] == y[0] and not variant(x, y),
                ['lgg' if variant(g, lgg(x, y)) else 'above-lgg'])


def run_mgs(case):
    from dyna.term import MostGeneralSet, covers as dcovers
    ts = [dec(t) for t in case['ts']]
    env = {}
    S = MostGeneralSet([], dcovers)
    added = []
    moved = False
    for t in ts:
        r = S.add(to_dyna(t, env))
        want = any(covers(a, t) for a in added)
        require(bool(r) == want, f'add({t}) to {added} returned {r}, expected {want}')
        moved = moved or want or any(covers(t, a) for a in added)
        added.append(t)
        xs = [from_dyna(s) for s in S]
        require(len(S) == len(xs), 'len')
        for i, a in enumerate(xs):
            require(any(variant(a, b) for b in added), f'member {a} was never added')
            for j, b in enumerate(xs):
                require(i == j or not covers(a, b), f'{a} and {b} are both members but one covers the other')
        for a in added:
            require(any(covers(b, a) for b in xs), f'{a} was added but no member covers it: {xs}')
    for q in [dec(t) for t in case['qs']] + ts:
        cand = [i for i, s in enumerate(xs) if covers(s, q)]
        try:
            i = S.find(to_dyna(q, env))
        except KeyError:
            i = None
        require((i is None) == (not cand) and (i is None or i in cand), f'find({q}) in {xs} = {i}')
        if i is not None:
            require(from_dyna(S.root(to_dyna(q, env))) == xs[i] or variant(from_dyna(S.root(to_dyna(q, env))), xs[i]), 'root')
    return Info(moved, [f'size{min(len(xs), 4)}'])


def run_nodups(case):
    from dyna.term import NoDupsSet, same
    ts = [dec(t) for t in case['ts']]
    env = {}
    S = NoDupsSet([], same)
    model = []
    dup = False
    for t in ts:
        want = any(variant(t, m) for m in model)
        r = S.add(to_dyna(t, env))
        require(bool(r) == want, f'add({t}) to {model} returned {r}')
        dup = dup or want
        if not want:
            model.append(t)
        xs = [from_dyna(s) for s in S]
        require(len(xs) == len(model) == len(S) and all(variant(a, b) for a, b in zip(xs, model)), f'{xs} != {model}')
    for q in [dec(t) for t in case['qs']] + ts:
        cand = [i for i, m in enumerate(model) if variant(m, q)]
        try:
            i = S.find(to_dyna(q, env))
        except KeyError:
            i = None
        require(i == (cand[0] if cand else None), f'find({q}) in {model} = {i}')
    return Info(dup and len(model) > 1)


def run_disjoint(case):
    from dyna.term import DisjointEstimate
    ts = [dec(t) for t in case['ts']]
    env = {}
    S = DisjointEstimate()
    added = []
    merged = False
    for t in ts:
        n = len(S)
        S.add(to_dyna(t, env))
        merged = merged or len(S) <= n
        added.append(t)
        xs = [from_dyna(s) for s in S]
        for i, a in enumerate(xs):
            for j, b in enumerate(xs[:i]):
                require(not unifiable_apart(a, b), f'after {added}: members {b} and {a} overlap')
        for a in added:
            require(any(covers(b, a) for b in xs), f'{a} was added but is not covered by {xs}')
        for b in xs:
            require(any(covers(b, a) for a in added), f'member {b} covers nothing that was added')
    # patterns that overlap nothing stay exactly as written
    for a in ts:
        if sum(unifiable_apart(a, b) for b in ts) == 1:
            require(any(variant(a, b) for b in xs) or any(unifiable_apart(a, b) and not variant(a, b) for b in xs), 'lost')
    for q in [dec(t) for t in case['qs']] + ts:
        cand = [i for i, s in enumerate(xs) if unifiable_apart(s, q)]
        d = to_dyna(q, env)
        require(sorted(S.find_all(d)) == cand, f'find_all({q}) in {xs} = {S.find_all(d)}, expected {cand}')
        require(len(S.roots(d)) == len(cand), 'roots')
        try:
            i = S.find(d)
        except KeyError:
            i = None
        require(i == (cand[0] if len(cand) == 1 else None), f'find({q}) in {xs} = {i}, expected {cand}')
    return Info(merged, [f'size{min(len(xs), 4)}'])


KW = dict(vars=['X', 'Y', 'Z'], atoms=['a', 'b'], consts=[0, 1, 'a'], functors=[('f', 2), ('g', 1), ('p', 2)])
GKW = dict(KW, vars=[])
EDIT = st.tuples(st.integers(1, 9), st.one_of(gen.term(1, **KW), st.sampled_from([{'v': 'X'}, {'v': 'Y'}]),
                                              st.integers(0, 8).map(lambda k: {'copy': k})))


def family():
    "Related patterns: edited copies of one base, plus a few unrelated ones."
    base = gen.compound(2, **KW)
    fam = base.flatmap(lambda b: st.lists(st.lists(EDIT, max_size=2).map(lambda e: gen.mutate(b, e)), min_size=3, max_size=8))
    return st.builds(lambda f, o, q: {'ts': f + o, 'qs': q}, fam, st.lists(gen.term(2, **KW), max_size=2),
                     st.lists(gen.term(2, **KW), max_size=3))


def flat_family():
    "Many patterns over one flat functor: chains of overlaps."
    arg = st.sampled_from([{'v': 'X'}, {'v': 'Y'}, {'v': 'Z'}, 0, 1, ['a'], ['b'], ['g', 0], ['g', {'v': 'X'}]])
    pat = st.tuples(st.just('p'), arg, arg, arg).map(list)
    return st.builds(lambda ts, qs: {'ts': ts, 'qs': qs}, st.lists(pat, min_size=3, max_size=8), st.lists(pat, max_size=3))


fams = lambda: st.one_of(family(), flat_family())
CHECKS = [
    Check('generalizer', lambda: st.builds(lambda p: {'x': p[0], 'y': p[1]},
                                           st.one_of(gen.pair(3, **KW), gen.pair(3, **GKW) if False else st.tuples(gen.compound(3, **GKW), gen.compound(3, **GKW)),
                                                     gen.pair(3, **KW))),
          run_generalizer, quick=8000),
    Check('most_general', fams, run_mgs, quick=4000),
    Check('nodups', fams, run_nodups, quick=2500),
    Check('disjoint', fams, run_disjoint, quick=5000),
]
