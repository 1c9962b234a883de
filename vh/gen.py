"""Strategies for terms (JSON-encoded; see terms.enc)."""
from hypothesis import strategies as st



def weighted(*pairs):
    """Choose a strategy with the given integer weights.  (`one_of` drops repeated
    alternatives, so repetition does not weight it.)"""
    table = [s for w, s in pairs for _ in range(w)]
    return st.integers(0, len(table) - 1).flatmap(lambda i: table[i])


VARS = ['X', 'Y', 'Z', 'W']
ATOMS = ['a', 'b', 'c']
CONSTS = [0, 1, 2, -3, 'a', 'b', '', 2.5, True]
FUNCTORS = [('f', 2), ('g', 1), ('h', 3), ('f', 1), ('p', 2), ('$cons', 2)]


def leaf(vars=VARS, atoms=ATOMS, consts=CONSTS):
    opts = []
    if vars:
        opts.append((2, st.sampled_from([{'v': v} for v in vars])))
    if atoms:
        opts.append((1, st.sampled_from([[a] for a in atoms])))
    if consts:
        opts.append((1, st.sampled_from(list(consts))))
    return weighted(*opts)


_cache = {}


def term(depth=3, vars=VARS, atoms=ATOMS, consts=CONSTS, functors=FUNCTORS):
    key = (depth, tuple(vars), tuple(atoms), repr(consts), tuple(functors))
    if key in _cache:
        return _cache[key]
    lf = leaf(vars, atoms, consts)
    if depth == 0:
        s = lf
    else:
        sub = term(depth - 1, vars, atoms, consts, functors)
        comp = [st.tuples(st.just(f), *[sub] * a).map(list) for f, a in functors]
        s = st.one_of(lf, *comp)
    _cache[key] = s
    return s


def compound(depth=3, vars=VARS, atoms=ATOMS, consts=CONSTS, functors=FUNCTORS):
    "A term that is not a bare variable or constant."
    sub = term(depth - 1, vars, atoms, consts, functors)
    return st.one_of(*[st.tuples(st.just(f), *[sub] * a).map(list) for f, a in functors])


def _sites(j, path=()):
    yield path
    if isinstance(j, list):
        for i in range(1, len(j)):
            yield from _sites(j[i], path + (i,))


def _get(j, path):
    for i in path:
        j = j[i]
    return j


def _put(j, path, x):
    if not path:
        return x
    j = list(j)
    j[path[0]] = _put(j[path[0]], path[1:], x)
    return j


def mutate(base, edits):
    """Apply a list of (site, replacement) edits to term `base`; the replacement
    {'copy': k} copies the k-th subterm of the term itself."""
    t = base
    for site, rep in edits:
        sites = list(_sites(t))
        p = sites[site % len(sites)]
        if isinstance(rep, dict) and 'copy' in rep:
            rep = _get(t, sites[rep['copy'] % len(sites)])
        t = _put(t, p, rep)
    return t


def pair(depth=3, **kw):
    """Two related terms: the second is an edited copy of the first, so that
    unification / matching gets past the root most of the time."""
    t = term(depth, **kw)
    small = term(1, **kw)
    vs = st.sampled_from([{'v': v} for v in kw.get('vars', VARS)])
    edit = st.tuples(st.integers(1, 14), weighted((3, vs), (1, small), (1, st.integers(0, 12).map(lambda k: {'copy': k}))))
    related = st.builds(lambda b, e1, e2: (mutate(b, e1), mutate(b, e2)),
                        compound(depth, **kw), st.lists(edit, max_size=3), st.lists(edit, max_size=2))
    return weighted((4, related), (1, st.tuples(t, t))).map(list)
