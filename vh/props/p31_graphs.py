"""Graph utilities compute what they name."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen

PROPERTY = 'P31'
RULE = ('Random directed graphs (self-loops, isolated nodes, several components, restricted roots), hypergraphs (empty bodies, repeated nodes) and weight matrices over six semirings, one of them '
        'non-commutative. Components and closure are compared with brute-force reachability, matrix star with the sum over paths by length, hypergraph usefulness with a search for complete derivations. '
        'Non-trivial: a component with two nodes and two components (graphs); a cycle (matrices); a node that is cut (hypergraphs).')
N = st.integers(0, 6)


def reach(edges, nodes):
    out = {}
    for u, v in edges:
        out.setdefault(u, set()).add(v)
    R = {}
    for x in nodes:                         # nodes reachable by one edge or more
        seen, todo = set(), list(out.get(x, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo += out.get(y, ())
        R[x] = seen
    return R


def run_graph(case):
    from dyna.util.graphs import Graph, tarjan
    edges = [tuple(e) for e in case['edges']]
    nodes = {x for e in edges for x in e} | set(case['extra'])
    g = Graph(edges)
    for x in case['extra']:
        g.add(x)
    require(set(g) == nodes and len(g) == len(nodes), f'nodes {set(g)}')
    require(sorted(g.edges) == sorted(set(edges)), f'edges {sorted(g.edges)} of {edges}')
    R = reach(edges, nodes)
    roots = [x for x in case['roots'] if x in nodes]
    span = set(roots) | {y for x in roots for y in R[x]} if roots else nodes

    comp = {x: frozenset({x} | {y for y in R[x] if x in R[y]}) for x in span}
    for name, C in [('tarjan', list(tarjan(g.__getitem__, roots or sorted(nodes)))), ('condensation', list(g.condensation(roots=roots or None).topo))]:
        what = f'{name} of {edges} from {roots or "everywhere"}: {C}'
        require(len(C) == len(set(C)) and set(C) == set(comp.values()), f'{what}, expected {set(comp.values())}')
        pos = {x: i for i, c in enumerate(C) for x in c}
        for x in span:
            for y in R[x]:
                require(pos[y] <= pos[x], f'{what}: {x} depends on {y}, which comes later')
    c = g.condensation(roots=roots or None)
    want = {(comp[x], comp[y]) for x, y in edges if x in span and comp[x] != comp[y]}
    require(set(c) == set(comp.values()) and set(c.edges) == want, f'condensation of {edges}: {set(c.edges)}, expected {want}')
    for x in span:
        require(c.topo[c.s[x]] == comp[x], f'condensation of {edges} places {x} wrongly')
    for reflexive in (False, True):
        t = g.transitive_closure(reflexive=reflexive)
        want = {(x, y) for x in nodes for y in R[x]} | ({(x, x) for x in nodes} if reflexive else set())
        require(set(t) == nodes and set(t.edges) == want, f'closure (reflexive={reflexive}) of {edges}: {sorted(t.edges)}, expected {sorted(want)}')
    require(sorted(g.edges) == sorted(set(edges)) and set(g) == nodes, 'the graph changed')
    cs = set(comp.values())
    return Info(any(len(x) > 1 for x in cs) and len(cs) > 1, ['roots' if roots else 'all', f'comps{min(len(cs), 4)}'])


class Words:
    "Weighted sums of words of at most 3 letters: a non-commutative semiring; longer words vanish."
    D = 3

    def __init__(self, v=()):
        self.v = {w: k for w, k in dict(v).items() if k}

    def __add__(self, other):
        v = dict(self.v)
        for w, k in other.v.items():
            v[w] = v.get(w, 0) + k
        return Words(v)

    def __mul__(self, other):
        v = {}
        for a, x in self.v.items():
            for b, y in other.v.items():
                if len(a + b) <= self.D:
                    v[a + b] = v.get(a + b, 0) + x * y
        return Words(v)

    def __eq__(self, other):
        return isinstance(other, Words) and self.v == other.v

    def __hash__(self):
        return hash(frozenset(self.v.items()))

    def __repr__(self):
        return '+'.join(f'{k}{w}' for w, k in sorted(self.v.items())) or '0'

    @classmethod
    def star(cls, x):
        assert '' not in x.v
        t = s = cls.one
        for _ in range(cls.D):
            t = t * x
            s = s + t
        return s


Words.zero, Words.one = Words(), Words({'': 1})


def word(k):
    return Words({chr(97 + k % 5) + ('z' if k > 8 else ''): k % 3 + 1})


def run_kleene(case):
    import numpy as np
    from dyna.execute.linear import kleene
    from dyna import MinPlus, MaxTimes, Boolean, Float
    S, n = case['S'], case['n']
    cls = {'words': Words, 'bool': Boolean, 'minplus': MinPlus, 'maxtimes': MaxTimes, 'float': Float}[S]
    num = (lambda x: x) if S == 'words' else (lambda x: getattr(x, 'score', getattr(x, 'cost', x)))
    vals = {'words': None, 'bool': lambda k: True, 'minplus': lambda k: float(k), 'maxtimes': lambda k: 0.5 ** (k % 4 + 1), 'float': lambda k: (k % 3 + 1) / 32}[S]
    A = np.full((n, n), cls.zero, dtype=object)
    E = {}
    for i, j, k in case['entries']:
        i, j = i % n, j % n
        if (i, j) in E:
            continue
        if S == 'words':
            E[i, j] = A[i, j] = word(k)
        else:
            E[i, j] = vals(k)
            A[i, j] = cls(vals(k)) if S != 'float' else vals(k)
    B = A.copy()
    plus, times, zero, one = {
        'words': (lambda a, b: a + b, lambda a, b: a * b, Words.zero, Words.one),
        'bool': (lambda a, b: a or b, lambda a, b: a and b, False, True),
        'minplus': (min, lambda a, b: a + b, float('inf'), 0.0),
        'maxtimes': (max, lambda a, b: a * b, 0.0, 1.0),
        'float': (lambda a, b: a + b, lambda a, b: a * b, 0.0, 1.0)}[S]
    # sum over the paths by their length
    P = {(i, i): one for i in range(n)}
    T, steps = {}, {'words': 3, 'bool': n, 'minplus': n, 'maxtimes': n, 'float': 40}[S]
    for _ in range(steps):
        Q = {}
        for (i, j), a in P.items():
            for (u, v), b in E.items():
                if u == j:
                    c = times(a, b)
                    Q[i, v] = plus(Q[i, v], c) if (i, v) in Q else c
        P = Q
        for k, a in P.items():
            T[k] = plus(T[k], a) if k in T else a
    for reflexive in (False, True):
        C = kleene(A, cls, reflexive=reflexive)
        for i in range(n):
            for j in range(n):
                want = T.get((i, j), zero)
                if reflexive and i == j:
                    want = plus(want, one)
                got = num(C[i, j])
                ok = got == want or (S == 'float' and abs(got - want) < 1e-7)
                require(ok, f'star (reflexive={reflexive}) of {E} in {S} at {i, j}: {got}, expected {want}')
        require(all(num(a) == num(b) for a, b in zip(A.flat, B.flat)), 'the matrix changed')
    R = reach(E, range(n))
    return Info(any(x in R[x] for x in range(n)), [S])


def run_hyper(case):
    from dyna.util.graphs import Hypergraph
    g = Hypergraph()
    E = [(h, tuple(b)) for h, b in case['edges']]
    for i, (h, b) in enumerate(E):
        g.add_edge(h, i, *b)
    ins, outs = set(case['ins']), set(case['outs'])
    require(sorted((e.head, tuple(e.body)) for e in g.edges()) == sorted(E), 'edges')
    C, grew = set(ins), True
    while grew:
        new = {h for h, b in E if set(b) <= C} - C
        grew = bool(new)
        C |= new
    must, may = {x for x in outs if x in C}, set(outs)
    for _ in range(len(E) + 1):
        for h, b in E:
            if h in must and set(b) <= C:
                must |= set(b)
            if h in may:
                may |= set(b) & C
    T = g.reachability(set(ins), set(outs))
    what = f'useful nodes of {E} from {ins} to {outs}: {set(T)}'
    require(must <= T, f'{what} lack {must - T}')
    require(T <= may | outs, f'{what} include {T - may}')
    nodes = {h for h, _ in E} | {x for _, b in E for x in b}
    return Info(must and nodes - must, ['all' if nodes <= must else 'cut', 'tight' if must == T else 'loose'])


EDGE = st.tuples(N, N).map(list)


@st.composite
def graphs(draw):
    n = draw(st.integers(3, 9))
    x = st.integers(0, n)
    return {'edges': draw(st.lists(st.tuples(x, x).map(list), min_size=n, max_size=2 * n + 4)), 'extra': draw(st.lists(x, max_size=2)),
            'roots': draw(gen.weighted((3, st.just([])), (1, st.lists(x, max_size=3))))}


MATRIX = st.fixed_dictionaries({'S': st.sampled_from(['words', 'words', 'bool', 'minplus', 'maxtimes', 'float']), 'n': st.integers(1, 5),
                                'entries': st.lists(st.tuples(N, N, st.integers(0, 11)).map(list), min_size=1, max_size=12)})
HYPER = st.fixed_dictionaries({'edges': st.lists(st.tuples(N, st.lists(N, max_size=3)).map(list), min_size=1, max_size=10), 'ins': st.lists(N, max_size=3), 'outs': st.lists(N, min_size=1, max_size=3)})
CHECKS = [Check('graph', graphs, run_graph, quick=3000), Check('star', MATRIX, run_kleene, quick=3000), Check('hyper', HYPER, run_hyper, quick=3000)]
