"""Dependency analysis covers every dependency."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from ..terms import V, dec, tvars, text, from_dyna, to_dyna, match, is_t, rule_text
from .. import gen, progs
from ..refeval import BoolS, is_builtin, fnkey, deref, evaluate, CMP
from ..progs import build, rules_of, data_of, ref_eval
from .p24_derivations import join as join_, run_builtin

PROPERTY = 'P27'
RULE = ('Random programs (recursion, structure, overlapping patterns, arithmetic) with data. Every rule instance that fires in the reference evaluation must have its edges in the coarse graphs; items of the instance graph that depend on themselves must be '
        'reported as possible cycles (and expansions); the parts of a split must be right on other data; components must be ordered. Non-trivial: ten edges and some recursion or structure.')
I = st.integers


def instances(rules, items):
    "(rule index, head item, user subgoal items) of the rules that fire."
    chart = {}
    for it in items:
        chart.setdefault(it, [it])
    out = []
    for i, (h, body) in enumerate(rules):
        user = [b for b in body if is_t(b) and not is_builtin(b)]
        bi = [b for b in body if is_t(b) and is_builtin(b)]
        for env, cs in join_([*user], chart, {}):
            for b in bi:
                if env is None:
                    break
                x = deref(b, env)
                if b[0] in CMP:
                    if tvars(x) or not all(isinstance(z, (int, float)) for z in x[1:]):
                        raise Inconclusive('comparison')
                    env = env if CMP[b[0]](x[1], x[2]) else None
                else:
                    env = run_builtin(x, env)
            if env is None:
                continue
            head = deref(h, env)
            if tvars(head):
                raise Inconclusive('nonground item')
            out.append((i, head, [c for c in cs]))
            if len(out) > 3000:
                raise Inconclusive('many instances')
    return out


def run_graph(case):
    p = build(case)
    rules, data = rules_of(case), data_of(case)
    facts = [(f, ()) for f, _ in data]
    ch = evaluate(rules + facts, BoolS)
    items = [f for f in ch.v if ch.v[f]]
    if any(tvars(f) for f in items):
        raise Inconclusive('nonground item')
    what = f'{p.__repr__(color=False)}\n'
    before = str(p)
    cg = p._coarse_graph()
    nodes = list(cg.nodes)
    fires = instances(rules, items)
    rt = {}

    def root(it):
        if it not in rt:
            t = to_dyna(it, {})
            r = cg.nodes.roots(t)
            require(len(r) == 1, lambda: f'{what}{text(it)} is in {len(r)} of the nodes {nodes}')
            rt[it] = r[0]
        return rt[it]
    edges = set()
    deps = {}
    counts = {}
    for i, h, bs in fires:
        x = root(h)
        ys = tuple(root(b) for b in bs)
        deps.setdefault(h, set()).update(bs)
        for b, y in zip(bs, ys):
            edges.add((x, y))
            require(y in cg.g.outgoing[x], lambda: f'{what}{text(h)} is derived from {text(b)}, but the graph has no edge from {x} to {y}')
        require(any(e.weight == i and e.body == ys for e in cg.h.incoming[x]), lambda: f'{what}rule {i} derives {text(h)} from {[text(b) for b in bs]}, but the hypergraph has no such edge at {x}')
    # nothing is invented: every edge is between the patterns of a rule
    from dyna.term import unifies, fresh
    pats = [(fresh(r.head), [fresh(b) for b in r.body if not (p.is_const(b) or p.is_builtin(b))]) for r in p]
    for x in list(cg.g.nodes):
        for y in cg.g.outgoing[x]:
            require(any(unifies(fresh(x), h) and any(unifies(fresh(y), b) for b in bs) for h, bs in pats), lambda: f'{what}no rule gives the edge from {x} to {y}')
    # cycles and expansions among items
    reach = closure(deps)
    cyc = any(h in reach[h] for h in reach)
    require(not cyc or cg.possibly_cyclic(), lambda: f'{what}is said to be acyclic')
    exp = any(sum(h in reach.get(b, ()) or h == b for b in bs) > 1 for i, h, bs in fires)
    require(not exp or cg.possibly_expansive(), lambda: f'{what}is said not to be expansive')
    if not any(is_t(b) and is_builtin(b) for _, bs in rules for b in bs):
        require(cg.possibly_cyclic() or not cg.possibly_expansive(), lambda: f'{what}is said to be expansive but acyclic')
    # input dependence
    ind, dep = cg.split_input_dependent()
    require(len(ind) + len(dep) == len(p), lambda: f'{what}the parts have {len(ind)} and {len(dep)} rules')
    ir, dr = progs.ref_rules(ind), progs.ref_rules(dep)
    a = ref_eval(ir, [])
    b = ref_eval(ir + dr, data)
    c = ref_eval(rules, data)
    heads = {id(h): h for h, _ in ir}.values()
    from ..refeval import diff
    from ..terms import unifiable_apart
    keep = lambda f: any(unifiable_apart(f, h) for h in heads)
    x = diff(a, c, keep)
    require(x is None, lambda: f'{what}the part\n{ind}\nis said not to depend on the input, but {text(x[0])} is {x[1]} without it and {x[2]} with it')
    x = diff(b, c)
    require(x is None, lambda: f'{what}is split into\n{ind}\nand\n{dep}\nwhich together give {text(x[0])} the value {x[1]} instead of {x[2]}')
    if len(ind) and all(not isinstance(v, tuple) or len(v) < 2 for v in a.v.values()) and not any(is_builtin(b) for _, bs in ir for b in bs if is_t(b)):
        q = cg.solve_input_independent()
        e = ref_eval(progs.ref_rules(q), data)
        x = diff(c, e)
        require(x is None, lambda: f'{what}with the independent part solved is\n{q}\nwhich gives {text(x[0])} the value {x[2]} instead of {x[1]}')
    # components
    done, parts = [], []
    edb = {f[0] for f, _ in data}
    need = useful_roots(cg, p)
    for xs, q in cg.scc_decomposition():
        done.append(set(xs))
        parts += progs.ref_rules(q)
        for h, bs in pats_of(q):
            for bb in bs:
                for y in cg.nodes.roots(bb):
                    require(any(y in d for d in done) , lambda: f'{what}the component {set(xs)} comes before {y}, which it depends on')
            require(any(unifies(fresh(h), fresh(y)) for y in xs), lambda: f'{what}the rules of the component {set(xs)} are\n{q}')
    require(len(set().union(*done)) == sum(map(len, done)), lambda: f'{what}overlapping components {done}')
    for y in need:
        require(any(y in d for d in done), lambda: f'{what}{y} is in no component, though an output depends on it')
    d = ref_eval(parts, data)
    x = diff(c, d, lambda f: any(y in need for y in cg.nodes.roots(to_dyna(f, {}))) and f[0] not in edb)
    require(x is None, lambda: f'{what}the rules of the components\n{progs.show_rules(parts)}\ngive {text(x[0])} the value {x[2]} instead of {x[1]}')
    require(str(p) == before, lambda: f'{what}the program changed')
    return Info(len(edges) > 2 and len(fires) > 5, ['cyclic' if cyc else 'acyclic', 'expansive' if exp else 'linear', 'independent' if len(ind) else 'dependent'])


def pats_of(q):
    return [(r.head, [b for b in r.body if not (q.is_const(b) or q.is_builtin(b))]) for r in q]


def useful_roots(cg, p):
    "Nodes that an output depends on."
    todo = [x for x in cg.g.nodes if p.is_output(x)]
    out = set(todo)
    while todo:
        for y in cg.g.outgoing[todo.pop()]:
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def closure(deps):
    out = {}
    for h in deps:
        seen, todo = set(), list(deps[h])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += deps.get(x, ())
        out[h] = seen
    return out


kw = dict(n_rules=(2, 5), n_idb=(2, 4))
CASES = gen.weighted((4, progs.datalog(rr=True, **kw)), (3, progs.datalog(rr=True, structs=True, **kw)), (2, progs.datalog(rr=True, builtins=True, **kw)), (2, progs.template()))


@st.composite
def cases(draw):
    "Some rules do not use the input; some subgoals are specialised."
    c = draw(CASES)
    rules = [[h, list(b)] for h, b in c['rules']]
    for _ in range(draw(I(0, 3))):
        k = draw(I(0, 3))
        if k == 0:
            rules.insert(draw(I(0, len(rules))), draw(st.sampled_from([[['k', 0], []], [['k', 1], [2]], [['k', ['s', progs.v('X')]], [['k0', progs.v('X')]]], [['k0', 0], [3]], [['k', progs.v('X')], [['k0', progs.v('X')], ['k0', progs.v('Y')]]], [['k0', 1], [['w9']]]])))
        else:
            i = draw(I(0, len(rules) - 1))
            rules[i][1].insert(draw(I(0, len(rules[i][1]))), draw(st.sampled_from([['k', 0], ['k', progs.v('X')], ['k', ['s', progs.v('X')]], ['k0', progs.v('Y')]])))
    # heads stay range restricted: an unbound variable is replaced
    return {**c, 'rules': rules}


CHECKS = [Check('graph', cases(), run_graph, quick=4000, case_timeout=5)]
