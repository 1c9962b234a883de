"""Shared by P17 (speculation) and P18 (left-corner): random divisors and positions."""
from hypothesis import strategies as st

from .core import Info, Inconclusive
from .terms import dec, from_rule, to_dyna, unifiable_apart, covers, canon, rename, V, tvars
from . import gen, progs
from .progs import build, rules_of, data_of, compare, ref_eval, ref_rules, idb_keys
from .refeval import is_builtin, fnkey, Limits


def divisors(p, inputs):
    "Item patterns of the program (with unique variables), then the open pattern X."
    out = []
    for r in p.rules:
        h, body = from_rule(r)
        for t in (h, *body):
            if isinstance(t, tuple) and not is_builtin(t):
                if not inputs and p.is_input(to_dyna(t, {})):
                    continue
                c = canon(t)
                if c not in out:
                    out.append(c)
    # a generalisation of each functor
    for t in list(out):
        g = canon((t[0],) + tuple(V(f'A{i}') for i in range(len(t) - 1)))
        if g not in out:
            out.append(g)
    out.append(V('X'))
    return out


def admissible(x, body):
    "Subgoal positions the transformation admits for divisor x."
    out = [None]
    for j, b in enumerate(body):
        if isinstance(b, V):
            continue
        if is_builtin(b) if isinstance(b, tuple) else True:
            continue
        if not unifiable_apart(b, x) or covers(x, b):
            out.append(j)
    return out


def choose(p, case, inputs=True):
    xs = divisors(p, inputs)
    x = xs[case['div'] % len(xs)]
    pos = {}
    for i, r in enumerate(p.rules):
        adm = admissible(x, from_rule(r)[1])
        k = case['pos'][i % len(case['pos'])]
        pos[i] = adm[k % len(adm)]
        if k % 5 and pos[i] is None and len(adm) > 1:      # mostly on
            pos[i] = adm[-1]
    return x, pos


def run(case, apply, post):
    """apply(p, x, positions) -> transformed; post: {name: function} applied to it (outputs compared)."""
    p = build(case)
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    x, pos = choose(p, case, inputs=case.get('inputs_too', True))
    if all(v is None for v in pos.values()):
        raise Inconclusive('no admissible position')
    q = apply(p, to_dyna(x, {}), pos)
    what = f'divisor {progs.show(x)}, positions {pos} of\n{p.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n'
    lim = Limits(rounds=60, steps=400000)
    compare(rules, ref_rules(q), data, idb_keys(case), what, limits=lim, base=base)
    name = case.get('post')
    if name:
        outs = [dec(o) for o in case['outputs']]
        q = post[name](q)
        compare(rules, ref_rules(q), data, lambda f: any(unifiable_apart(f, o) for o in outs),
                f'{what}, then {name} ->\n{q.__repr__(color=False)}\n', limits=lim, base=base)
    hit = sum(1 for i, j in pos.items() if j is not None)
    spine = any(j is not None and not isinstance(x, V) and covers(x, from_rule(p.rules[i])[1][j]) for i, j in pos.items())
    ks = idb_keys(case)
    return Info(hit and any(fnkey(f) in ks for f in base.v), [f'on{min(hit, 3)}', 'spine' if spine else 'off-spine',
                                                            'open' if isinstance(x, V) else 'item'] + ([name] if name else []))


I = st.integers
kw = dict(n_rules=(2, 5), n_idb=(2, 3))


def cases(posts):
    def with_(prog, **k):
        return st.builds(lambda c, **kk: {**c, **kk}, prog, **k)
    progs_ = gen.weighted((5, progs.datalog(rr=True, **kw)), (3, progs.datalog(rr=False, **kw)), (2, progs.datalog(rr=True, structs=True, **kw)),
                          (2, progs.datalog(rr=False, structs=True, **kw)), (1, progs.datalog(rr=True, builtins=True, **kw)), (5, progs.template()))
    return with_(progs_, div=I(0, 13), pos=st.lists(I(0, 9), min_size=3, max_size=6),
                 post=gen.weighted((6, st.none()), *[(1, st.just(x)) for x in posts]))
