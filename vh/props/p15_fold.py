"""Every fold the system accepts as safe preserves meaning."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs
from ..progs import build, rules_of, data_of, compare, ref_eval, ref_rules
from ..refeval import fnkey

PROPERTY = 'P15'
RULE = ('Random programs and random histories of define / hook / unfold (against any earlier stage) / fold (against any '
        'earlier stage, any proposal that passes the reversibility test) / elimination-free steps. Whenever a program is '
        'declared safe - by reversal of the fold, the rule measure, or the unit measure - it is evaluated by the '
        'reference evaluator next to the original plus the introduced definitions, on the same data. Non-trivial: a fold was declared safe '
        'and the original has a nonzero item; the labels count safe and rejected folds.')


def stages(p):
    return list(p.lineage())


def full_rules(root_rules, p):
    "The original rules plus every definition introduced along the history."
    from dyna.program import Define
    from ..terms import from_rule
    out = list(root_rules)
    for q in p.lineage():
        if isinstance(q, Define):
            out += [from_rule(r) for r in q.defs]
    return out


def sub_indices(n, mask):
    js = [j for j in range(n) if mask >> j & 1]
    return js or [0]


def judge_equiv(p, rules, data, what, trace):
    ref = full_rules(rules, p)
    keys = {fnkey(h) for h, _ in ref}
    return compare(ref, ref_rules(p), data, keys,
                   f'{what} after {" ".join(trace)}:\n{p.root.__repr__(color=False)}\n->\n{p.__repr__(color=False)}\n')


def propose(p, defs, limit=40):
    "All folds of p by defs (any proposal), with their safety still undecided."
    d = defs.fresh() if defs is p else defs
    Rs = p.fold_proposals(defs=d)
    out = []
    for r in Rs:
        for q in p.folds_by(r=r, js=r.j, defs=d):
            out.append(q)
            if len(out) >= limit:
                return out
    return out


def run_history(case):
    from dyna import Rule, fresh
    rules, data = rules_of(case), data_of(case)
    ref_eval(rules, data)
    p = build(case)
    trace, labels = [], []
    safe_folds = 0
    nonzero = False
    ops = case['ops']
    pool, sibs = [p], []

    def defs_for(k):
        from dyna.program import Define
        mine = {id(s) for s in p.lineage() if isinstance(s, Define)}
        c = [s for s in pool if all(id(t) in mine for t in s.lineage() if isinstance(t, Define))]
        if p not in c:
            c.append(p)
        return list(dict.fromkeys(map(id, c))), {id(s): s for s in c}

    def pick_defs(k, sib):
        if sib and sibs:
            return sibs[k % len(sibs)]
        order, m = defs_for(k)
        return m[order[-1 - k % len(order)]]

    for op in ops:
        if not any(x is p for x in pool):
            pool.append(p)
        if len(p) > 9 or max((len(r.body) for r in p), default=0) > 6 or len(p) == 0:
            break
        kind = op[0]
        if kind in ('define', 'hook'):
            i = op[1] % len(p)
            n = len(p.rules[i].body)
            js = [j for j in sub_indices(n, op[2]) if j < n]
            if not js:
                continue
            if kind == 'define':
                p = p.define([p.loop_absorption(i, js)])
            else:
                try:
                    p = p.hook(i, js)
                except ValueError:
                    labels.append('hook-refused')
                    continue
                safe_folds += 1
            trace.append(f'{kind}({i},{js})')
        elif kind == 'unfold':
            pos = [(i, j) for i, r in enumerate(p.rules) for j, x in enumerate(r.body)
                   if p.safe_inline(x) and not p.is_builtin(x)]
            if not pos:
                continue
            i, j = pos[op[1] % len(pos)]
            d = pick_defs(op[2], op[3])
            if not d.is_item(p.rules[i].body[j]):
                d = p
            trace.append(f'unfold({i},{j})' if d is p else f'unfold({i},{j},defs={d.__repr__(color=False, sep=" ")})')
            p = p.unfold(i, j, defs=None if d is p else d)
        elif kind == 'branch':
            p = pool[op[1] % len(pool)]
            trace.append(f'back to program {op[1] % len(pool)} of the history;')
        elif kind == 'sibling':
            # a definition that clashes with heads of the program, introduced on a branch p is not part of
            q = pool[op[1] % len(pool)]
            h = q.rules[op[2] % len(q)].head
            b = q.rules[op[3] % len(q)].body
            sibs.append(q.define([Rule(fresh(h), *fresh(b[:1 + op[2] % 2]))]))
            trace.append(f'(sibling: {sibs[-1].__repr__(color=False, sep=" ")})')
        elif kind == 'rev':
            qs = list(p.reversible_megafolds())[:6]
            if not qs:
                continue
            q = qs[op[1] % len(qs)]
            trace.append(f'reversible:{q.name}')
            judge_rev(p, q, rules, data, trace)
            labels.append('rev')
            safe_folds += 1
            # its measure is unknown; stop here
            return Info(True, labels)
        else:
            d = pick_defs(op[2], op[4])
            qs = propose(p, d)
            if not qs:
                continue
            q = qs[op[1] % len(qs)]
            trace.append(f'{q.name} by {"itself" if d is p else d.__repr__(color=False, sep=" ")}')
            if q.safe_by_rev:
                labels.append('by-reversal')
                judge_rev(p, q, rules, data, trace)
                # a fold accepted by reversal is what basic_fold returns
                p.basic_fold(q.r, q.j, q.S, defs=None if d is p else d)
                safe_folds += 1
            if not q.partially_safe:
                labels.append('not-partial')
                continue
            p = q
            s, u = p.safe_by_smt, p.safe_by_unit
            require(not (u and not s), f'safe under the unit measure but not under any measure: {trace}')
            labels.append('safe' if s else 'refused')
            if not s and not op[3]:
                return Info(False, labels)
    if trace and p.safe_by_smt:
        A = judge_equiv(p, rules, data, 'declared safe', trace)
        nonzero = bool(A.v)
        labels.append('judged')
        if 'safe' in labels:
            safe_folds += 1
    return Info(safe_folds and nonzero, labels[:6])


def judge_rev(p, q, rules, data, trace):
    "A reversible fold is equivalent to its parent, whatever the parent's history."
    pr = ref_rules(p)
    keys = {fnkey(h) for h, _ in pr}
    compare(pr, ref_rules(q), data, keys, f'reversible fold after {" ".join(trace)}:\n{p.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n')


def run_offers(case):
    "Everything megafolds / megafolds_unit / reversible_megafolds offer is equivalent."
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    p0 = build(case)
    p = p0
    trace = []
    for k in case['unf']:
        pos = [(i, j) for i, r in enumerate(p.rules) for j, x in enumerate(r.body)
                   if p.safe_inline(x) and not p.is_builtin(x)]
        if not pos:
            break
        i, j = pos[k % len(pos)]
        p = p.unfold(i, j)
        trace.append(f'unfold({i},{j})')
    if len(p) > 8 or max((len(r.body) for r in p), default=0) > 5:
        raise Inconclusive('large')
    n = 0
    which = case['which']
    d = p if case['self'] else p0
    Rs = list(p.fold_proposals(defs=d.fresh() if d is p else d))
    Rs = Rs[:8]
    offers = {'smt': lambda: p.megafolds(defs=d, Rs=Rs), 'unit': lambda: p.megafolds_unit(defs=d, Rs=Rs),
              'rev': lambda: p.reversible_megafolds(defs=d, Rs=Rs)}[which]()
    for q in list(offers)[:8]:
        n += 1
        compare(rules, ref_rules(q), data, progs.idb_keys(case),
                f'offered ({which}) {q.name} after {" ".join(trace)}:\n{p.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n', base=base)
    return Info(n > 0 and bool(base.v), [which, f'offers{min(n, 4)}'])


def run_hook(case):
    "Hooking a group of subgoals is equivalent, and the group is gone from the rule."
    rules, data = rules_of(case), data_of(case)
    base = ref_eval(rules, data)
    p = build(case)
    i = case['i'] % len(p)
    n = len(p.rules[i].body)
    js = [j for j in sub_indices(n, case['mask']) if j < n]
    if not js:
        raise Inconclusive('empty body')
    q = p.hook(i, js)               # always reversible: a refusal is a failure
    compare(rules, ref_rules(q), data, progs.idb_keys(case), f'hook({i},{js}) of\n{p.__repr__(color=False)}\n->\n{q.__repr__(color=False)}\n', base=base)
    return Info(bool(base.v) and 1 < len(js), ['ok'])


I = st.integers
RARE = gen.weighted((1, st.just(True)), (3, st.just(False)))
kw = dict(n_rules=(2, 4), n_idb=(1, 3), weights=False)
PROGS = gen.weighted((4, progs.datalog(rr=True, **kw)), (3, progs.datalog(rr=False, **kw)), (2, progs.datalog(rr=True, structs=True, **kw)),
                     (3, progs.template()), (2, progs.datalog(rr=True, n_rules=(2, 4), n_idb=(1, 2), dom=(0, 1))))
op = gen.weighted((2, st.tuples(st.just('define'), I(0, 9), I(1, 15))), (1, st.tuples(st.just('hook'), I(0, 9), I(1, 15))),
                  (5, st.tuples(st.just('unfold'), I(0, 20), I(0, 5), RARE)), (1, st.tuples(st.just('branch'), I(0, 5))), (1, st.tuples(st.just('sibling'), I(0, 5), I(0, 5), I(0, 5))), (1, st.tuples(st.just('rev'), I(0, 6))),
                  (7, st.tuples(st.just('fold'), I(0, 30), I(0, 5), st.booleans(), RARE))).map(list)


def with_(prog, **k):
    return st.builds(lambda c, **kk: {**c, **kk}, prog, **k)


@st.composite
def propositional(draw):
    "Small propositional programs: folds, circular folds and multi-rule folds are frequent."
    preds = ['goal', 'p', 'q', 'r'][:draw(I(2, 4))]
    ins = ['a', 'b', 'c'][:draw(I(0, 3))]
    rules, w = [], 0
    for i in range(draw(I(2, 5))):
        h = draw(I(0, len(preds) - 1)) if i >= len(preds) else i
        body = []
        rec = False
        for _ in range(draw(I(1, 2))):
            if draw(I(0, 2)) == 0 and ins:
                body.append([draw(st.sampled_from(ins))])
            elif h + 1 < len(preds) and draw(I(0, 5)) > 0:
                body.append([draw(st.sampled_from(preds[h + 1:]))])
            elif draw(I(0, 2)) == 0:
                body.append([draw(st.sampled_from(preds))])
                rec = True
            else:
                body.append(draw(st.sampled_from([1, 2, 3])))
        if rec:
            body.append([f'w{w}'])
            w += 1
        rules.append([[preds[h]], body])
    if draw(st.booleans()):
        rules = draw(st.permutations(rules))
    return {'rules': list(rules), 'inputs': [[x] for x in ins] + [[f'w{i}'] for i in range(w)], 'outputs': [['goal']],
            'data': [[[x], k] for x, k in zip(ins, [2, 3, 5])] + [[[f'w{i}'], ['w', [2, 3, 5, 7, 11][i % 5]]] for i in range(w)]}


opp = gen.weighted((1, st.tuples(st.just('define'), I(0, 9), I(1, 15))), (4, st.tuples(st.just('unfold'), I(0, 20), I(0, 8), RARE)),
                   (2, st.tuples(st.just('branch'), I(0, 9))), (1, st.tuples(st.just('sibling'), I(0, 5), I(0, 5), I(0, 5))),
                   (6, st.tuples(st.just('fold'), I(0, 30), I(0, 8), gen.weighted((3, st.just(True)), (1, st.just(False))), RARE))).map(list)

CHECKS = [
    Check('propositional', lambda: with_(propositional(), ops=st.lists(opp, min_size=2, max_size=9)), run_history, quick=6000),
    Check('history', lambda: with_(PROGS, ops=st.lists(op, min_size=1, max_size=7)), run_history, quick=4000),
    Check('offers', lambda: with_(PROGS, unf=st.lists(I(0, 20), max_size=2), which=gen.weighted((2, st.just('smt')), (1, st.just('unit')), (2, st.just('rev'))),
                                  self=gen.weighted((1, st.just(True)), (3, st.just(False)))), run_offers, quick=1600),
    Check('hook', lambda: with_(gen.weighted((2, PROGS), (1, progs.datalog(rr=False, builtins=True, **kw))), i=I(0, 9), mask=I(1, 15)), run_hook, quick=1600),
]
