"""Program generators.  A program case is JSON:

  {"rules": [[head, [subgoal...]]...], "inputs": [pattern...], "outputs": [pattern...],
   "data": [[fact, k]...]}        k: int weight, or ["w", k] for k units of the indeterminate
"""
from hypothesis import strategies as st

from . import gen
from .core import Inconclusive, Violation
from .refeval import TP, NotConverged, Chart, diff, evaluate, Limits, fnkey, is_builtin
from .terms import V, dec, enc, from_program, from_rule, ground, rule_text, text, tvars, canon, subst, is_t

VARN = ['X', 'Y', 'Z', 'W', 'U']


# ---------------------------------------------------------------------------
# from a case to rules / source text / the code's Program

def rules_of(case):
    return [(dec(h), tuple(dec(b) for b in body)) for h, body in case['rules']]


def data_of(case, S=TP):
    out = []
    for f, k in case.get('data', []):
        v = S.eps(k[1]) if isinstance(k, list) else S.const(k)
        out.append((dec(f), v))
    return out


def src(case, io=True):
    lines = [rule_text(dec(h), [dec(b) for b in body]) for h, body in case['rules']]
    if io:
        if case.get('inputs') is not None and case['inputs']:
            lines.append('inputs: ' + '; '.join(text(dec(x)) for x in case['inputs']) + '.')
        if case.get('outputs') is not None and case['outputs']:
            lines.append('outputs: ' + '; '.join(text(dec(x)) for x in case['outputs']) + '.')
    return '\n'.join(lines)


def build(case, io=True, **kw):
    """The code's Program.  Both declarations are always present (possibly empty)
    when io, as the transformations require."""
    from dyna import Program
    if io:
        ins = Program('\n'.join(text(dec(x)) + '.' for x in case.get('inputs') or []))
        outs = Program('\n'.join(text(dec(x)) + '.' for x in case.get('outputs') or []))
        return Program(src(case, io=False), inputs=ins, outputs=outs, **kw)
    return Program(src(case, io=False), **kw)


class ConstFact:
    pass


def evaluate_with_data(rules, data, S=TP, limits=None, stop=None):
    "Data facts carry semiring values; they are spliced in as an extra relation."
    aug = list(rules)
    base = [(f, v) for f, v in data]
    return _evaluate(aug, base, S, limits, stop)


class _Val:
    "A literal semiring value in a body."
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _evaluate(rules, base, S, limits, stop):
    class S2(S):
        const = staticmethod(lambda x: x.v if isinstance(x, _Val) else S.const(x))
    S2.__name__ = S.__name__
    return evaluate([(f, (_Val(v),)) for f, v in base] + list(rules), S2, limits, stop)


def ref_rules(p):
    "Rules of one of the code's programs, in our own terms."
    return from_program(p)


def fn_of(pats):
    return {fnkey(dec(p)) for p in pats}


def compare(orig_rules, new_rules, data, keys, what='', limits=None, S=TP, base=None, same=None):
    """Both rule sets, on the same data, must give the same value to every item whose
    functor/arity is in `keys`.  Returns the original's chart."""
    A = base if base is not None else ref_eval(orig_rules, data, S, limits)
    keep = keys if callable(keys) else (lambda f: fnkey(f) in keys) if keys is not None else (lambda f: True)
    try:
        B = evaluate_with_data(new_rules, data, S, limits or Limits(rounds=60, steps=1500000))
    except NotConverged as e:
        B = e.chart
        # values only grow along the iteration: exceeding the reference now is final
        from .refeval import points
        for p in points([f for f in list(A.v) + list(B.v) if keep(f)]):
            if S.exceeds(B.value(p), A.value(p)):
                raise Violation(f'{what}: {show(p)} has value {A.value(p)} in the original but grows past '
                                f'{B.value(p)} in the result') from None
        raise Inconclusive('the result does not converge') from None
    d = diff(A, B, keep, same)
    if d is not None:
        p, a, b = d
        raise Violation(f'{what}: {show(p)} has value {a} in the original, {b} in the result')
    return A


def ref_eval(rules, data, S=TP, limits=None):
    try:
        return evaluate_with_data(rules, data, S, limits)
    except NotConverged:
        raise Inconclusive('the reference does not converge') from None


def show(t):
    return text(t)


def show_rules(rules):
    return '\n'.join('  ' + rule_text_any(h, b) for h, b in rules)


def rule_text_any(h, b):
    return rule_text(h, b)


# ---------------------------------------------------------------------------
# generation

def v(name):
    return {'v': name}


@st.composite
def datalog(draw, n_idb=(2, 4), n_rules=(2, 6), max_body=3, recursion=True, rr=True, builtins=False,
            structs=False, consts=True, goal=True, weights=True, repeat_bias=True, extra_inputs=0,
            dom=(0, 1, 2), n_data=(2, 8), eps_nonrec=True, eps_all=False, min_idb_use=True, arities=(0, 1, 2),
            input_body=True, numeric_dom=True, rec_p=4):
    """A random program with inputs r1/1, r2/2 (and r3/3), defined predicates p0..pk,
    0-ary weight inputs w0.. on recursive rules, and random data."""
    I = st.integers
    k = draw(I(*n_idb))
    ar = [draw(st.sampled_from(arities)) for _ in range(k)]
    if goal:
        preds = [('goal', 0)] + [(f'p{i}', a) for i, a in enumerate(ar)]
    else:
        preds = [(f'p{i}', a) for i, a in enumerate(ar)]
    edb = [('r1', 1), ('r2', 2)] + ([('r3', 3)] if draw(st.booleans()) else [])
    vals = list(dom) if consts else list(dom)
    nvars = draw(I(2, 4))
    vars_ = VARN[:nvars]
    var = st.sampled_from(vars_).map(v)
    cst = st.sampled_from(vals)
    sub = [(14, var)] + ([(1, cst)] if consts else [])
    if structs:
        sub += [(2, var.map(lambda x: ['s', x])), (1, st.tuples(var, var).map(lambda t: ['$cons', t[0], t[1]])), (1, cst.map(lambda c: ['s', c]))]
    arg = gen.weighted(*sub)
    harg = arg

    def atom(fa):
        f, a = fa
        return [f] + [draw(arg) for _ in range(a)]

    n = draw(I(*n_rules))
    arith = draw(st.booleans())         # comparisons of structured terms are type errors: arithmetic or structure
    rules, wcount = [], 0
    for i in range(n):
        pi = 0 if i == 0 else draw(I(0, len(preds) - 1))
        f, a = preds[pi]
        nb = draw(I(1, max_body))
        body = []
        rec = False
        for _ in range(nb):
            # callees: inputs, later predicates, and (recursion) any predicate
            lo = 0 if recursion and draw(I(0, rec_p - 1)) == 0 else pi + 1
            lower = preds[max(lo, 1 if goal else 0):]
            pool = edb + lower * 2 if (input_body or not lower) else lower
            c = draw(st.sampled_from(pool))
            ci = preds.index(c) if c in preds else 10 ** 6
            if ci <= pi:
                rec = True
            body.append(atom(c))
        if repeat_bias and draw(I(0, 4)) == 0:          # self-joins
            for _ in range(draw(I(1, 2))):
                c = list(draw(st.sampled_from(body)))
                if len(c) > 1 and draw(st.booleans()):
                    c[draw(I(1, len(c) - 1))] = draw(arg)
                body.append(c)
        head = [f] + [draw(harg) for _ in range(a)]
        if builtins and draw(I(0, 2)) == 0:
            bv = [x for b in body for x in tv(b)] or [0]
            x, y = draw(st.sampled_from(bv)), draw(st.sampled_from(bv + list(dom)))
            kind = draw(I(0, 2)) if arith else 2
            if kind == 0:
                body.insert(draw(I(0, len(body))), [draw(st.sampled_from(['<', '<=', '!=', '>'])), x, y])
            elif kind == 1:
                z = v('B')
                body.append(['is', z, ['+', x, draw(st.sampled_from([1, y]))]])
                if a:
                    head[draw(I(1, a))] = z
            else:
                body.insert(draw(I(0, len(body))), ['=', v('Q'), draw(st.sampled_from([x, 1 if arith else ['s', x], 1]))])
                if a:
                    head[draw(I(1, a))] = v('Q')
        if rr:
            bv = [x for b in body for x in tv(b)]
            head = [head[0]] + [fix(x, bv, draw) for x in head[1:]]
        if rec or eps_all or (eps_nonrec and draw(I(0, 5)) == 0):
            body.insert(draw(I(0, len(body))), [f'w{wcount}'])
            wcount += 1
        if weights and draw(I(0, 3)) == 0:
            body.insert(draw(I(0, len(body))), draw(st.sampled_from([2, 3, 5, 0.5])))
        rules.append([head, body])
    # facts / constant rules for defined predicates
    for _ in range(draw(I(0, 2))):
        f, a = preds[draw(I(1 if goal and len(preds) > 1 else 0, len(preds) - 1))]
        h = [f] + [draw(cst) if rr or draw(st.booleans()) else draw(var) for _ in range(a)]
        rules.insert(draw(I(0, len(rules))), [h, [draw(st.sampled_from([1, 2, 3, 7]))] if draw(st.booleans()) else []])
    # a called predicate without a rule over lower predicates gets a base rule, mostly
    if min_idb_use:
        order = {p: i for i, p in enumerate(preds)}
        based = set()
        for h, b in rules:
            key = (h[0], len(h) - 1)
            if all(order.get((x[0], len(x) - 1), 99) > order[key] for x in b if isinstance(x, list)):
                based.add(key)
        called = {(b[0], len(b) - 1) for r in rules for b in r[1] if isinstance(b, list)}
        for key in preds:
            if key in called and key not in based and draw(I(0, 5)) > 0:
                f, a = key
                h = [f] + [v(x) for x in VARN[:a]]
                b = [['r2', v('X'), v('Y')]] if a == 2 else [['r1', v('X')]] if a < 2 else [['r2', v('X'), v('Y')], ['r1', v('Z')]]
                if a == 2 and draw(st.booleans()):
                    h, b = [f, v('X'), v('X')] if draw(st.booleans()) else [f, v('Y'), v('X')], b
                rules.insert(draw(I(0, len(rules))), [h, b])
    data = gen_data(draw, edb, dom, structs)
    for i in range(wcount):
        data.append([[f'w{i}'], ['w', [2, 3, 5, 7, 11, 13][i % 6]]])
    inputs = [[f] + [v(x) for x in VARN[:a]] for f, a in edb] + [[f'w{i}'] for i in range(wcount)]
    if goal:
        outputs = [['goal']]
        if draw(I(0, 3)) == 0 and len(preds) > 1:
            f, a = preds[1]
            outputs.append([f] + [v(x) for x in VARN[:a]])
    else:
        outputs = [[f] + [v(x) for x in VARN[:a]] for f, a in preds]
    case = {'rules': rules, 'inputs': inputs, 'outputs': outputs, 'data': data}
    # two predicates of different arity under one name
    pairs = [(f, g) for f, a in preds[goal:] for g, b in preds[goal:] if a < b]
    if pairs and draw(I(0, 7)) == 0:
        f, g = draw(st.sampled_from(pairs))
        case = rename_functor(case, g, f)
    return case


def rename_functor(j, old, new):
    if isinstance(j, list):
        return [new if i == 0 and x == old and isinstance(x, str) else rename_functor(x, old, new) for i, x in enumerate(j)]
    if isinstance(j, dict) and 'rules' in j:
        return {k: rename_functor(x, old, new) for k, x in j.items()}
    return j


PRIMES = [1, 2, 3, 5, 7, 11, 13]


def gen_data(draw, edb, dom, structs):
    "Random relations: one bitmask per relation, weights fixed by the cell."
    from itertools import product
    data = []
    vals = list(dom) + ([['s', dom[0]], ['s', dom[1]], ['$cons', dom[1], ['$nil']]] if structs else [])
    for f, a in edb:
        cells = list(product(vals, repeat=a))
        bits = (1 << len(cells)) - 1
        m = draw(st.integers(0, bits))
        if len(cells) <= 16:
            m |= draw(st.integers(0, bits))
        else:
            m &= draw(st.integers(0, bits))
        for i, c in enumerate(cells):
            if m >> i & 1:
                data.append([[f, *c], PRIMES[(i * 5 + a) % 7]])
    return data


def tv(j, acc=None):
    "Encoded variables of an encoded term."
    if acc is None:
        acc = []
    if isinstance(j, dict):
        if j not in acc:
            acc.append(j)
    elif isinstance(j, list):
        for a in j[1:]:
            tv(a, acc)
    return acc


def fix(x, bv, draw):
    if isinstance(x, dict):
        if x in bv:
            return x
        return draw(st.sampled_from(bv)) if bv else 0
    if isinstance(x, list):
        return [x[0]] + [fix(a, bv, draw) for a in x[1:]]
    return x


# ---------------------------------------------------------------------------
# classic dynamic programs (each with a data generator), recursive rules carry w*

def C(h, *b):
    return [h, list(b)]


X, Y, Z, W, I_, J, K, N = [v(x) for x in ('X', 'Y', 'Z', 'W', 'I', 'J', 'K', 'N')]

TEMPLATES = {
    'path': ([C(['goal'], ['beta', X], ['r1', X]), C(['beta', Y], ['beta', X], ['r2', X, Y], ['w0']), C(['beta', X], ['r1', X])],),
    'path-right': ([C(['goal'], ['r1', X], ['q', X]), C(['q', X], ['r2', X, Y], ['q', Y], ['w0']), C(['q', X], ['r1', X], 2)],),
    'closure': ([C(['goal'], ['t', 0, X]), C(['t', X, Z], ['t', X, Y], ['t', Y, Z], ['w0']), C(['t', X, Y], ['r2', X, Y])],),
    'cky': ([C(['goal'], ['ph', 0, 0, 2]), C(['ph', X, I_, K], ['ph', Y, I_, J], ['ph', Z, J, K], ['r3', X, Y, Z], ['w0']),
             C(['ph', X, I_, K], ['r3', X, I_, K]), C(['ph', X, I_, K], ['ph', Y, I_, K], ['r2', X, Y], ['w1'])],),
    'chain': ([C(['goal'], ['r1', X], ['r2', X, Y], ['r2', Y, Z], ['r1', Z])],),
    'hmm': ([C(['goal'], ['v', 2, X]), C(['v', J, Y], ['v', I_, X], ['r2', X, Y], ['is', J, ['+', I_, 1]], ['<', J, 3]),
             C(['v', 0, X], ['r1', X])],),
    'list': ([C(['goal'], ['acc', X, ['$nil']]), C(['acc', Y, Z], ['acc', X, ['$cons', W, Z]], ['r3', X, W, Y], ['w0']),
              C(['acc', X, ['$cons', 1, ['$cons', 2, ['$nil']]]], ['r1', X])],),
    'even-odd': ([C(['goal'], ['ev', X], ['r1', X]), C(['ev', 0]), C(['ev', Y], ['od', X], ['r2', X, Y], ['w0']), C(['od', Y], ['ev', X], ['r2', X, Y], ['w1'])],),
    'split-head': ([C(['goal'], ['a', X], ['r1', X]), C(['a', X], ['b', X, Y, Z], ['c', Y], ['w0']), C(['b', X, Y, Z], ['r2', X, Y], ['r2', Y, Z]),
                    C(['c', Y], ['r1', Y]), C(['c', Y], ['a', Z], ['r2', Z, Y], ['w1'])],),
    'diag': ([C(['goal'], ['d', X, X]), C(['d', X, Y], ['d', X, X], ['r2', X, Y], ['w0']), C(['d', X, Y], ['r1', X], ['r1', Y])],),
    'cube': ([C(['goal'], ['a', X], ['a', X], ['a', X]), C(['goal'], ['a', X], ['a', Y], ['a', X], ['b', Y]), C(['a', X], ['b', X]), C(['a', X], ['r1', X]),
              C(['b', X], ['c', X]), C(['c', X], ['r1', X], 2)],),
    'ternary': ([C(['goal'], ['t', X], ['t', Y]), C(['t', X], ['t', X], ['t', Y], ['t', Y], ['w0']), C(['t', X], ['r1', X]), C(['t', Y], ['r2', X, Y], ['t', X], ['t', X], ['w1'])],),
    'structured': ([C(['goal'], ['g', ['s', X]], ['r1', X]), C(['g', ['s', X]], ['r2', X, Y], ['g', Y]), C(['g', 0], 3), C(['g', X], ['r1', X])],),
    'mutual': ([C(['goal'], ['a', X, Y], ['b', Y, X]), C(['a', X, Y], ['b', X, Z], ['r2', Z, Y], ['w0']), C(['b', X, Y], ['a', X, Z], ['r2', Y, Z], ['w1']),
                C(['a', X, X], ['r1', X]), C(['b', X, Y], ['r2', X, Y])],),
}


@st.composite
def template(draw, names=None, dom=(0, 1, 2), n_data=(3, 9)):
    I = st.integers
    name = draw(st.sampled_from(sorted(names or TEMPLATES)))
    rules = [[h, list(b)] for h, b in TEMPLATES[name][0]]
    # permute rules and subgoals, add a weight, drop or duplicate a rule
    for _ in range(draw(I(0, 3))):
        i = draw(I(0, len(rules) - 1))
        what = draw(I(0, 4))
        h, b = rules[i]
        if what == 0 and len(b) > 1:
            a, c = draw(I(0, len(b) - 1)), draw(I(0, len(b) - 1))
            b[a], b[c] = b[c], b[a]
        elif what == 1:
            b.insert(draw(I(0, len(b))), draw(st.sampled_from([2, 3])))
        elif what == 2:
            rules.insert(draw(I(0, len(rules))), [h, list(b) + [draw(st.sampled_from([2, 3, 5]))]])
        elif what == 3:
            j = draw(I(0, len(rules) - 1))
            rules[i], rules[j] = rules[j], rules[i]
        else:
            b.append(['r1', draw(st.sampled_from(tv(['', *b]) or [0]))])
    return finish(draw, rules, dom, n_data)


def finish(draw, rules, dom, n_data):
    I = st.integers
    used, ws = set(), set()
    for h, b in rules:
        for x in b:
            if isinstance(x, list) and x[0] in ('r1', 'r2', 'r3'):
                used.add((x[0], len(x) - 1))
            if isinstance(x, list) and x[0][0] == 'w' and len(x) == 1:
                ws.add(x[0])
    edb = sorted(used) or [('r1', 1)]
    data = gen_data(draw, edb, dom, False)
    for i, w in enumerate(sorted(ws)):
        data.append([[w], ['w', [2, 3, 5, 7, 11][i % 5]]])
    return {'rules': rules, 'inputs': [[f] + [v(x) for x in VARN[:a]] for f, a in edb] + [[w] for w in sorted(ws)],
            'outputs': [['goal']], 'data': data}


def any_program(**kw):
    return gen.weighted((3, datalog(**kw)), (1, template()))


def idb_keys(case):
    return {fnkey(dec(h)) for h, _ in case['rules']}


def out_keys(case):
    return {fnkey(dec(x)) for x in case['outputs']}
