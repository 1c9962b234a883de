"""An edited program behaves like one written that way from the start."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen, rulegen
from ..rulegen import rule, variant_of, ref, is_const
from ..solve import Sem, crule
from ..terms import to_dyna, from_dyna, from_rule, text, canon, dec
from .p07_folding import read, ref_fold
from ..rulegen import same_rule

PROPERTY = 'P06'
RULE = ('Random histories of update / append / += / pop / - / item assignment from constants and streams / declaration changes, with reads of cached facts (lookup, hash, equality, signature, symbols, degree, '
        'prunings) in between. After each edit the rules must equal the rules before the edit with the edit applied (up to merging of constants), and every read must answer as on a freshly built program. '
        'Non-trivial: an edit that merges or removes follows a read.')
I = st.integers


def code(r, sem):
    h, body = r
    return crule(h, [sem.code(sem.val(b)) if is_const(b) else b for b in body], sem)


def total(rules, sem):
    "Fold [(skeleton, coefficient)]."
    S, acc = sem.ref, []
    for sk, c in rules:
        if sem.same(c, S.zero):
            continue
        for e in acc:
            if same_rule(e[0], sk):
                e[1] = S.plus(e[1], c)
                break
        else:
            acc.append([sk, c])
    return [e for e in acc if not sem.same(e[1], S.zero)]


def same_totals(a, b, sem):
    return len(a) == len(b) and all(any(same_rule(s, t) and sem.same(c, d) for t, d in b) for s, c in a)


QUERIES = [['a'], ['b'], ['p', rulegen.VARS[0]], ['p', 0], ['e', rulegen.VARS[0], rulegen.VARS[0]], ['q', 1], rulegen.VARS[0], ['n', 2]]


def look(p, q, delayed=True):
    out = []
    for r in p.lookup(to_dyna(dec(q), {})):
        h, body = from_rule(r)
        out.append((r.i, text(canon(('r', h, *(b for b in body if not is_const(b)))))))
    return out


def facts(p, kind, arg):
    if kind == 'lookup':
        return look(p, QUERIES[arg % len(QUERIES)])
    if kind == 'lookups':
        return [look(p, q) for q in QUERIES]
    if kind == 'hash':
        return hash(p)
    if kind == 'signature':
        return p.signature
    if kind == 'syms':
        return sorted(map(str, p.syms))
    if kind == 'degree':
        return p.degree
    if kind == 'degrees':
        return p.degrees()
    if kind == 'heads':
        return [text(canon(from_dyna(h, {}))) for h in p.just_heads()]
    if kind == 'fold':
        return p.constant_folding().__repr__(color=False)
    if kind == 'io':
        return [(p.is_input(to_dyna(dec(q), {})), p.is_output(to_dyna(dec(q), {})), p.is_item(to_dyna(dec(q), {}))) for q in QUERIES]
    if p.inputs is None or p.outputs is None:
        return None
    if not all(hasattr(r.head, 'fn') for r in p.rules):         # prunings need heads with a functor
        return None
    q = {'prune_fast': p.prune_fast, 'prune': lambda: p.prune(specialize=False), 'bottom': p.prune_bottom_up}[kind]()
    return sorted(text(canon(('r', h, *(b for b in body if not is_const(b))))) for h, body in map(from_rule, q.rules))


KINDS = ['lookup', 'lookups', 'lookups', 'hash', 'signature', 'syms', 'degree', 'degrees', 'heads', 'fold', 'io', 'prune_fast', 'prune', 'bottom']


def run(case):
    from dyna import Program
    sem = Sem(case['S'])
    p = Program([code(ref(r), sem) for r in case['start']], semiring=sem.cls())
    p.set_input_types(None)
    trace = [p.__repr__(color=False)]
    warm = hit = 0

    def fresh_copy():
        return Program(list(p.rules), inputs=p.inputs, outputs=p.outputs, semiring=sem.cls())

    for op in case['ops']:
        before = read(p, sem)
        k = op[0]
        trace.append(str(op))
        what = '\n'.join(trace)
        if k == 'read':
            a, b = facts(p, op[1], op[2]), facts(fresh_copy(), op[1], op[2])
            require(a == b, lambda: f'{what}\n{op[1]} is {a}\nfor a fresh copy {b}\nof {p.__repr__(color=False)}')
            warm += 1
            continue
        want = before
        if k in ('update', 'append', 'plus', 'plusprog'):
            r = ref(op[1])
            want = before + read(Program([code(r, sem)], semiring=sem.cls()), sem)
            c = code(r, sem)
            if k == 'update':
                p.update(c.head, *c.body)
            elif k == 'append':
                p.append(c)
            elif k == 'plus':
                p = p + c
            else:
                p = p + Program([c], semiring=sem.cls())
            hit += warm and not any(isinstance(b, list) for b in op[1][1])
        elif k == 'set':
            h = dec(op[1])
            want = before + [((h, ()), sem.val(op[2]))]
            p[to_dyna(h, {})] = sem.code(sem.val(op[2]))
            hit += bool(warm)
        elif k == 'stream':
            other = Program([code(ref(r), sem) for r in op[3]], semiring=sem.cls())
            h, b = dec(op[1]), dec(op[2])
            env = {}
            hh, bb = to_dyna(h, env), to_dyna(b, env)
            from ..terms import unify_in, subst, rename, tvars
            add = []
            for r in op[3]:
                g, body = ref(r)
                s = {}
                if unify_in(rename(g, "'"), b, s):
                    c = sem.ref.one
                    for x in body:
                        if is_const(x):
                            c = sem.ref.times(c, sem.val(x))
                    if any(v not in tvars(subst(s, h)) for v in tvars(subst(s, b)) ):
                        c = sem.ref.inf(c)
                    add.append(((subst(s, h), ()), c))
            want = before + add
            p[hh] = other[bb]
            hit += bool(warm)
        elif k == 'pop' and len(p):
            i = op[1] % len(p)
            r = p.rules[i]
            want = before[:i] + before[i + 1:]
            got = p.pop(i)
            require(got is r, f'{what}\npop({i}) returned {got}')
            hit += bool(warm)
        elif k == 'minus' and len(p):
            ix = {i % len(p) for i in op[1]}
            want = [x for i, x in enumerate(before) if i not in ix]
            p = p - (ix if len(ix) != 1 or op[2] else next(iter(ix)))
            hit += bool(warm)
        elif k == 'inputs':
            p.set_input_types(Program([code(ref([x, []]), sem) for x in op[1]]) if op[1] is not None else None)
        elif k == 'outputs':
            p.set_output_types(Program([code(ref([x, []]), sem) for x in op[1]]) if op[1] is not None else None)
        a, b = total(read(p, sem), sem), total(want, sem)
        require(same_totals(a, b, sem), lambda: f'{what}\nThe program is now\n{p.__repr__(color=False)}\nwith coefficients {a}\nexpected {b}')
    for kind in ('lookups', 'hash', 'syms', 'degree', 'degrees', 'prune_fast', 'io'):
        a, b = facts(p, kind, 0), facts(fresh_copy(), kind, 0)
        require(a == b, lambda: '\n'.join(trace) + f'\n{kind} is {a}\nfor a fresh copy {b}\nof {p.__repr__(color=False)}')
    q = fresh_copy()
    require(p == q and not any(None in x for x in p.align(q)), lambda: '\n'.join(trace) + f'\nthe program is not equal to a fresh copy of it\n{p.__repr__(color=False)}')
    return Info(hit > 0 and warm > 0, [case['S']])


X = rulegen.VARS[0]
CONST = st.tuples(st.sampled_from([['a'], ['b'], ['p', 0], ['p', X], ['p', 1], ['e', X, X], ['n', 2]]), st.sampled_from([[2], [3], [1], [], [2, 3], [5]])).map(list)


def rules_():
    return gen.weighted((2, rule(max_body=3)), (3, CONST), (1, st.tuples(st.just(X), st.sampled_from([[['p', X]], [['q', X]]])).map(list)))


DECL = st.sampled_from([None, [], [['q', X]], [['e', X, X]], [['a']], [['p', X], ['b']], [['q', X], ['e', X, rulegen.VARS[1]]], [['a'], ['b'], ['p', X]]])
OP = gen.weighted(
    (6, st.tuples(st.just('read'), st.sampled_from(KINDS), I(0, 7))), (4, st.tuples(st.sampled_from(['update', 'append']), rules_())), (1, st.tuples(st.sampled_from(['plus', 'plusprog']), rules_())),
    (2, st.tuples(st.just('set'), st.sampled_from([['a'], ['b'], ['p', 0], ['p', X]]), st.sampled_from([2, 3]))),
    (1, st.tuples(st.just('stream'), st.sampled_from([['a'], ['p', X], ['p', 0]]), st.sampled_from([['p', X], ['e', X, X], ['e', X, rulegen.VARS[1]]]),
                  st.lists(st.tuples(st.sampled_from([['p', 0], ['p', 1], ['p', X], ['e', 0, 0], ['e', 1, 2], ['e', X, 1]]), st.sampled_from([[2], [3], []])).map(list), min_size=1, max_size=3))),
    (2, st.tuples(st.just('pop'), I(0, 9))), (1, st.tuples(st.just('minus'), st.lists(I(0, 9), min_size=1, max_size=2), st.booleans())),
    (1, st.tuples(st.just('inputs'), DECL)), (1, st.tuples(st.just('outputs'), DECL))).map(list)
CASES = st.fixed_dictionaries({'S': st.sampled_from(['float', 'poly', 'minplus']), 'start': st.lists(rules_(), max_size=4), 'ops': st.lists(OP, min_size=3, max_size=14)})
CHECKS = [Check('history', CASES, run, quick=3000)]
