"""A query returns exactly the matching part of the chart."""
from hypothesis import strategies as st

from ..core import Check, Info, Inconclusive, require
from .. import gen, progs, solve
from ..solve import Sem, ref_chart, code_program, data_program, chart_of, check_chart, ordered, with_semiring, semiring, _Val
from ..terms import V, dec, tvars, text, from_dyna, to_dyna, unifiable_apart, enc
from ..refeval import evaluate, Limits, is_builtin
from . import p09_solver, p11_nonground

PROPERTY = 'P13'
RULE = ('Random programs and data (ground and with variables, all semirings) are solved, then asked sequences of query patterns derived from their own items: variables, repeated variables, constants, '
        'structure, unknown functors, conjunctions of one to three patterns, and patterns whose variables are bound from outside. Every query entry point (user_query of both solvers and of programs, '
        'lookup, user_lookup, indexing, joins, assignment of a result stream) is compared with filtering or joining the reference chart; looking an item up one step back must satisfy the fixpoint '
        'equation. Bindings are undone after every query, also after one that is abandoned. Non-trivial: the answer is nonempty and smaller than the chart, or joins two patterns.')
I = st.integers
ANS = '$ans'


def is_ans(f):
    return f[0] == ANS


def expected(A, sem, head, body):
    "The chart of one rule over the items of A."
    facts = [(f, (_Val(v),)) for f, v in A.v.items()]
    return evaluate(facts + [((ANS, *head), tuple(body))], semiring(sem), Limits(steps=150000))


def table(rows, sem):
    "A chart from rows (terms, value)."
    return evaluate([((ANS, *ts), (_Val(v),)) for ts, v in rows], semiring(sem), Limits())


def prod(sem, vs):
    from dyna import is_const
    t = sem.ref.one
    for v in vs:
        require(is_const(v), lambda: f'an answer is not solved: {vs}')
        t = sem.ref.times(t, sem.back(v))
    return t


def run_query(case):
    from dyna import Program, Var, is_const
    from dyna.syntax import term
    from dyna.term import unify, Term
    sem = Sem(case['S'])
    A = ref_chart(case, sem)
    p = code_program(case, sem)
    ground = case['ground']
    before = p.__repr__(color=False)
    mk = {'solver': p.solver, 'solver2': p.solver2}
    cache = {}

    def solver(name):
        if name not in cache:
            cache[name] = mk[name]()()
        return cache[name]

    def sol():
        if 'sol' not in cache:
            cache['sol'] = solver('solver2' if not ground or case['sol2'] else 'solver').sol()
        return cache['sol']
    nontrivial = False
    labels = {case['S'], 'ground' if ground else 'open'}
    for how, qs, bind, keep in case['queries']:
        if not ground and how == 'solver' or case['S'] == 'damped' and how == 'fixpoint':
            how = 'solver2'
        labels.add(how)
        qs = [dec(q) for q in qs]
        names = sorted({v.name for q in qs for v in tvars(q)})
        env = {}
        q = to_dyna(qs[0], env)
        shown = str(q)
        outer = {n: dec(bind[n]) for n in names if n in bind}
        what = f'{how} {", ".join(map(text, qs))} with {outer} outside, of\n{before}'
        sub = {V(n): t for n, t in outer.items()}
        from ..terms import subst
        gq = [subst(sub, x) for x in qs]
        single = gq[0]
        binders = [(env[n], to_dyna(t, {})) for n, t in outer.items() if n in env]

        def with_bound(f, bs=binders):
            if not bs:
                return f()
            r = None
            for _ in unify(*bs[0]):
                r = with_bound(f, bs[1:])
            return r

        def rows_of(rs, key=lambda r: (r.head,)):
            out = []
            for r in rs:
                require(all(is_const(b) for b in r.body), lambda: f'{what}\nthe row {r} is not solved')
                names_ = {}
                out.append((tuple(from_dyna(x, names_) for x in key(r)), prod(sem, r.body)))
            return out

        if how in ('solver', 'solver2', 'program', 'solprogram', 'text'):
            if how == 'text':
                txt = text(single)
                rs = lambda: (solver('solver2') if case['sol2'] else p).user_query(txt)
            elif how == 'program':
                rs = lambda: p.user_query(q)
            elif how == 'solprogram':
                rs = lambda: sol().user_query(q)
            else:
                rs = lambda: solver(how).user_query(q)
            res = with_bound(rs)
            rows = rows_of(res.rules)
            want = expected(A, sem, (single,), (single,))
            check_chart(want, table(rows, sem), sem, f'{what}\ngives {res}', keep=is_ans)
            if ground:
                heads = [text(h) for (h,), _ in rows]
                require(len(heads) == len(set(heads)), lambda: f'{what}\nan item has two rows: {heads}')
            if how == 'solprogram' and not outer:
                w = Program([solve.crule(f[1], [sem.code(v)], sem) for f, v in want.v.items() if is_ans(f)], semiring=sem.cls())
                ok = True
                try:
                    sol().assert_equal_query(q, w)
                except AssertionError:
                    ok = False
                require(ok or sem.name == 'damped' or 'inf' in str(list(want.v.values())), lambda: f'{what}\nassert_equal_query rejects {w}')
                if len(w.rules):
                    w2 = Program(list(w.rules)[1:], semiring=sem.cls())
                    try:
                        sol().assert_equal_query(q, w2)
                        ok = False
                    except AssertionError:
                        ok = True
                    gone = [f for f, _ in list(want.v.items())[:1]]
                    small = not ground or sem.name not in ('bool', 'float', 'minplus') or abs(sem.ref.one if want.v[[f for f in want.v if is_ans(f)][0]] is True else want.v[[f for f in want.v if is_ans(f)][0]]) < 1e-3
                    require(ok or small, lambda: f'{what}\nassert_equal_query accepts {w2} without {gone}')
        elif how in ('lookup', 'user_lookup'):
            s = sol()
            rs = with_bound(lambda: [from_row(r, q, sem, what) for r in (s.lookup(q) if how == 'lookup' else s.user_lookup(q).rules)])
            want = expected(A, sem, (single,), (single,))
            check_chart(want, table(rs, sem), sem, f'{what}\ngives {rs}', keep=is_ans)
        elif how == 'fixpoint':
            def go():
                out = []
                for r in (p.lookup(q) if case['sol2'] else p.user_lookup(q).rules):
                    nm = {}
                    h = from_dyna(r.head, nm)
                    out.append(((ANS, h), tuple(_Val(sem.back(b)) if is_const(b) else from_dyna(b, nm) for b in r.body)))
                return out
            rules = with_bound(go)
            want = expected(A, sem, (single,), (single,))
            facts = [(f, (_Val(v),)) for f, v in A.v.items()]
            got = evaluate(facts + rules, semiring(sem), Limits(steps=150000))
            check_chart(want, got, sem, f'{what}\none step back: {rules}', keep=is_ans)
        else:
            atoms = [to_dyna(x, env) for x in qs]
            vs = [env[n] for n in names]
            s = sol()
            if how == 'setitem':
                kept = [n for n in names if n in keep]
                head = [V(n) for n in kept]
                u = Program('', semiring=sem.cls())
                stream = s[tuple(atoms)]

                def go():
                    u[Term(ANS, *[env[n] for n in kept])] = stream
                with_bound(go, [(env[n], to_dyna(t, {})) for n, t in outer.items()])
                got = chart_of(u, sem)
                want = expected(A, sem, [subst(sub, h) for h in head], gq)
            else:
                def go():
                    rows = []
                    if how == 'getitem':
                        it = iter(s[tuple(atoms)]) if len(atoms) > 1 or case['sol2'] else iter(s[atoms[0]])
                    elif how == 'join':
                        it = s.join(*atoms)
                    else:
                        ss = solver('solver' if ground and how == 'joinsolver' else 'solver2')
                        it = ((x,) for x in ss.join(atoms, ss.one))
                    n = 0
                    for y in it:
                        nm = {}
                        rows.append((tuple(from_dyna(x, nm) for x in vs), prod(sem, y)))
                        n += 1
                        if case['stop'] and n >= case['stop']:
                            it.close()
                            break
                    return rows
                rows = with_bound(go, [(env[n], to_dyna(t, {})) for n, t in outer.items()])
                got = table(rows, sem)
                want = expected(A, sem, [subst(sub, V(n)) for n in names], gq)
                require(all(not v.is_bound() for v in vs), lambda: f'{what}\nleaves variables bound')
                if case['stop'] and len(rows) >= case['stop']:
                    continue
            check_chart(want, got, sem, f'{what}\ngives {got.v}', keep=is_ans)
        require(str(q) == shown, lambda: f'{what}\nthe query {shown} became {q}')
        n = sum(is_ans(f) for f in want.v)
        nontrivial |= n > 0 and (len(qs) > 1 and how in ('getitem', 'join', 'joinsolver', 'joinsolver2', 'setitem') or n < len(A.v))
    require(p.__repr__(color=False) == before, lambda: f'{before}\nthe queries changed the program to\n{p}')
    return Info(nontrivial, labels)


def from_row(r, q, sem, what):
    from dyna import is_const
    require(all(is_const(b) for b in r.body), lambda: f'{what}\nthe row {r} is not solved')
    return (from_dyna(r.head, {}),), prod(sem, r.body)


HOWS = ['solver', 'solver', 'solver2', 'program', 'solprogram', 'text', 'lookup', 'user_lookup', 'fixpoint', 'fixpoint', 'getitem', 'getitem', 'join', 'joinsolver', 'joinsolver2', 'setitem', 'setitem']


@st.composite
def queries(draw, prog, ground):
    c = draw(prog)
    atoms = [b for h, body in c['rules'] for b in [h, *body] if isinstance(b, list) and not is_builtin(dec(b))] + [f for f, _ in c['data']]
    nm = 'XYZ'

    def arg(x):
        return draw(gen.weighted((3, st.just(x)), (4, st.sampled_from(nm).map(progs.v)), (1, I(0, 2)), (1, st.sampled_from(nm).map(lambda n: ['s', progs.v(n)]))))

    def clean(x):
        "Variables of the program in a query are renamed into ours."
        if isinstance(x, dict):
            return progs.v(nm[sum(map(ord, x['v'])) % 3])
        return [x[0], *map(clean, x[1:])] if isinstance(x, list) else x

    def pattern():
        a = clean(draw(st.sampled_from(atoms)))
        return [a[0], *[arg(x) for x in a[1:]]] if draw(I(0, 15)) else ['zz', progs.v('X')]
    qs = []
    for _ in range(draw(I(1, 4))):
        how = draw(st.sampled_from(HOWS))
        n = draw(gen.weighted((1, st.just(1)), (3, st.just(2)), (1, st.just(3)))) if how in ('getitem', 'join', 'joinsolver', 'joinsolver2', 'setitem') else 1
        pats = [pattern() for _ in range(n)]
        if n > 1 and draw(I(0, 5)) == 0:
            vs = [x for q in pats for x in progs.tv(q)] or [0]
            pats.insert(draw(I(0, n)), ['=', draw(st.sampled_from(vs)), draw(st.sampled_from([1, *vs]))])
        bind = {}
        if how != 'text' and draw(I(0, 3)) == 0:
            bind[draw(st.sampled_from(nm))] = draw(st.sampled_from([0, 1, 2, ['s', 0]]))
        qs.append([how, pats, bind, ''.join(x for x in nm if draw(I(0, 2)))])
    return {**c, 'queries': qs, 'ground': ground, 'sol2': draw(st.booleans()), 'stop': draw(gen.weighted((3, st.just(0)), (1, I(1, 3)))), 'place': 'rules'}


CASES = queries(p09_solver.programs().map(ordered).flatmap(with_semiring()), True)
OCASES = queries(gen.weighted((3, p11_nonground.programs().map(ordered)), (2, p11_nonground.overlapping())).flatmap(with_semiring()), False)
CHECKS = [Check('ground', lambda: CASES, run_query, quick=3000, case_timeout=6), Check('open', lambda: OCASES, run_query, quick=2500, case_timeout=6)]
