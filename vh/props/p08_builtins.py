"""Built-in relations compute what they say, in every direction and order."""
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from ..core import Check, Inconclusive, Info, Violation, require
from ..gen import weighted

PROPERTY = 'P08'
RULE = ('Every arithmetic, comparison, string and enumeration built-in, called with each subset of its arguments known (constants, bound variables, repeated variables) and compared with brute force over a pool of '
        'candidate values; and rules joining input relations with chains of built-ins in random order (forward, inverted, generated, structural equality), evaluated by the solvers '
        'and the program-level evaluators and compared with a reference that solves whichever constraint is determined. Non-trivial: an inverted, generating or failing constraint (modes); a rule '
        'that derives something and has at least two constraints (rules).')
I = st.integers
NUM = [0, 1, 2, 3, -1, -2, 0.5, -0.5, 4, 6, 1.5, -3]
STR = ['', 'a', 'b', 'ab', 'aa', 'aab', 'ba']
POOL = [Fraction(x, 2) for x in range(-14, 15)]
CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

# name -> (argument kinds, result kind, forward function); None = not defined
OPS = {
    'neg': (('n',), 'n', lambda y: -y), 'pos': (('n',), 'n', lambda y: y), 'abs': (('n',), 'n', abs),
    'not': (('b',), 'b', lambda y: not y),
    '+': (('n', 'n'), 'n', lambda y, z: y + z), '-': (('n', 'n'), 'n', lambda y, z: y - z), '*': (('n', 'n'), 'n', lambda y, z: y * z),
    '/': (('n', 'n'), 'n', lambda y, z: None if z == 0 else Fraction(y) / Fraction(z)),
    'min': (('n', 'n'), 'n', min), 'max': (('n', 'n'), 'n', max),
    'cat': (('s', 's'), 's', lambda y, z: y + z), 'rep': (('s', 'k'), 's', lambda y, z: y * z),
    'str': (('any',), 'b', lambda y: isinstance(y, str)), 'int': (('any',), 'b', lambda y: isinstance(y, int)),
    **{op: (('n', 'n'), 'b', f) for op, f in CMP.items()},
}
CODE = {'neg': '-', 'pos': '+', 'not': '!', 'cat': '+', 'rep': '*'}
VALUES = {'n': NUM, 's': STR, 'b': [True, False], 'k': [0, 1, 2, 3], 'any': [0, 1, -2, 0.5, 'a', '', 'ab']}


def pool(kind):
    return {'n': POOL, 's': [''.join(x) for n in range(4) for x in itertools.product('ab', repeat=n)], 'b': [True, False], 'k': [0, 1, 2, 3], 'any': [0, 1, 0.5, 'a']}[kind]


def forward(op, args):
    return OPS[op][2](*args)


def eq(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str) and isinstance(a, bool) == isinstance(b, bool)


# -- one call ---------------------------------------------------------------------

@st.composite
def call(draw):
    op = draw(st.sampled_from(['+', '-', '*', '/'] * 3 + sorted(OPS)))
    kinds, res, f = OPS[op]
    vals = [draw(st.sampled_from(VALUES[k])) for k in kinds]
    x = f(*vals)
    if x is None or draw(I(0, 3)) == 0:
        x = draw(st.sampled_from(VALUES[res]))
    if isinstance(x, Fraction):
        x = float(x) if x.denominator in (1, 2, 4, 8) else draw(st.sampled_from(VALUES[res]))
    slots = []
    for v, k in zip([x, *vals], [res, *kinds]):
        m = draw(weighted((4, st.just('known')), (2, st.just('bound')), (4, st.just('open')), (1, st.just('same'))))
        slots.append([k, v, m])
    return [op, slots]


def run_call(case):
    from dyna import Program, Term, Var
    from dyna.builtin import Builtins
    from dyna.exceptions import InstFault
    from dyna.term import unify, snap
    op, slots = case
    kinds, res, f = OPS[op]
    shared = Var('S')
    args, names, binds = [], [], []
    for i, (k, v, m) in enumerate(slots):
        if m == 'known':
            args.append(v)
            names.append(None)
        elif m == 'bound':
            x = Var('B')
            binds.append((x, v))
            args.append(x)
            names.append(None)
        elif m == 'same' and k == res and op not in ('str', 'int'):
            args.append(shared)
            names.append('S')
        else:
            args.append(Var(f'X{i}'))
            names.append(f'X{i}')
    unknown = sorted({n for n in names if n})
    fn = CODE.get(op, op)
    what = f'{args[0] if names[0] or slots[0][2] == "known" else slots[0][1]!r} is {op}({", ".join(names[i] or repr(slots[i][1]) for i in range(1, len(slots)))}), result {names[0] or repr(slots[0][1])}'

    # truth over the pool
    truth, sure = [], True
    kind = {n: slots[names.index(n)][0] for n in unknown}
    for vs in itertools.product(*[pool(kind[n]) for n in unknown]) if len(unknown) < 3 else []:
        e = dict(zip(unknown, vs))
        a = [e[n] if n else slots[i][1] for i, n in enumerate(names)]
        y = f(*a[1:])
        if y is not None and eq(y, a[0]):
            truth.append(e)

    def answers(call):
        out = []
        n = 0
        with_binds = unify_all(binds)
        for _ in with_binds:
            for r in call(Term('is', args[0], Term(fn, *args[1:]))):
                n += 1
                e = {}
                for i, nm in enumerate(names):
                    if nm:
                        e[nm] = snap(args[i])
                out.append((r, e))
                if n > 60:
                    raise Inconclusive('many solutions')
        return out

    def unify_all(bs):
        if not bs:
            yield
        else:
            for _ in unify(*bs[0]):
                yield from unify_all(bs[1:])

    need = [n for n in names[1:] if n]
    determined = not need or (len(unknown) == 1 and names.count(unknown[0]) == 1 and op in ('+', '-', 'neg', 'pos', 'cat', 'not')) or (
        op == 'cat' and names[0] is None and names.count('S') < 2)
    if len(unknown) == 1 and names.count(unknown[0]) == 1 and op in ('*', '/') and need:
        i = names.index(unknown[0])
        determined = (slots[2 if i == 1 else 1][1] != 0) if op == '*' else (i == 1 and slots[2][1] != 0) or (i == 2 and slots[0][1] != 0 and slots[1][1] != 0)
    if op == 'abs' and need and names[0] is None:
        determined = True
    if op == '/' and not need and slots[2][1] == 0:
        determined = False                                          # not a number

    p = Program('')
    for how in ('builtins', 'lookup'):
        delayed = False
        try:
            if how == 'builtins':
                got = answers(lambda q: [None] if False else Builtins(p)(q))
            else:
                got = answers(p.lookup)
                delayed = any(not r.is_const() for r, _ in got)
                require(not delayed or len(got) == 1, lambda: f'{what}\n{how}: both delayed and answered: {got}')
        except InstFault:
            delayed = True
        except (TypeError, ZeroDivisionError, ValueError, AssertionError) as ex:
            raise Violation(f'{what}\n{how} raised {type(ex).__name__}: {ex}')
        if delayed:
            require(not determined, lambda: f'{what}\n{how}: delayed although determined')
            continue
        if len(unknown) >= 3:
            raise Inconclusive('three unknowns')
        sols = [s for _, s in got]
        for e in truth:
            n = sum(instance(s, e) for s in sols)
            require(n == 1 or (op == '/' and not n and slots_zero(names, slots, e)), lambda: f'{what}\n{how}: {e} is a solution, covered by {n} of the answers {sols}')
        for s in sols:
            for e in candidates(s, unknown, kind):
                a = [e[n] if n else slots[i][1] for i, n in enumerate(names)]
                y = f(*a[1:])
                if op == '/' and a[1] == 0 and a[2] == 0:
                    continue
                require(y is not None and (eq(y, a[0]) or close(y, a[0])), lambda: f'{what}\n{how}: answer {s} has the instance {e}, which is not a solution')
    return Info(bool(need) or not truth, [op])


def close(a, b):
    return isinstance(a, (float, Fraction, int)) and isinstance(b, (float, Fraction, int)) and not isinstance(a, bool) and not isinstance(b, bool) and abs(a - b) < 1e-9


def slots_zero(names, slots, e):
    "0 is Y / Z holds for every Z: left to the delay."
    a = [e[n] if n else slots[i][1] for i, n in enumerate(names)]
    return a[0] == 0 and a[1] == 0


def instance(s, e):
    from dyna import Var
    m = {}
    for n, v in s.items():
        if isinstance(v, Var):
            if m.setdefault(id(v), e[n]) != e[n]:
                return False
        elif not (eq(v, e[n]) or close(v, e[n])):
            return False
    return True


def candidates(s, unknown, kind):
    from dyna import Var
    free = []
    for n in unknown:
        if isinstance(s[n], Var) and id(s[n]) not in [id(v) for v, _ in free]:
            free.append((s[n], n))
    for vs in itertools.product(*[pool(kind[n])[::3] for _, n in free]):
        m = {id(v): x for (v, _), x in zip(free, vs)}
        yield {n: m[id(s[n])] if isinstance(s[n], Var) else s[n] for n in unknown}


# -- rules ------------------------------------------------------------------------

@st.composite
def rules(draw):
    known = []                  # (name, kind)
    body = []
    data = []
    fresh = iter('ABCDEFGHIJKLMNOPQRSTUVWXYZ')

    def pick(kind):
        xs = [n for n, k in known if k == kind or (kind == 'n' and k == 'k')]
        if xs and draw(I(0, 4)):
            return ['v', draw(st.sampled_from(xs))]
        return ['c', draw(st.sampled_from(VALUES[kind]))]
    for i in range(draw(weighted((3, st.just(1)), (3, st.just(2)), (1, st.just(3))))):
        cols = draw(st.lists(st.sampled_from('nnnnks'), min_size=1, max_size=2))
        rows = [[draw(st.sampled_from(VALUES[k])) for k in cols] for _ in range(draw(I(1, 4)))]
        vs = []
        for k in cols:
            old = [n for n, kk in known if kk == k]
            if old and draw(I(0, 2)) == 0:
                vs.append(['v', draw(st.sampled_from(old))])
            else:
                n = next(fresh)
                known.append((n, k))
                vs.append(['v', n])
        body.append(['in', f'r{i}', vs])
        data += [[f'r{i}', row, draw(I(1, 5))] for row in rows]
    cs = []
    for _ in range(draw(I(1, 4))):
        t = draw(weighted((8, st.just('is')), (2, st.just('cmp')), (2, st.just('range')), (2, st.just('='))))
        if t == 'cmp':
            k = draw(st.sampled_from('nnns'))
            cs.append(['cmp', draw(st.sampled_from(sorted(CMP))), pick(k), pick(k)])
        elif t == 'range':
            n = next(fresh)
            a, b = pick('k'), pick('k')
            cs.append(['range', ['v', n], a, b])
            known.append((n, 'k'))
        elif t == '=':
            n = next(fresh)
            k = draw(st.sampled_from('ns'))
            cs.append(['=', *draw(st.permutations([['t', ['v', n], pick('n')], ['t', pick(k), pick('n')]]))])
            known.append((n, k))
        else:
            op = draw(st.sampled_from(['+', '-', '*', '/'] * 3 + ['neg', 'abs', 'pos', 'min', 'max', 'cat', 'rep', '<', '==', '!=']))
            kinds, res, _ = OPS[op]
            args = [pick(k) for k in kinds]
            where = draw(I(0, len(args)) if op in ('+', '-', '*', '/', 'neg', 'abs', 'pos', 'cat') and draw(I(0, 1)) else weighted((9, st.just(0)), (1, st.just(-1))))
            r = pick(res)
            if where == 0:
                n = next(fresh)
                r = ['v', n]
                known.append((n, res))
            elif where > 0:
                n = next(fresh)
                args[where - 1] = ['v', n]
                known.append((n, kinds[where - 1]))
            cs.append(['is', op, r, args])
    body += cs
    head = [['v', n] for n, _ in known if draw(I(0, 3))]
    body = draw(st.permutations(body)) if draw(I(0, 3)) else body
    return {'head': head, 'body': body, 'data': data}


def lit(x):
    return ('true' if x else 'false') if isinstance(x, bool) else f'"{x}"' if isinstance(x, str) else repr(x)


def arg(a):
    return a[1] if a[0] == 'v' else f's({arg(a[1])},{arg(a[2])})' if a[0] == 't' else lit(a[1])


def expr(op, args):
    if len(args) == 1:
        return f"'{CODE.get(op, op)}'({arg(args[0])})" if op not in ('abs', 'str', 'int') else f'{op}({arg(args[0])})'
    if op in ('min', 'max'):
        return f'{op}({arg(args[0])},{arg(args[1])})'
    return f'({arg(args[0])} {CODE.get(op, op)} {arg(args[1])})'


def show(b):
    k = b[0]
    if k == 'in':
        return f'{b[1]}({",".join(map(arg, b[2]))})'
    if k == 'cmp':
        return f'({arg(b[2])} {b[1]} {arg(b[3])})'
    if k == 'range':
        return f'(true is range({arg(b[1])},{arg(b[2])},{arg(b[3])}))'
    if k == '=':
        return f'({arg(b[1])} = {arg(b[2])})'
    return f'({arg(b[2])} is {expr(b[1], b[3])})'


def val(a, env):
    "Value of an argument, None if unknown."
    if a[0] == 'v':
        return env.get(a[1])
    if a[0] == 'c':
        return a[1]
    x, y = val(a[1], env), val(a[2], env)
    return None if x is None or y is None else ('t', x, y)


def unify_ref(a, v, env):
    "Bind a to the value v; None on failure."
    if a[0] == 'v':
        if a[1] in env:
            return env if eqv(env[a[1]], v) else None
        return {**env, a[1]: v}
    if a[0] == 't':
        if not isinstance(v, tuple):
            return None
        env = unify_ref(a[1], v[1], env)
        return env and unify_ref(a[2], v[2], env)
    return env if eqv(a[1], v) else None


def eqv(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and all(eqv(x, y) for x, y in zip(a[1:], b[1:]))
    return eq(a, b)


def solve(b, env):
    "Environments extending env, or None if not determined yet."
    k = b[0]
    if k == 'cmp':
        x, y = val(b[2], env), val(b[3], env)
        return None if x is None or y is None else [env] if CMP[b[1]](x, y) else []
    if k == 'range':
        lo, hi = val(b[2], env), val(b[3], env)
        if lo is None or hi is None:
            return None
        if not all(isinstance(x, int) for x in (lo, hi)):
            raise Inconclusive('range over non-integers')
        return [e for x in range(lo, hi) for e in [unify_ref(b[1], x, env)] if e is not None]
    if k == '=':
        l, r = b[1], b[2]
        x, y = val(l, env), val(r, env)
        if y is not None:
            e = unify_ref(l, y, env)
            return [e] if e is not None else []
        if x is not None:
            e = unify_ref(r, x, env)
            return [e] if e is not None else []
        # componentwise
        if l[0] == r[0] == 't':
            parts = [(l[1], r[1]), (l[2], r[2])]
            if all(val(p, env) is not None or val(q, env) is not None for p, q in parts):
                for p, q in parts:
                    s = solve(['=', p, q], env)
                    if not s:
                        return s
                    [env] = s
                return [env]
        return None
    _, op, r, args = b
    x, ys = val(r, env), [val(a, env) for a in args]
    if all(y is not None for y in ys):
        if any(isinstance(y, str) for y in ys) != (op in ('cat', 'rep')) and op not in ('str', 'int', '==', '!='):
            raise Inconclusive('types')
        if op == 'rep' and not isinstance(ys[1], int):
            raise Inconclusive('types')
        v = forward(op, ys)
        if v is None:
            if ys[0] == 0:
                raise Inconclusive('zero by zero')
            return []
        e = unify_ref(r, v, env)
        return [e] if e is not None else []
    if x is None:
        return None
    miss = [i for i, y in enumerate(ys) if y is None]
    if isinstance(x, str) != (op in ('cat', 'rep')):
        raise Inconclusive('types')
    if op == 'cat':
        out = []
        for i in range(len(x) + 1):
            e = unify_ref(args[0], x[:i], env)
            e = e and unify_ref(args[1], x[i:], e)
            if e is not None:
                out.append(e)
        return out
    if len(miss) > 1:
        return None
    if op in ('neg', 'pos'):
        return [unify_ref(args[0], -x if op == 'neg' else x, env)]
    if op == 'abs':
        return [] if x < 0 else [unify_ref(args[0], v, env) for v in sorted({x, -x})]
    i = miss[0]
    o = ys[1 - i]
    if isinstance(o, (str, bool)) or isinstance(x, bool):
        raise Inconclusive('types')
    if op == '+':
        v = x - o
    elif op == '-':
        v = x + o if i == 0 else o - x
    elif op == '*':
        if o == 0:
            if x == 0:
                return None
            return []
        v = Fraction(x) / Fraction(o)
    elif op == '/':
        if i == 0:
            if o == 0:
                raise Inconclusive('zero by zero')
            v = Fraction(x) * Fraction(o)
        else:
            if x == 0:
                if o == 0:
                    raise Inconclusive('zero by zero')
                return []
            if o == 0:
                raise Inconclusive('zero by zero')
            v = Fraction(o) / Fraction(x)
    else:
        return None
    e = unify_ref(args[i], v, env)
    return [e] if e is not None else []


def reference(case):
    out = {}
    rels = [b for b in case['body'] if b[0] == 'in']
    cons = [b for b in case['body'] if b[0] != 'in']
    tables = [[(row, w) for f, row, w in case['data'] if f == b[1]] for b in rels]
    for combo in itertools.product(*tables):
        env, w = {}, 1
        for b, (row, k) in zip(rels, combo):
            w *= k
            for a, v in zip(b[2], row):
                env = env is not None and unify_ref(a, v, env)
                if env is None or env is False:
                    env = None
                    break
            if env is None:
                break
        if env is None:
            continue
        todo = [(env, cons)]
        while todo:
            env, cs = todo.pop()
            if not cs:
                key = tuple(env[h[1]] for h in case['head'])
                if any(isinstance(x, Fraction) and x.denominator & (x.denominator - 1) for x in env.values()):
                    raise Inconclusive('inexact division')
                out[key] = out.get(key, 0) + w
                continue
            stuck = True
            for i, c in enumerate(cs):
                s = solve(c, env)
                if s is not None:
                    todo += [(e, cs[:i] + cs[i + 1:]) for e in s]
                    stuck = False
                    break
            if stuck:
                raise Inconclusive('constraints that stay delayed')
    return out


def in_order(case):
    "Is every constraint determined when reached from left to right, whatever the data?"
    bound = set()

    def names(a):
        return {a[1]} if a[0] == 'v' else names(a[1]) | names(a[2]) if a[0] == 't' else set()
    for b in case['body']:
        k = b[0]
        if k == 'in':
            for a in b[2]:
                bound |= names(a)
        elif k == 'cmp':
            if not names(b[2]) | names(b[3]) <= bound:
                return False
        elif k == 'range':
            if not names(b[2]) | names(b[3]) <= bound:
                return False
            bound |= names(b[1])
        elif k == '=':
            l, r = b[1:]
            ok = all(names(p) <= bound or names(q) <= bound for p, q in zip(l[1:], r[1:]))
            if not ok:
                return False
            bound |= names(l) | names(r)
        else:
            _, op, r, args = b
            if op == '/' and (args[1][0] == 'v' or args[1][1] == 0):
                return False                    # may be zero by zero
            open_ = [a for a in args if not names(a) <= bound]
            if open_:
                if not names(r) <= bound:
                    return False
                if op == 'cat':
                    pass
                elif len(open_) > 1 or op in ('min', 'max', '<', '==', '!=', 'rep', '*', '/'):
                    return False
            for a in [r, *args]:
                bound |= names(a)
    return True


def source(case, body=None):
    body = case['body'] if body is None else body
    return f'out({",".join(map(arg, case["head"]))}) += {" * ".join(map(show, body))}.\n' if case['head'] else f'out += {" * ".join(map(show, body))}.\n'


def facts(case):
    return '\n'.join(f'{f}({",".join(map(lit, row))}) += {w}.' for f, row, w in case['data'])


def chart_of(p):
    from dyna.term import snap, Term
    out = {}
    for r in p.rules:
        if str(r.head.fn) != 'out':
            continue
        if not r.is_const() and any(b.fn == 'is' and getattr(b.args[1], 'fn', 0) == 'range' and any(isinstance(snap(x), float) for x in b.args[1].args[1:]) for b in r.body if isinstance(b, Term)):
            raise Inconclusive('range over non-integers')
        require(r.is_const(), lambda: f'the result has an unresolved row {r}')
        v = 1
        for x in r.body:
            v *= float(snap(x))
        key = tuple(conv(a) for a in r.head.args)
        out[key] = out.get(key, 0) + v
    return out


def conv(a):
    from dyna import Term, Var
    from dyna.term import snap
    a = snap(a)
    if isinstance(a, Term):
        return ('t', *(conv(x) for x in a.args))
    if isinstance(a, Var):
        raise Violation('a head variable is unbound in the result')
    return a


def agree(a, b):
    b = dict(b)
    for k, v in a.items():
        m = [x for x in b if len(x) == len(k) and all(eqv(p, q) or close(p, q) for p, q in zip(k, x))]
        if len(m) != 1 or abs(b.pop(m[0]) - v) > 1e-6:
            return False
    return not b


def run_rules(case):
    from dyna import Program
    from dyna.exceptions import InstFault
    from dyna.execute.solver import Solver as Solver1
    from dyna.execute.solver2 import Solver as Solver2
    want = reference(case)
    src = source(case)
    text = src + facts(case)
    ok = in_order(case)
    # a repetition count may be equated with a number that is not an integer
    loose = any(b[0] == '=' for b in case['body']) and any(b[:2] == ['is', 'rep'] for b in case['body'])
    used = []
    for name, S in (('solver', Solver1), ('solver2', Solver2)):
        try:
            got = chart_of(S(Program(text))().sol())
        except InstFault:
            require(not ok, lambda: f'{text}\n{name}: not ready, though every constraint is determined when reached')
            continue
        except (TypeError, ZeroDivisionError) as ex:
            if loose and isinstance(ex, TypeError):
                raise Inconclusive('types')
            raise Violation(f'{text}\n{name} raised {type(ex).__name__}: {ex}')
        used.append(name)
        require(agree(want, got), lambda: f'{text}\n{name} gives {got}\nexpected {want}')
    p, d = Program(src), Program(facts(case))
    try:
        got = p.step(d).run_builtins().constant_folding()
    except (TypeError, ZeroDivisionError) as ex:
        if loose and isinstance(ex, TypeError):
            raise Inconclusive('types')
        raise Violation(f'{text}\nstep raised {type(ex).__name__}: {ex}')
    got = chart_of(got)
    require(agree(want, got), lambda: f'{text}\nstep and run_builtins give {got}\nexpected {want}')
    try:
        got = Program(src).run_builtins().step(d).run_builtins().constant_folding()
    except (TypeError, ZeroDivisionError) as ex:
        if loose and isinstance(ex, TypeError):
            raise Inconclusive('types')
        raise Violation(f'{text}\nrun_builtins raised {type(ex).__name__}: {ex}')
    got = chart_of(got)
    require(agree(want, got), lambda: f'{text}\nrun_builtins, then step give {got}\nexpected {want}')
    used.append('step')
    n = sum(b[0] != 'in' for b in case['body'])
    return Info(bool(want) and n >= 2, [*used, 'empty' if not want else 'some', 'ready' if ok else 'late'])


# -- the value of an item ----------------------------------------------------------

@st.composite
def indirect(draw):
    facts = draw(st.lists(st.tuples(st.sampled_from(['a', 'b', '"a"', '1', '2']), st.sampled_from(['a', '1', '2']), I(-2, 4)), min_size=1, max_size=6))
    ks = [draw(st.sampled_from(['a', 'b', '"a"', '1', '2', 'c', 'X', 'X', 'Y'])) for _ in range(2)]
    f = draw(st.sampled_from('fgh'))
    return {'facts': [list(x) for x in facts], 'fn': f, 'keys': ks, 'c': draw(I(1, 3)), 'v': draw(weighted((6, st.just(None)), (1, I(0, 3))))}


def run_indirect(case):
    from dyna import Program, Term, Var
    from dyna.exceptions import InstFault
    from dyna.term import snap
    from dyna.syntax import term
    want = {}
    for x, y, w in case['facts']:
        want[x, y] = want.get((x, y), 0) + w
    fn = case['fn']
    if fn == 'g':
        want = {(y, x): case['c'] * w for (x, y), w in want.items()}
    elif fn == 'h':
        t = {}
        for (x, y), w in want.items():
            for z in ('a', '1', '2'):
                if (y, z) in want:
                    t[x, z] = t.get((x, z), 0) + w * want[y, z]
        want = t
    text = '\n'.join(f'f({x},{y}) += {w}.' for x, y, w in case['facts']) + f"\ng(X,Y) += {case['c']} * f(Y,X).\nh(X,Z) += f(X,Y) * f(Y,Z)."
    q = term(f"V is {fn}({case['keys'][0]},{case['keys'][1]})" if case['v'] is None else f"{case['v']} is {fn}({case['keys'][0]},{case['keys'][1]})")
    p = Program(text)
    try:
        got = []
        for r in p.lookup(q):
            if not r.is_const():
                raise InstFault('delayed')
            got.append((tuple(repr(snap(a)) for a in snap(q.args[1]).args), snap(q.args[0])))
            require(all(snap(b) == 1 for b in r.body), lambda: f'{text}\nlookup {q}: the constraint contributes {r}')
    except InstFault:
        require(case['v'] is not None, lambda: f'{text}\nlookup {q} is delayed')
        return Info(False, ['delayed'])
    exp = []
    for k, w in want.items():
        e = {}
        if w != 0 and all((e.setdefault(p_, v) == v) if p_ in 'XY' else p_ == v for p_, v in zip(case['keys'], k)) and case['v'] in (None, w):
            exp.append((tuple(v.replace('"', "'") if 0 else v for v in k), w))
    nrm = lambda xs: sorted((tuple(a.replace("'", '"') for a in k), float(w)) for k, w in xs)
    require(nrm(got) == nrm(exp), lambda: f'{text}\nlookup {q}: {nrm(got)}\nexpected {nrm(exp)}')
    return Info(len(exp) >= 1 and any(k in 'XY' for k in case['keys']), [fn])


CHECKS = [Check('indirect', indirect(), run_indirect, quick=1500), Check('modes', call(), run_call, quick=8000), Check('rules', rules(), run_rules, quick=6000)]
