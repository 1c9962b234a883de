"""Running the code's evaluators on a case, in several semirings.

A case is a program case of `progs` plus

  "S": 'poly' | 'bool' | 'minplus' | 'maxtimes' | 'float' | 'damped'
  "place": 'rules' (data are rules of the program) | 'load' (data passed to the solver)
           | 'text' (numbers lifted from program text)

`poly` is the reference's own truncated polynomials, run through the code as a
user-defined semiring: on recursive programs that spend the indeterminate on each
cycle the least fixpoint is reached exactly, so values compare exactly.
"""
from . import progs
from .core import Inconclusive, Violation
from .progs import _Val, rules_of, src
from .refeval import (TP, FloatS, DampedS, BoolS, MinPlusS, MaxTimesS, Limits, NotConverged, INF, diff, evaluate, near)
from .terms import V, dec, from_dyna, from_rule, text, to_dyna, rule_text

_poly = None


def Poly():
    "The code-side class for truncated polynomials (made on first use: needs the repository's dependencies)."
    global _poly
    if _poly is not None:
        return _poly
    from semirings import base

    class Poly(base.Semiring):
        def __init__(self, x):
            self.x = x

        def __add__(self, other):
            return Poly(TP.plus(self.x, other.x))

        def __mul__(self, other):
            if not isinstance(other, Poly):
                return NotImplemented
            return Poly(TP.times(self.x, other.x))

        def __eq__(self, other):
            return isinstance(other, Poly) and self.x == other.x

        def __hash__(self):
            return hash(self.x)

        def __lt__(self, other):
            return self.x < other.x

        def __repr__(self):
            return f'Poly{self.x}'

        def star(self):
            if self.x and self.x[0] != 0:
                return Poly(TP.inf((1,)) + tuple(INF for _ in range(TP.DEG)))      # only used when the total is discarded
            s = Poly.one
            for _ in range(TP.DEG + 1):
                s = Poly.one + self * s
            return s

        @classmethod
        def lift(cls, x, _=None):
            return x if isinstance(x, Poly) else Poly(TP.const(x))

        @classmethod
        def multiplicity(cls, v, m):
            assert m == INF
            return Poly(TP.inf(v.x))

        @classmethod
        def multiple(cls, m):
            return cls.multiplicity(cls.one, m)

    Poly.zero, Poly.one = Poly(()), Poly((1,))
    _poly = Poly
    return Poly


class Sem:
    "ref: reference semiring; val(k): JSON weight -> reference value; code(v)/back(x): to and from the code's values."
    inf_ok = True

    def __init__(self, name):
        self.name = name
        self.ref = {'poly': TP, 'bool': BoolS, 'minplus': MinPlusS, 'maxtimes': MaxTimesS, 'float': FloatS, 'damped': DampedS}[name]

    def val(self, k):
        n = self.name
        if isinstance(k, list):
            k = k[1]
            return {'poly': lambda: TP.eps(k), 'bool': lambda: True, 'minplus': lambda: k % 3, 'maxtimes': lambda: 1 / (1 + k % 3),
                    'float': lambda: k, 'damped': lambda: 1 / (16 * k)}[n]()
        if n == 'poly':
            return TP.const(k)
        if n == 'bool':
            return bool(k)
        if n == 'maxtimes':
            return k if k <= 1 else 1 / k
        if n == 'damped':
            return k / 8
        return k

    def cls(self):
        import semirings
        return {'poly': Poly, 'bool': lambda: semirings.Boolean, 'minplus': lambda: semirings.MinPlus,
                'maxtimes': lambda: semirings.MaxTimes, 'float': lambda: None, 'damped': lambda: None}[self.name]()

    def code(self, v):
        C = self.cls()
        if C is None:
            return float(v)
        if self.name == 'poly':
            return C(v)
        return C(v, ())

    def back(self, x):
        n = self.name
        if n == 'poly':
            return x.x
        if n == 'bool':
            return bool(x.score)
        if n == 'minplus':
            return x.cost
        if n == 'maxtimes':
            return x.score
        if x != x:
            raise Violation('a value is not a number')
        return x

    def same(self, a, b):
        if self.name == 'damped':
            return near(a, b, 1e-4)
        if self.name in ('float', 'maxtimes'):
            return near(a, b, 1e-9)
        if self.name == 'poly':
            return strip(a) == strip(b)
        return a == b

    def zero_ok(self):
        return True


def strip(a):
    while a and a[-1] == 0:
        a = a[:-1]
    return a


# ---------------------------------------------------------------------------

def wconst(b, sem):
    return b if isinstance(b, (V, tuple)) else _Val(sem.val(b))


def ref_rules(case, sem):
    "The case's rules and data for the reference evaluator."
    rules = [(h, tuple(wconst(b, sem) for b in body)) for h, body in rules_of(case)]
    if case.get('inline'):          # the weights w* as coefficients of the rules themselves
        ws = {dec(f): _Val(sem.val(k)) for f, k in case['data'] if len(f) == 1 and f[0][0] == 'w'}
        rules = [(h, tuple(ws.get(b, b) for b in body)) for h, body in rules]
        data = [(dec(f), (_Val(sem.val(k)),)) for f, k in case['data'] if dec(f) not in ws]
        return rules, data
    data = [(dec(f), (_Val(sem.val(k)),)) for f, k in case.get('data', [])]
    return rules, data


def semiring(sem):
    S = sem.ref

    class S2(S):
        const = staticmethod(lambda x: x.v if isinstance(x, _Val) else S.const(x))
    S2.__name__ = S.__name__
    return S2


def ref_chart(case, sem, limits=None, rules=None, data=None):
    r, d = ref_rules(case, sem)
    try:
        return evaluate((data if data is not None else d) + (rules if rules is not None else r), semiring(sem), limits or Limits(rounds=80, steps=120000))
    except NotConverged:
        raise Inconclusive('the reference does not converge') from None
    except OverflowError:
        raise Inconclusive('overflow') from None


def crule(head, body, sem):
    from dyna import Rule
    env = {}
    h = to_dyna(head, env)
    return Rule(h, *[to_dyna(b, env) if isinstance(b, (V, tuple)) else b for b in body])


def code_rules(rules, sem):
    "Rules given in reference form (with _Val weights) as rule objects of the code."
    return [crule(h, [sem.code(b.v) if isinstance(b, _Val) else b for b in body], sem) for h, body in rules]


def io(case):
    from dyna import Program
    ins = Program('\n'.join(text(dec(x)) + '.' for x in case.get('inputs') or []))
    outs = Program('\n'.join(text(dec(x)) + '.' for x in case.get('outputs') or []))
    return ins, outs


def code_program(case, sem, data=True):
    """The code's Program in the given semiring, with or without the data as rules.
    In place 'text' the constants of the rules come from text through `lift_semiring`."""
    from dyna import Program
    rules, facts = ref_rules(case, sem)
    ins, outs = io(case)
    if case.get('place') == 'text' and sem.name != 'damped' and not case.get('inline'):
        lines = []
        for h, body in rules_of(case):
            bs = [b if isinstance(b, (V, tuple)) or sem.name in ('poly', 'bool') else sem.val(b) for b in body]
            lines.append(rule_text(h, bs))
        p = Program('\n'.join(lines), inputs=ins, outputs=outs)
        if sem.cls() is not None:
            p = p.lift_semiring(sem.cls())
            p.inputs, p.outputs = ins, outs
    else:
        p = Program(code_rules(rules, sem), inputs=ins, outputs=outs, semiring=sem.cls())
    if data:
        for r in code_rules(facts, sem):
            p.append(r)
    return p


def data_program(case, sem):
    from dyna import Program
    return Program(code_rules(ref_rules(case, sem)[1], sem), semiring=sem.cls())


def chart_of(p, sem, skip=()):
    "A solved program (rules with constant bodies, possibly with delayed built-ins) as a reference chart."
    from dyna.term import Term
    rules = []
    for r in p.rules:
        h, body = from_rule_const(r, sem)
        rules.append((h, body))
    return evaluate(rules, semiring(sem), Limits())


def from_rule_const(r, sem):
    from dyna import is_const
    names = {}
    h = from_dyna(r.head, names)
    return h, tuple(_Val(sem.back(b)) if is_const(b) else from_dyna(b, names) for b in r.body)


def gen_functor(f):
    return isinstance(f, tuple) and isinstance(f[0], str) and f[0].startswith('$gen')


def check_chart(A, B, sem, what, keep=None):
    keep = keep or (lambda f: not gen_functor(f))
    d = diff(A, B, keep, sem.same)
    if d is not None:
        p, a, b = d
        raise Violation(f'{what}\n{text(p)} has value {show(a)} in the reference, {show(b)} here')


def show(v):
    return str(v)


# ---------------------------------------------------------------------------
# generation

def ready_order(body):
    "Keep the order of the subgoals but delay each built-in until its inputs are bound (left to right)."
    out, wait, bound = [], [], set()

    def names(j):
        return {x['v'] for x in progs.tv(j)}

    def ready(b):
        if b[0] == '=':
            return True
        if b[0] == 'is':
            return names(b[2]) <= bound
        return names(b) <= bound

    def push(b):
        out.append(b)
        if isinstance(b, list):
            if b[0] == '=':
                l, r = names(b[1]), names(b[2])
                if l <= bound or r <= bound or not l or not r:
                    bound.update(l | r)
            else:
                bound.update(names(b))
        for w in list(wait):
            if ready(w):
                wait.remove(w)
                push(w)
                break
    for b in body:
        if isinstance(b, list) and progs.is_builtin(dec(b)) and not ready(b):
            wait.append(b)
        else:
            push(b)
    return out + wait


def ordered(case):
    return {**case, 'rules': [[h, ready_order(b)] for h, b in case['rules']]}


def has_w(case):
    return any(isinstance(k, list) for _, k in case['data'])


def with_semiring(names=('poly', 'bool', 'minplus', 'maxtimes', 'float', 'damped')):
    from hypothesis import strategies as st
    from . import gen

    def pick(c):
        ws = [n for n in names if n != 'float' or not has_w(c)]
        w = {'poly': 4, 'float': 6, 'damped': 1, 'bool': 1, 'minplus': 2, 'maxtimes': 1}
        return gen.weighted(*[(w[n], st.just(n)) for n in ws]).map(lambda n: {**c, 'S': n})
    return pick


def rec(case):
    from .refeval import _strata
    return any(r for _, _, r in _strata(rules_of(case)))


def strip_zero(v):
    return strip(v) if isinstance(v, tuple) else v
