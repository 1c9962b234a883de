"""Reference semantics: naive bottom-up evaluation, independent of the code under test.

A program is a list of (head, body) over the term language of `terms.py`; body
items that are constants are weights.  A chart maps canonical facts (possibly
nonground: a fact with variables stands for all its instances) to values, and a
ground item's value is the sum over the facts that cover it.  A rule contributes,
for every combination of chart facts its subgoals unify with, the product of the
weights to the instantiated head; a body variable that stays unbound and is not
in the head ranges over infinitely many terms, so it multiplies by infinity.

Values come from a small semiring interface.  The default, `TP`, is polynomials
in one indeterminate with coefficients in N u {inf}, truncated at degree DEG:
programs that spend the indeterminate (the 0-ary inputs w0, w1, ...) on every
recursive rule reach an exact fixpoint after finitely many rounds.
"""
from fractions import Fraction

from .core import Inconclusive
from .terms import V, canon, covers, tvars, unify, subst, unquote

INF = float('inf')


def near(a, b, tol):
    "Equal up to a relative tolerance; an infinity is near nothing but itself."
    return a == b or (abs(a) != INF and abs(b) != INF and abs(a - b) <= tol * max(1, abs(a), abs(b)))


class TP:
    "Truncated polynomials over N u {inf}."
    DEG = 5
    zero = ()
    one = (1,)
    idempotent = False

    @classmethod
    def const(cls, x):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float) and x - x == 0:
            x = Fraction(x)              # exact
        return (x,) if x != 0 else ()

    @classmethod
    def eps(cls, k=1):
        return (0, k)

    @classmethod
    def plus(cls, a, b):
        if len(a) < len(b):
            a, b = b, a
        return tuple(x + b[i] if i < len(b) else x for i, x in enumerate(a))

    @classmethod
    def times(cls, a, b):
        if not a or not b:
            return ()
        if len(a) == 1 and a[0] == 1:
            return b
        if len(b) == 1 and b[0] == 1:
            return a
        n = min(len(a) + len(b) - 1, cls.DEG + 1)
        out = [0] * n
        for i, x in enumerate(a):
            if x == 0 or i >= n:
                continue
            for j, y in enumerate(b):
                if y != 0 and i + j < n:
                    out[i + j] += x * y
        while out and out[-1] == 0:
            out.pop()
        return tuple(out)

    @classmethod
    def inf(cls, a):
        return tuple(INF if x else 0 for x in a)

    @classmethod
    def same(cls, a, b):
        return a == b

    @classmethod
    def exceeds(cls, a, b):
        "Some coefficient of a is strictly above b's (values only grow along the iteration)."
        return any(x > (b[i] if i < len(b) else 0) for i, x in enumerate(a))


class FloatS:
    zero, one, idempotent = 0, 1, False
    tol = 0

    @classmethod
    def const(cls, x):
        return x

    @classmethod
    def plus(cls, a, b):
        return a + b

    @classmethod
    def times(cls, a, b):
        return 0 if a == 0 or b == 0 else a * b

    @classmethod
    def inf(cls, a):
        return 0 if a == 0 else a * INF

    @classmethod
    def same(cls, a, b):
        return near(a, b, cls.tol)

    @classmethod
    def exceeds(cls, a, b):
        return False


class DampedS(FloatS):
    "Cyclic programs with damped weights: iterate to numerical convergence."
    tol = 1e-13


class BoolS:
    zero, one, idempotent = False, True, True
    const = staticmethod(lambda x: bool(x))
    plus = staticmethod(lambda a, b: a or b)
    times = staticmethod(lambda a, b: a and b)
    inf = staticmethod(lambda a: a)
    same = staticmethod(lambda a, b: a == b)
    exceeds = staticmethod(lambda a, b: a and not b)


class MinPlusS:
    zero, one, idempotent = INF, 0, True
    const = staticmethod(lambda x: x)
    plus = staticmethod(min)
    times = staticmethod(lambda a, b: a + b)
    inf = staticmethod(lambda a: a)
    same = staticmethod(lambda a, b: a == b)
    exceeds = staticmethod(lambda a, b: a < b)


class MaxTimesS:
    zero, one, idempotent = 0, 1, True
    const = staticmethod(lambda x: x)
    plus = staticmethod(max)
    times = staticmethod(lambda a, b: 0 if a == 0 or b == 0 else a * b)
    inf = staticmethod(lambda a: a)
    same = staticmethod(lambda a, b: a == b)
    exceeds = staticmethod(lambda a, b: a > b)


# ---------------------------------------------------------------------------
# terms under a triangular substitution

def walk(t, s):
    while isinstance(t, V) and t in s:
        t = s[t]
    return t


def deref(t, s):
    t = walk(t, s)
    if isinstance(t, tuple):
        return (t[0],) + tuple(deref(a, s) for a in t[1:])
    return t


def _occurs(v, t, s):
    t = walk(t, s)
    if isinstance(t, V):
        return t == v
    if isinstance(t, tuple):
        return any(_occurs(v, a, s) for a in t[1:])
    return False


def unify_s(x, y, s, trail):
    x = walk(x, s)
    y = walk(y, s)
    if isinstance(x, V):
        if isinstance(y, V) and x == y:
            return True
        if isinstance(y, tuple) and _occurs(x, y, s):
            return False
        s[x] = y
        trail.append(x)
        return True
    if isinstance(y, V):
        if isinstance(x, tuple) and _occurs(y, x, s):
            return False
        s[y] = x
        trail.append(y)
        return True
    if isinstance(x, tuple):
        if not isinstance(y, tuple) or x[0] != y[0] or len(x) != len(y):
            return False
        for i in range(1, len(x)):
            if not unify_s(x[i], y[i], s, trail):
                return False
        return True
    if isinstance(y, tuple):
        return False
    return x == y


def undo(s, trail, n):
    while len(trail) > n:
        del s[trail.pop()]


def is_ground(t, s):
    t = walk(t, s)
    if isinstance(t, V):
        return False
    if isinstance(t, tuple):
        return all(is_ground(a, s) for a in t[1:])
    return True


# ---------------------------------------------------------------------------
# builtins

CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b,
       '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def is_builtin(b):
    if isinstance(b, V):
        return True
    return isinstance(b, tuple) and ((len(b) == 3 and b[0] in CMP) or (len(b) == 3 and b[0] in ('=', 'is', '$not_matches')))


def is_num(x):
    return isinstance(x, (int, float))


NOTREADY = 'notready'


def eval_builtin(b, s):
    """Solutions of a builtin as a list of (lhs, rhs) equation lists to unify, or
    NOTREADY.  [] = fails, [[]] = succeeds."""
    b = walk(b, s)
    if isinstance(b, V):
        return NOTREADY
    f = b[0]
    if f == '=':
        return [[(b[1], b[2])]]
    if f == '$not_matches':
        y = deref(b[2], s)
        x = unquote(b[1][1])
        if not _unif_apart(x, y):
            return [[]]
        if covers(x, y):
            return []
        return NOTREADY
    if f in CMP:
        if is_ground(b[1], s) and is_ground(b[2], s):
            x, y = deref(b[1], s), deref(b[2], s)
            if f in ('==', '!='):
                return [[]] if CMP[f](x, y) else []
            if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, str) != isinstance(y, str):
                raise Inconclusive('comparison of non-numbers')
            return [[]] if CMP[f](x, y) else []
        return NOTREADY
    assert f == 'is'
    e = walk(b[2], s)
    if not isinstance(e, tuple):
        raise Inconclusive('is with a literal')
    x = walk(b[1], s)
    args = [walk(a, s) for a in e[1:]]
    if len(args) == 2 and e[0] in '+-*' and all(is_num(a) for a in args):
        y, z = args
        return [[(x, y + z if e[0] == '+' else y - z if e[0] == '-' else y * z)]]
    if len(args) == 2 and e[0] in ('min', 'max') and all(is_num(a) for a in args):
        return [[(x, min(args) if e[0] == 'min' else max(args))]]
    if len(args) == 2 and e[0] == '+' and is_num(x) and is_num(args[0]):
        return [[(args[1], x - args[0])]]
    if len(args) == 2 and e[0] == '+' and is_num(x) and is_num(args[1]):
        return [[(args[0], x - args[1])]]
    if len(args) == 2 and e[0] == '-' and is_num(x) and is_num(args[1]):
        return [[(args[0], x + args[1])]]
    if len(args) == 2 and e[0] == '-' and is_num(x) and is_num(args[0]):
        return [[(args[1], args[0] - x)]]
    return NOTREADY


def _unif_apart(x, y):
    from .terms import unifiable_apart
    return unifiable_apart(x, y)


# ---------------------------------------------------------------------------

class Limits:
    def __init__(self, facts=3000, rounds=200, steps=400000, size=60):
        self.facts, self.rounds, self.steps, self.size = facts, rounds, steps, size


def rename_apart(t, k):
    if isinstance(t, V):
        return V(f'{t.name}~{k}')
    if isinstance(t, tuple):
        return (t[0],) + tuple(rename_apart(a, k) for a in t[1:])
    return t


class Chart:
    def __init__(self, S):
        self.S = S
        self.v = {}             # canonical fact -> value
        self.by = {}            # functor -> {fact: ground?}

    def add(self, fact, val):
        S = self.S
        if val == S.zero:
            return
        if fact in self.v:
            self.v[fact] = S.plus(self.v[fact], val)
        else:
            self.v[fact] = val
            f = (fact[0], len(fact)) if isinstance(fact, tuple) else None
            self.by.setdefault(f, {})[fact] = not tvars(fact)

    def value(self, item):
        "Value of a ground item."
        v = self.S.zero
        for fact, g in self.by.get((item[0], len(item)), {}).items():
            if (fact == item) if g else covers(fact, item):
                v = self.S.plus(v, self.v[fact])
        return v

    def items(self):
        return self.v.items()


def fnkey(t):
    return (t[0], len(t)) if isinstance(t, tuple) else None


class NotConverged(Inconclusive):
    def __init__(self, chart):
        super().__init__('the reference does not converge')
        self.chart = chart


def evaluate(rules, S=TP, limits=None, stop=None):
    """Least fixpoint of `rules`.  Raises NotConverged (with the partial chart, a
    lower bound in N-like semirings) when the round limit is exceeded and
    Inconclusive when another bound is."""
    limits = limits or Limits()
    rules = list(rules)
    budget = [limits.steps]
    strata = _strata(rules)
    chart = Chart(S)
    for fns, rs, recursive in strata:
        if not recursive:
            new = Chart(S)
            for r in rs:
                _fire(r, chart, new, S, budget, limits)
            for k, v in new.items():
                chart.add(k, v)
            continue
        cur = Chart(S)
        base = chart
        for rnd in range(limits.rounds + 1):
            view = Chart(S)
            view.v = dict(base.v)
            view.by = {f: dict(d) for f, d in base.by.items()}
            for k, v in cur.items():
                view.add(k, v)
            new = Chart(S)
            for r in rs:
                _fire(r, view, new, S, budget, limits)
            if len(new.v) > limits.facts:
                raise Inconclusive('too many facts')
            if new.v.keys() == cur.v.keys() and all(S.same(new.v[k], cur.v[k]) for k in new.v):
                break
            cur = new
            if stop is not None and stop(cur):
                break
            if rnd == limits.rounds:
                for k, v in cur.items():
                    chart.add(k, v)
                raise NotConverged(chart)
        for k, v in new.items():
            chart.add(k, v)
    return chart


def _strata(rules):
    """Predicate SCCs in dependency order: [(functors, rules, recursive?)]."""
    wild = any(not isinstance(h, tuple) for h, _ in rules) or \
        any(isinstance(b, V) for _, body in rules for b in body)
    if wild:
        return [(None, rules, True)]
    defs = {}
    for h, body in rules:
        defs.setdefault(fnkey(h), []).append((h, body))
    deps = {f: {fnkey(b) for _, body in rs for b in body if isinstance(b, tuple) and not is_builtin(b)} for f, rs in defs.items()}
    index, low, onst, st, out, n = {}, {}, set(), [], [], [0]

    def visit(v):
        index[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        onst.add(v)
        for w in sorted(deps.get(v, ()), key=str):
            if w not in defs:
                continue
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = st.pop()
                onst.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in sorted(defs, key=str):
        if v not in index:
            visit(v)
    res = []
    for comp in out:
        rs = [r for f in comp for r in defs[f]]
        rec = len(comp) > 1 or comp[0] in deps[comp[0]]
        res.append((comp, rs, rec))
    return res


def _fire(rule, chart, new, S, budget, limits):
    """Add every instance of the rule's head derivable from `chart` to `new`.  Partial
    joins that agree on what is left to do are shared (memoised)."""
    memo = {}

    def solve(key):
        got = memo.get(key)
        if got is None:
            got = memo[key] = {}
            expand(key[1], key[2:], got)
        return got

    def step(head, b, rest, s, val, out):
        h = deref(head, s)
        rest = [deref(x, s) for x in rest]
        loose = tvars(deref(b, s))
        if loose:
            live = tvars(h)
            for x in rest:
                tvars(x, live)
            if any(v not in live for v in loose):    # never bound: ranges over everything
                val = S.inf(val)
        for hh, v in solve(canon(('$', h, *rest))).items():
            v = S.times(val, v)
            out[hh] = S.plus(out[hh], v) if hh in out else v

    def expand(head, todo, out):
        budget[0] -= 1
        if budget[0] < 0:
            raise Inconclusive('step budget')
        if not todo:
            out[canon(head)] = S.one
            return
        # weights and ready builtins first
        for i, b in enumerate(todo):
            rest = todo[:i] + todo[i + 1:]
            if isinstance(b, V):
                continue
            if not isinstance(b, tuple):
                w = S.const(b)
                if w != S.zero:
                    step(head, b, rest, {}, w, out)
                return
            if is_builtin(b):
                sols = eval_builtin(b, {})
                if sols is NOTREADY:
                    continue
                for eqs in sols:
                    s, trail = {}, []
                    if all(unify_s(x, y, s, trail) for x, y in eqs):
                        step(head, b, rest, s, S.one, out)
                return
        # then the ordinary subgoal with the fewest open variables
        best = None
        for i, b in enumerate(todo):
            if isinstance(b, tuple) and not is_builtin(b):
                k = len(tvars(b))
                if best is None or k < best[0]:
                    best = k, i, b
        if best is None:
            raise Inconclusive('delayed builtin')
        k, i, b = best
        rest = todo[:i] + todo[i + 1:]
        facts = chart.by.get((b[0], len(b)), {})
        if k == 0 and all(facts.values()):
            v = chart.v.get(b)
            if v is not None:
                step(head, b, rest, {}, v, out)
            return
        for fact, g in list(facts.items()):
            budget[0] -= 1
            f = fact if g else rename_apart(fact, 0)
            s, trail = {}, []
            if unify_s(b, f, s, trail):
                step(head, b, rest, s, chart.v[fact], out)

    head, body = rule
    for h, v in solve(canon(('$', head, *body))).items():
        new.add(h, v)


# ---------------------------------------------------------------------------
# comparing charts, possibly nonground, as functions on ground items

def _fresh_ground(t):
    m = {v: (f'$fresh{i}',) for i, v in enumerate(tvars(t))}
    return subst(m, t)


def points(facts, cap=400):
    """Ground items that distinguish every region the given patterns cut out: one
    generic instance of every pattern and of every overlap of patterns."""
    pats = {canon(f) for f in facts}
    ground = {f for f in pats if not tvars(f)}
    open_ = {f for f in pats if tvars(f)}
    todo = list(open_)
    seen = set(open_)
    while todo and len(seen) < cap:
        x = todo.pop()
        for y in list(open_):
            from .terms import rename
            a, b = rename(x, "'1"), rename(y, "'2")
            if a[0] != b[0] or len(a) != len(b):
                continue
            m = unify(a, b, {})
            if m is None:
                continue
            z = canon(subst(m, a))
            if z not in seen:
                seen.add(z)
                if tvars(z):
                    todo.append(z)
    return ground | {_fresh_ground(z) for z in seen}


def diff(A, B, keep=lambda fact: True, same=None):
    """First ground item (among those `keep`) on which the two charts disagree, as
    (item, a, b), or None."""
    S = A.S
    same = same or S.same
    fa = [f for f in A.v if keep(f)]
    fb = [f for f in B.v if keep(f)]
    if all(not tvars(f) for f in fa) and all(not tvars(f) for f in fb):
        for f in fa + fb:
            a, b = A.v.get(f, S.zero), B.v.get(f, S.zero)
            if not same(a, b):
                return f, a, b
        return None
    for p in points(fa + fb):
        a, b = A.value(p), B.value(p)
        if not same(a, b):
            return p, a, b
    return None
