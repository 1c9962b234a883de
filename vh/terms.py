"""The harness's own term language, independent of the code under test.

    variable   V('X')
    compound   ('f', a, b)      a tuple, functor first; ('a',) is the atom `a`
    constant   int / float / str / bool

`enc`/`dec` convert to and from JSON (variable -> {"v": name}, compound -> list).
"""


class V:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, V) and o.name == self.name

    def __hash__(self):
        return hash(('V', self.name))

    def __repr__(self):
        return f'?{self.name}'


def enc(t):
    if isinstance(t, V):
        return {'v': t.name}
    if isinstance(t, tuple):
        return [t[0]] + [enc(a) for a in t[1:]]
    return t


def dec(j):
    if isinstance(j, dict):
        return V(j['v'])
    if isinstance(j, list):
        return (j[0],) + tuple(dec(a) for a in j[1:])
    return j


def is_t(t):
    return isinstance(t, tuple)


def tvars(t, acc=None):
    "Variables in order of first occurrence."
    if acc is None:
        acc = []
    if isinstance(t, V):
        if t not in acc:
            acc.append(t)
    elif isinstance(t, (tuple, list)):
        for a in (t[1:] if isinstance(t, tuple) else t):
            tvars(a, acc)
    return acc


def ground(t):
    return not tvars(t)


def subst(s, t):
    "Apply a triangular substitution (dict) fully."
    if isinstance(t, V):
        if t in s:
            return subst(s, s[t])
        return t
    if isinstance(t, tuple):
        return (t[0],) + tuple(subst(s, a) for a in t[1:])
    return t


def ceq(a, b):
    "Constants are equal as Python values (1 == 1.0 == True, as in the language)."
    return a == b


def walk(s, t):
    while isinstance(t, V) and t in s:
        t = s[t]
    return t


def occurs(s, v, t):
    t = walk(s, t)
    if isinstance(t, V):
        return t == v
    if isinstance(t, tuple):
        return any(occurs(s, v, a) for a in t[1:])
    return False


def unify(x, y, s):
    "Robinson unification with the occurs check; returns an extended dict or None."
    s = dict(s)
    return s if unify_in(x, y, s) else None


def unify_in(x, y, s):
    x = walk(s, x)
    y = walk(s, y)
    if isinstance(x, V) and isinstance(y, V) and x == y:
        return True
    if isinstance(x, V):
        if occurs(s, x, y):
            return False
        s[x] = y
        return True
    if isinstance(y, V):
        return unify_in(y, x, s)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x[0] != y[0] or len(x) != len(y):
            return False
        return all(unify_in(a, b, s) for a, b in zip(x[1:], y[1:]))
    if isinstance(x, tuple) or isinstance(y, tuple):
        return False
    return ceq(x, y)


def match(pattern, t, m=None):
    """One-way matching: is there m with m(pattern) == t, t's variables rigid?
    Returns the mapping or None.  (Variables of the two sides are unrelated.)"""
    m = {} if m is None else dict(m)
    return m if _match(pattern, t, m) else None


def _match(p, t, m):
    if isinstance(p, V):
        if p in m:
            return m[p] == t
        m[p] = t
        return True
    if isinstance(p, tuple):
        return (isinstance(t, tuple) and len(p) == len(t) and p[0] == t[0]
                and all(_match(a, b, m) for a, b in zip(p[1:], t[1:])))
    if isinstance(t, (tuple, V)):
        return False
    return ceq(p, t)


def covers(x, y):
    "Every instance of y is an instance of x."
    return match(x, y) is not None


def variant(x, y):
    return covers(x, y) and covers(y, x)


def rename(t, suffix):
    if isinstance(t, V):
        return V(t.name + suffix)
    if isinstance(t, tuple):
        return (t[0],) + tuple(rename(a, suffix) for a in t[1:])
    return t


def canon(t, m=None):
    if m is None:
        m = {}
    if isinstance(t, V):
        if t not in m:
            m[t] = V(f'_{len(m)}')
        return m[t]
    if isinstance(t, tuple):
        return (t[0],) + tuple(canon(a, m) for a in t[1:])
    return t


def unifiable_apart(x, y):
    return unify(rename(x, "'1"), rename(y, "'2"), {}) is not None


def lgg(x, y, m=None):
    "Plotkin's least general generalization."
    if m is None:
        m = {}
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and len(x) == len(y):
        return (x[0],) + tuple(lgg(a, b, m) for a, b in zip(x[1:], y[1:]))
    if not isinstance(x, (tuple, V)) and not isinstance(y, (tuple, V)) and x == y:
        return x
    k = (x, y)
    if k not in m:
        m[k] = V(f'G{len(m)}')
    return m[k]


def size(t):
    if isinstance(t, tuple):
        return 1 + sum(size(a) for a in t[1:])
    return 1


# ---------------------------------------------------------------------------
# bridge to the code under test

def to_dyna(t, env=None):
    "Build the code's own term objects; `env` maps variable names to Var."
    from dyna.term import Term, Var
    if env is None:
        env = {}
    if isinstance(t, V):
        if t.name not in env:
            env[t.name] = Var(t.name)
        return env[t.name]
    if isinstance(t, tuple):
        return Term(t[0], *[to_dyna(a, env) for a in t[1:]])
    return t


def from_dyna(x, names=None):
    """Read the code's term objects back, by walking their public structure.
    Distinct unbound variables get distinct names."""
    from dyna.term import Term, Var
    if names is None:
        names = {}
    while isinstance(x, Var) and x.is_bound():
        x = x.value
    if isinstance(x, Var):
        k = id(x)
        if k not in names:
            names[k] = (V(f'v{len(names)}'), x)     # keep x alive: ids are recycled
        return names[k][0]
    if isinstance(x, Term):
        fn = from_dyna(x.fargs[0], names)
        return (fn,) + tuple(from_dyna(a, names) for a in x.fargs[1:])
    if type(x).__name__ == 'lam':        # a quoted pattern ($not_matches)
        return ('$lam', quote(from_dyna(x.x, {})))
    if isinstance(x, (tuple, list)):
        return ('$tuple',) + tuple(from_dyna(a, names) for a in x)
    return x


def quote(t):
    "A pattern whose variables are its own: they are no variables of the rule around it."
    if isinstance(t, V):
        return ('$qv', t.name)
    if isinstance(t, tuple):
        return (t[0],) + tuple(quote(a) for a in t[1:])
    return t


def unquote(t):
    if isinstance(t, tuple):
        if t[0] == '$qv' and len(t) == 2:
            return V('~' + t[1])
        return (t[0],) + tuple(unquote(a) for a in t[1:])
    return t


def from_rule(r, names=None):
    if names is None:
        names = {}
    return (from_dyna(r.head, names), tuple(from_dyna(b, names) for b in r.body))


def from_program(p):
    return [from_rule(r) for r in p.rules]


# ---------------------------------------------------------------------------
# concrete syntax (a minimal printer of our own: prefix terms, parenthesised infix)

INFIX = {'<', '>', '<=', '>=', '==', '!=', '=', 'is', '+', '-', '*', '/'}


def text(t):
    if isinstance(t, V):
        return t.name
    if isinstance(t, tuple):
        f = t[0]
        if f == '$cons' and len(t) == 3:
            return f'[{text(t[1])}|{text(t[2])}]'
        if f == '$nil' and len(t) == 1:
            return '[]'
        if f in INFIX and len(t) == 3:
            return f'({text(t[1])} {f} {text(t[2])})'
        if f in ('-', '+') and len(t) == 2:
            return f'({f} {text(t[1])})'
        if len(t) == 1:
            return f
        return f + '(' + ', '.join(text(a) for a in t[1:]) + ')'
    if isinstance(t, bool):
        return 'true' if t else 'false'
    if isinstance(t, str):
        return '"' + t + '"'
    return repr(t)


def rule_text(head, body):
    if not body:
        return text(head) + '.'
    return f'{text(head)} += ' + ' * '.join(text(b) for b in body) + '.'
