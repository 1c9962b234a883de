"""Printing and parsing agree, and parsing follows the grammar."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from ..gen import weighted

PROPERTY = 'P04'
RULE = ('Random syntax trees over the whole concrete syntax (operators at every level, chained comparisons, lists, strings with escapes, quoted and keyword functors, signed numbers, repeated and '
        'anonymous variables) are (a) built as terms, rules and programs, printed by the code and read back, and (b) printed by an independent printer with minimal, redundant or full parentheses, random '
        'white space and comments, then read; the structure read must be the structure generated. Non-trivial: at least three nodes, with an operator, a quoted name, a string or a list.')

# (op, precedence, associativity) as stated by the operator table
BIN = {'|': (2, 'R'), ',': (1.1, 'L'), '^': (8, 'R'), '/': (7.5, 'L'), '//': (7.5, 'L'), '\\': (7.5, 'L'), '*': (7, 'L'), '@': (7.1, 'L'), '#': (7.2, 'L'),
       '+': (6, 'L'), '-': (6.5, 'L'), ':': (4.1, 'L'), '==': (4, 'N'), '!=': (4, 'N'), 'is': (3.9, 'R'), '<-': (3.9, 'R'), '<--': (3.9, 'R'), '-->': (3.9, 'R'),
       '~>': (3.9, 'R'), '->': (3.9, 'R'), '<~': (3.9, 'R'), '~': (3.9, 'R'), '::': (3.9, 'R'), '↦': (3.8, 'L'), '=>': (3.8, 'R'), '∈': (4, 'N'),
       '=/=': (4, 'N'), '&': (3, 'R'), '=': (1.5, 'N'), ';': (0, 'L'), '<': (5, 'N'), '>': (5, 'N'), '<=': (5, 'N'), '>=': (5, 'N')}
PRE = {'not': 9, '+': 9, '-': 9, '~': 9, '&': 9, '*': 9, '!': 9.1, '?': 9}
COMPARE = ('<', '>', '<=', '>=')
KEYWORDS = {'true', 'false', 'inf', 'not', 'is', 'for'}
PLAIN = ['a', 'b', 'f', 'foo', 'fooBar1', "x'", '$gen', 'αβ', 'island', 'nothing', 'infoo', 'e1', 'e12x', 'é' and 'r2', 'trueish', 'a_b']
QUOTED = ['A b', 'X', '_f', '1a', 'true', 'inf', 'not', 'is', 'for', 'false', 'a%b', 'a.b', '$$q', '++', '-', '+=', ':-', '.', ' ', 'f(x)', 'input: ', 'a"b', '☐', '∞', '!', '*', '?']
STRINGS = ['', 'a', 'a b', 'it\'s', 'say "hi"', '\'"', 'back\\slash', '\\', 'ends\\', '\\"', 'line\nbreak', 'tab\t', '50%', '% no comment', '. ', 'é∞', '\\n', '\\\\', '"', "X", '1', '\r', '\\t']
NAMES = ['X', 'Y', 'Z', "X'", 'Abc_1', '$X1', '$X', 'Ω', 'X1', '$$X1', 'Y2']

I = st.integers


@st.composite
def leaf(draw):
    k = draw(weighted((5, st.just('t')), (4, st.just('v')), (2, st.just('i')), (1, st.just('x')), (2, st.just('s')), (1, st.just('b')), (1, st.just('_')), (2, st.just('q')), (1, st.just('l')), (1, st.just('n'))))
    if k == 't':
        return ['t', draw(st.sampled_from(PLAIN))]
    if k == 'q':
        return ['t', draw(st.sampled_from(QUOTED))]
    if k == 'v':
        return ['v', draw(st.sampled_from(NAMES)), draw(I(0, 1) | I(0, 2))]
    if k == 'i':
        return ['i', draw(st.sampled_from([0, 1, 2, 10, -1, -3, 12345678901234567890]))]
    if k == 'x':
        return ['x', draw(st.sampled_from([0.5, 1.0, -2.5, 1e-7, 1e22, 3.25e300, float('inf'), 0.1]))]
    if k == 's':
        return ['s', draw(st.sampled_from(STRINGS) | st.text('ab"\'\\\n%.nt ', max_size=4))]
    if k == 'b':
        return ['b', draw(st.booleans())]
    if k == '_':
        return ['_']
    if k == 'l':
        return ['l', [], None]
    return ['t', draw(st.sampled_from(['*', '!', '?']))]


@st.composite
def node(draw, sub):
    k = draw(weighted((6, st.just('o')), (3, st.just('t')), (3, st.just('u')), (2, st.just('l')), (1, st.just('q')), (1, st.just('c'))))
    if k == 'c':
        n = draw(I(2, 3))
        return ['c', [draw(st.sampled_from(COMPARE)) for _ in range(n)], [draw(sub) for _ in range(n + 1)]]
    if k == 'o':
        return ['o', draw(st.sampled_from(sorted(BIN))), draw(sub), draw(sub)]
    if k == 'u':
        return ['u', draw(st.sampled_from(sorted(PRE))), draw(sub)]
    if k == 'l':
        xs = draw(st.lists(sub, min_size=1, max_size=3))
        return ['l', xs, draw(sub) if draw(I(0, 2)) == 0 else None]
    args = draw(st.lists(sub, min_size=1, max_size=3))
    return ['t', draw(st.sampled_from(PLAIN if k == 't' else QUOTED)), *args]


raw = st.recursive(leaf(), lambda s: node(s), max_leaves=8)
LADDER = sorted(BIN, key=lambda op: (BIN[op], op))


def narrowed(t, ops):
    "Map the operators of a tree to a few of neighbouring precedence."
    if not isinstance(t, list):
        return t
    if t[:1] == ['o']:
        return ['o', ops[LADDER.index(t[1]) % len(ops)], narrowed(t[2], ops), narrowed(t[3], ops)]
    return [narrowed(x, ops) for x in t]


tree = weighted((1, raw), (3, st.tuples(raw, I(0, len(LADDER) - 2), I(2, 3)).map(lambda c: narrowed(c[0], LADDER[c[1]:c[1] + c[2]]))))


def size(t):
    return 1 + sum(size(x) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], str)) + sum(size(y) for x in t[1:] if isinstance(x, list) and x and isinstance(x[0], list) for y in x)


def fancy(t):
    return t[0] in 'oulsc' or (t[0] == 't' and (t[1] in QUOTED or any(fancy(a) for a in t[2:])))


# -- structures -------------------------------------------------------------

def struct(t, env, ident=True):
    "The structure a tree denotes; variables numbered by first occurrence in env."
    k = t[0]
    if k == 'v':
        return ('V', env.setdefault((t[1], t[2] if ident else 0), len(env)))
    if k == '_':
        return ('V', env.setdefault(('_', len(env)), len(env)))
    if k in 'ixsb':
        return (type(t[1]).__name__, t[1])
    if k == 'u':
        return ('T', t[1], struct(t[2], env, ident))
    if k == 'o':
        return ('T', t[1], struct(t[2], env, ident), struct(t[3], env, ident))
    if k == 'c':
        return chain(t[1], [struct(x, env, ident) for x in t[2]], lambda *a: ('T', *a))
    if k == 'l':
        xs = [struct(x, env, ident) for x in t[1]]
        y = ('T', '$nil') if t[2] is None else struct(t[2], env, ident)
        for x in reversed(xs):
            y = ('T', '$cons', x, y)
        return y
    return ('T', str(t[1]), *(struct(x, env, ident) for x in t[2:]))


def chain(ops, xs, T):
    "a < b < c means a < b, b < c"
    y = None
    for i, op in enumerate(ops):
        z = T(op, xs[i], xs[i + 1])
        y = z if y is None else T(',', y, z)
    return y


def read(x, env):
    "The structure of a term of the code."
    from dyna import Term, Var
    from dyna.rule import Rule
    from dyna.term import snap
    x = snap(x)
    if isinstance(x, Var):
        return ('V', env.setdefault(id(x), len(env)))
    if isinstance(x, Rule):
        return ('R', read(x.head, env), *(read(b, env) for b in x.body))
    if isinstance(x, Term):
        fn = snap(x.fn)
        return ('T', str(fn) if isinstance(fn, str) else read(fn, env), *(read(a, env) for a in x.args))
    return (type(x).__name__, x)


def build(t, env):
    from dyna import Term, Var
    k = t[0]
    if k == 'v':
        key = (t[1], t[2])
        if key not in env:
            env[key] = Var(t[1])
        return env[key]
    if k == '_':
        return Var('X')
    if k in 'ixsb':
        return t[1]
    if k == 'c':
        return chain(t[1], [build(x, env) for x in t[2]], Term)
    if k == 'l':
        xs = [build(x, env) for x in t[1]]
        y = Term('$nil') if t[2] is None else build(t[2], env)
        for x in reversed(xs):
            y = Term('$cons', x, y)
        return y
    return Term(t[1], *(build(x, env) for x in t[2:]))


# -- the independent printer ---------------------------------------------------

class Style:
    "Choices of the printer, drawn from a list of small integers (cyclic)."

    def __init__(self, choices):
        self.c, self.i = choices or [0], 0

    def pick(self, n):
        self.i += 1
        return self.c[self.i % len(self.c)] % n


PAREN, LIST, ARG, TOP = 'paren', 'list', 'arg', 'top'
FLOOR = {TOP: -1, ARG: 1.1, LIST: 2}          # in a context, only operators binding tighter than this go bare


def name(fn, s):
    import re
    plain = re.fullmatch(r"[$]?[a-zα-ω]['a-zA-Z0-9_α-ωΑ-Ω]*", fn) and fn not in KEYWORDS
    if plain and "'" in fn:
        return fn
    if plain and s.pick(6):
        return fn
    return f"'{fn}'"


def string(x, s):
    out = ''
    for c in x:
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c, c)
    return f'"{out}"'


def number(t, s):
    x = t[1]
    return ('∞', 'inf')[s.pick(2)] if x == float('inf') else repr(x)


def tokens(t, s, ctx=TOP):
    "Tokens of a tree in a context; parentheses where needed, sometimes where not."
    body, p = bare(t, s)
    need = p is not None and p <= FLOOR[ctx]
    if need or (p is not None and s.pick(5) == 0) or s.pick(20) == 0:
        return ['(', *body, ')']
    return body


def operand(t, s, parent, side):
    "Operand of an operator of precedence parent (op, prec, assoc)."
    body, p = bare(t, s)
    op, prec, ass = parent
    ok = p is None or p > prec or (p == prec and t[0] == 'o' and BIN[t[1]] == (prec, ass) and ass == side)
    if op in PRE and side == 'U':
        ok = (p is None and t[0] not in 'ix') or (t[0] == 'u' and t[1] == op)
    if not ok or nullop(t) or s.pick(8) == 0:
        return ['(', *body, ')']
    return body


def nullop(t):
    return t[0] == 't' and len(t) == 2 and t[1] in ('*', '!', '?')


def bare(t, s):
    "(tokens, precedence of the outermost operator or None)"
    k = t[0]
    if k == 'v':
        return [t[1]], None
    if k == '_':
        return ['_'], None
    if k in 'ix':
        return [number(t, s)], None
    if k == 's':
        return [string(t[1], s)], None
    if k == 'b':
        return [str(t[1]).lower()], None
    if nullop(t):
        return [t[1]], None
    if k == 't':
        fn = name(t[1], s)
        if len(t) == 2:
            return [fn] + (['(', ')'] if s.pick(8) == 0 else []), None
        out = [fn, '(']
        for i, a in enumerate(t[2:]):
            out += ([','] if i else []) + tokens(a, s, ARG)
        return out + ([','] if s.pick(8) == 0 else []) + [')'], None
    if k == 'l':
        if t[2] is None and s.pick(5) == 0:      # the cells written out
            if not t[1]:
                return ["'$nil'" if s.pick(2) else '$nil'], None
        out = ['[']
        for i, a in enumerate(t[1]):
            out += ([','] if i else []) + tokens(a, s, LIST)
        if t[2] is not None:
            out += ['|'] + tokens(t[2], s, LIST)
        return out + [']'], None
    if k == 'u':
        return [t[1]] + operand(t[2], s, (t[1], PRE[t[1]], 'U'), 'U'), 9
    if k == 'c':
        out = operand(t[2][0], s, ('<', 5, 'N'), 'L')
        for op, x in zip(t[1], t[2][1:]):
            out = out + [op] + operand(x, s, ('<', 5, 'N'), 'R')
        return out, 5
    op = t[1]
    prec, ass = BIN[op]
    a = operand(t[2], s, (op, prec, ass), 'L')
    b = operand(t[3], s, (op, prec, ass), 'R')
    return a + [op] + b, prec


OPS = ('+', '-', '*', '/', '^', '==', '//', '<=', '@', ':', '=', '~>')
GAPS = [' ', ' ', ' ', '  ', '\n', '\t', ' % a comment. "x" \'\n', '\n%\n', '\r\n']


def spell(ts, s):
    out = ''
    for i, x in enumerate(ts):
        if i:
            prev = ts[i - 1]
            tight = x in '()[],|' or prev in '([,)|]'
            if {x, prev} & {'|'}:
                tight = False
            if (x in OPS and prev[-1:].isalnum()) or (prev in OPS and x[:1].isalnum()):
                tight = True
            out += '' if tight and s.pick(3) else GAPS[s.pick(len(GAPS))]
        out += x
    return out


# -- checks ----------------------------------------------------------------------

def bad(t):
    "Trees that the syntax has no way to write."
    if t[0] == 't':
        return any(bad(x) for x in t[2:]) or (t[1] in ('$nil', '$cons'))
    if t[0] == 'l':
        return t[2] is not None and (t[2][0] == 'l') and False
    return False


def run_print(t):
    from dyna import syntax
    from dyna.pretty import pp
    env = {}
    term = build(t, env)
    s = pp(term, color=False)
    try:
        back = syntax.term(s)
    except Exception as e:
        require(False, lambda: f'{t}\nprints as {s}\nwhich cannot be read: {e}')
    a, b = read(term, {}), read(back, {})
    require(a == b, lambda: f'{a}\nprints as {s}\nwhich reads as {b}')
    return Info(nontrivial=size(t) >= 3 and fancy(t), labels=[t[0]])


def run_parse(case):
    from dyna import syntax
    t, style = case
    t = flat_names(t)
    s = spell(tokens(t, Style(style)), Style(style[::-1]))
    try:
        back = syntax.term(s, freshen=bool(len(style) % 2))
    except Exception as e:
        require(False, lambda: f'{s}\ncannot be read: {type(e).__name__} {e}')
    a, b = struct(t, {}), read(back, {})
    require(a == b, lambda: f'{s}\nreads as {b}\nnot {a}')
    return Info(nontrivial=size(t) >= 3 and fancy(t), labels=[t[0]])


def flat_names(t):
    "Text cannot tell apart variables with the same name."
    if not isinstance(t, list):
        return t
    if t[:1] == ['v']:
        return ['v', t[1], 0]
    return [flat_names(x) for x in t]


# programs

def subgoal(t):
    "Top-level products and conjunctions are the rule's own structure, and a rule inside a rule is not a subgoal."
    return t[0] != 'c' and t[1:2] not in (['*'], [','])


def headable(t):
    return t[0] in 'touv' and not (t[0] == 't' and t[1] in ('+=', ':-')) and not (t[0] == 't' and len(t) == 2 and t[1] in ('*', '!', '?'))


sub = tree.filter(subgoal)
head = tree.filter(headable)
decl = tree.filter(lambda t: t[0] == 't' and not (t[1] in ('*', '!', '?') and len(t) == 2))


@st.composite
def program(draw):
    n = draw(I(0, 3))
    rules = [[draw(head), draw(st.lists(sub, max_size=3))] for _ in range(n)]
    return [rules, draw(st.lists(decl, max_size=2)), draw(st.lists(decl, max_size=2))]


@st.composite
def chained(draw):
    "A rule with chained comparisons among its subgoals."
    n = draw(I(2, 3))
    x = tree.filter(lambda t: '_' not in str(t))
    c = ['c', [draw(st.sampled_from(COMPARE)) for _ in range(n)], [draw(x) for _ in range(n + 1)]]
    body = draw(st.lists(sub, max_size=2))
    body.insert(draw(I(0, len(body))), c)
    return [[[draw(head), body]], [], []]


def parts_of(b):
    'The subgoals a body item stands for.'
    if b[0] == 'c':
        return [['o', op, b[2][i], b[2][i + 1]] for i, op in enumerate(b[1])]
    return [b]


def prog_struct(p):
    rules = [read(r, {}) for r in p.rules]
    return rules, [read(r.head, {}) for r in p.inputs or []], [read(r.head, {}) for r in p.outputs or []]


def run_program(case):
    from dyna import Program
    from dyna.rule import Rule
    rules, ins, outs = case

    def R(h, body=()):
        env = {}
        return Rule(build(h, env), *(build(b, env) for b in body))
    p = Program([R(h, b) for h, b in rules])
    if ins:
        p.set_input_types(Program([R(x) for x in ins]))
    if outs:
        p.set_output_types(Program([R(x) for x in outs]))
    s = p.plaintext()
    try:
        q = Program(s)
    except Exception as e:
        require(False, lambda: f'{prog_struct(p)}\nprints as\n{s}\nwhich cannot be read: {type(e).__name__} {e}')
    a, b = prog_struct(p), prog_struct(q)
    require(a == b, lambda: f'{a}\nprints as\n{s}\nwhich reads as\n{b}')
    require(q == p or not all(x[0] == 'T' for r in a[0] for x in r[2:]), lambda: f'{s}\nis not equal to the program it was printed from')
    s2 = p.__repr__(color=False, numbered=False, open_brace=None, close_brace=None)
    c = prog_struct(Program(s2))[0] if rules else []
    require(c == a[0], lambda: f'{a[0]}\nprints as\n{s2}\nwhich reads as\n{c}')
    return Info(nontrivial=bool(rules) and sum(size(h) + sum(map(size, b)) for h, b in rules) >= 4, labels=['io' if ins or outs else 'rules'])


@st.composite
def source(draw):
    return [draw(weighted((5, program()), (1, chained()))), draw(st.lists(I(0, 10 ** 6), min_size=3, max_size=12))]


def run_source(case):
    from dyna import Program
    (rules, ins, outs), style = case
    s = Style(style)
    parts, want = [], []
    for h, body in rules:
        h, body = flat_names(h), [flat_names(b) for b in body]
        th = operand(h, s, ('+=', 0, 'N'), 'L')
        if not body:
            parts.append(th)
            want.append((h, []))
            continue
        agg = '+=' if s.pick(3) else ':-'
        ts, order = [], body
        k = s.pick(len(body) * 3)
        if 0 < k < len(body):                  # value for condition
            order = body[k:] + body[:k]
        comma = s.pick(4) == 0 or any(b[0] == 'c' for b in body)
        for i, b in enumerate(body):
            if i:
                ts.append('for' if i == k else [',', '*'][not comma and s.pick(2)])
            ts += operand(b, s, (',', 1.1, 'L') if comma else ('*', 7, 'L'), 'N')
        parts.append(th + [agg] + ts)
        want.append((h, order))
    text = [(spell(x, s)) for x in parts]
    ins, outs = [flat_names(x) for x in ins], [flat_names(x) for x in outs]
    for kw, ds in ((['input:', 'inputs:', 'params:'][s.pick(3)], ins), (['output:', 'outputs:'][s.pick(2)], outs)):
        if ds:
            ts = []
            for i, d in enumerate(ds):
                ts += ([';'] if i else []) + operand(d, s, (';', 0, 'N'), 'N')
            text.insert(s.pick(len(text) + 1), kw + ' ' + spell(ts, s))
    src = ''
    for x in text:
        src += x + '.' + ['\n', ' ', '\n\n', ' % end\n', '\t'][s.pick(5)]
    if s.pick(2):
        src = src.rstrip() if '% end' not in src[-8:] else src
    try:
        p = Program(src)
    except Exception as e:
        require(False, lambda: f'{src}\ncannot be read: {type(e).__name__} {e}')

    def rs(h, body):
        env = {}
        return ('R', struct(h, env), *(struct(b, env) for b in body))
    want = [(h, [c for b in body for c in parts_of(b)]) for h, body in want]
    a = [rs(h, b) for h, b in want], [struct(x, {}) for x in ins], [struct(x, {}) for x in outs]
    b = prog_struct(p)
    require(a == b, lambda: f'{src}\nreads as\n{b}\nnot\n{a}')
    from dyna.term import term_vars
    seen = set()
    for r in p.rules:
        vs = {id(v) for v in term_vars(r)}
        require(not (vs & seen), lambda: f'{src}\ntwo rules share a variable')
        seen |= vs
    return Info(nontrivial=bool(rules) and sum(size(h) + sum(map(size, b)) for h, b in rules) >= 4, labels=['io' if ins or outs else 'rules'])


styles = st.lists(I(0, 10 ** 6), min_size=3, max_size=12)
CHECKS = [
    Check('print', tree.filter(lambda t: not bad(t)), run_print, quick=6000, thorough=150000),
    Check('parse', st.tuples(tree.filter(lambda t: not bad(t)), styles).map(list), run_parse, quick=6000, thorough=150000),
    Check('program', program(), run_program, quick=3000, thorough=60000),
    Check('source', source(), run_source, quick=3000, thorough=60000),
]
