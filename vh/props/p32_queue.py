"""The bucket priority queue behaves as a priority map."""
from hypothesis import strategies as st

from ..core import Check, Info, require
from .. import gen

PROPERTY = 'P32'
RULE = ('Random histories of assignments (new keys, re-prioritised keys, equal-but-distinct keys, negative and large priorities), deletions, pops, membership tests, draining loops abandoned early and '
        'loops during which the queue is edited, against a dictionary. Non-trivial: some key was re-prioritised or deleted while another was queued, and at least two keys were removed by priority.')


class Key:
    "Compares by value, not identity; hashes collide."
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Key) and self.x == other.x

    def __hash__(self):
        return self.x % 3

    def __repr__(self):
        return f'k{self.x}'


def run(case):
    from dyna.util.bucket_queue import BucketQueue
    Q, D, trace = BucketQueue(), {}, []
    moved = took = 0

    def check():
        require(len(Q) == len(D), f'{trace}: length {len(Q)}, should hold {D}')
        require(bool(Q) == bool(D), f'{trace}: truth value')
        for x in range(6):
            k = Key(x)
            require((k in Q) == (k in D), f'{trace}: membership of {k}; should hold {D}')
            if k in D:
                require(Q[k] == D[k], f'{trace}: priority of {k} is {Q[k]}; should hold {D}')
            else:
                try:
                    Q[k]
                    require(False, f'{trace}: {k} is absent but has a priority')
                except KeyError:
                    pass

    def took_out(k, p=None):
        nonlocal took
        took += 1
        require(k in D, f'{trace}: took out {k}; should hold {D}')
        require(D[k] == min(D.values()), f'{trace}: took out {k} with priority {D[k]}; should hold {D}')
        require(p is None or p == D[k], f'{trace}: took out {k} with priority {p}, should be {D[k]}')
        del D[k]

    def edit(op):
        nonlocal moved
        if op[0] == 'set':
            moved += Key(op[1]) in D and len(D) > 1
            Q[Key(op[1])] = op[2]
            D[Key(op[1])] = op[2]
        elif op[0] == 'del':
            k = Key(op[1])
            if k in D:
                moved += len(D) > 1
                del Q[k], D[k]
            else:
                try:
                    del Q[k]
                    require(False, f'{trace}: deleted the absent key {k}')
                except KeyError:
                    pass

    for op in case['ops']:
        trace.append(op)
        if op[0] in ('set', 'del'):
            edit(op)
        elif op[0] == 'pop':
            if D:
                took_out(*Q.popitem())
        elif op[0] in ('iter', 'items'):
            _, n, edits = op
            it = iter(Q) if op[0] == 'iter' else Q.items()
            edits = list(edits)
            ended = True
            for r in it:
                took_out(*(r if op[0] == 'items' else (r,)))
                if len(Q) != len(D):
                    check()
                n -= 1
                if edits:
                    edit(edits.pop(0))
                check()
                if n <= 0:
                    ended = False
                    break
            require(not ended or not D, f'{trace}: the loop ended early; should hold {D}')
        check()
    while D:
        took_out(*Q.popitem())
        check()
    return Info(moved and took > 1, [op[0] for op in case['ops'][:1]])


K = st.integers(0, 5)
PR = gen.weighted((3, st.integers(0, 4)), (2, st.integers(-5, 12)), (1, st.sampled_from([-300, 300, 40])))
SET = st.tuples(st.just('set'), K, PR).map(list)
DEL = st.tuples(st.just('del'), K).map(list)
LOOP = st.tuples(st.sampled_from(['iter', 'items']), st.integers(1, 8), st.lists(gen.weighted((3, SET), (1, DEL)), max_size=6)).map(list)
OPS = gen.weighted((6, SET), (2, DEL), (3, st.just(['pop'])), (2, LOOP))
CHECKS = [Check('history', st.lists(OPS, min_size=2, max_size=30).map(lambda ops: {'ops': ops}), run, quick=6000)]
