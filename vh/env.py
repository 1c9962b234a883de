"""Paths and process settings shared by every check.

Hypothesis is not installed next to the code under test; it comes from the
read-only tool environment.  Only the *end* of sys.path gets that directory, so
nothing the repository imports is shadowed.
"""
import os
import sys

REPO = os.environ.get('VH_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['CI'] = 'true'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    sys.setrecursionlimit(6000)
    import dyna
    got = os.path.dirname(os.path.abspath(dyna.__file__))
    assert got == os.path.join(REPO, 'dyna'), f'code under test is {got}'
