"""Process start-up: locate the code under verification, make the solver importable."""
import os, sys, types
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def setup(solver=True):
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if solver and VT not in sys.path:
        sys.path.append(VT)   # only for z3; appended, so the project's own environment wins
    if 'absl' not in sys.modules:
        try:
            import absl.logging  # noqa
        except ImportError:
            m = types.ModuleType('absl')
            m.logging = __import__('logging')
            sys.modules['absl'] = m
            sys.modules['absl.logging'] = m.logging
    import warnings
    warnings.filterwarnings('ignore')


def check_import():
    import bartz
    p = os.path.realpath(bartz.__file__)
    assert p == os.path.realpath(os.path.join(SRC, 'bartz', '__init__.py')), p
