"""Make the code under test and Hypothesis importable, without writing anything into /repo.

 * /repo/trunk goes first on sys.path, so SUAVE is always the working tree's.
 * SUAVE/version.py is generated by setup.py and git-ignored; when it is missing a stub module
   stands in for it.
 * Hypothesis lives in the tooling venv next to an incompatible numpy; a finder exposes only
   Hypothesis and its own dependencies from there.
"""
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
TRUNK = os.path.join(REPO, 'trunk')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_ALLOWED = ('hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector', '_hypothesis_pytestplugin',
            'sortedcontainers', 'attr', 'attrs')


class _HypothesisFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [_HYP])
        return None


def boot():
    if TRUNK not in sys.path[:1]:
        sys.path.insert(0, TRUNK)
    sys.meta_path.append(_HypothesisFinder())
    if not os.path.exists(os.path.join(TRUNK, 'SUAVE', 'version.py')):
        stub = types.ModuleType('SUAVE.version')
        stub.version = '0.0.0'
        stub.__version__ = '0.0.0'
        sys.modules['SUAVE.version'] = stub
    import warnings
    warnings.simplefilter('ignore')
    import SUAVE
    here = os.path.realpath(os.path.dirname(SUAVE.__file__))
    want = os.path.realpath(os.path.join(TRUNK, 'SUAVE'))
    if here != want:
        raise RuntimeError('SUAVE imported from %s, expected %s' % (here, want))
