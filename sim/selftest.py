"""setup_cmd: nothing to build (everything is Python, run from source); checks that the tools are there."""
import importlib, sys

for m in ('numpy', 'scipy', 'shapely', 'matplotlib', 'PIL'):
    importlib.import_module(m)
assert sys.version_info >= (3, 12), 'sys.monitoring and the f-strings of craterstats need Python 3.12'
from . import index
for c in index.CHECKS.values():
    importlib.import_module('sim.checks.' + c['mod'])
print('ok')
