"""Setup: nothing to build ahead of time (every check rebuilds what it needs
from /repo's current tree); only make sure the tools are there."""
import shutil
import sys

for tool in ('g++', 'bash'):
    if not shutil.which(tool):
        sys.exit('missing tool: ' + tool)
import Cython      # noqa
import gurobipy    # noqa
import numpy       # noqa
print('ok', sys.version.split()[0], numpy.__version__)
