"""Build what the checks need from /repo's current tree, out of tree.

The native extension (violations.pyx + violations.h) is compiled into a
scratch directory that is put ahead of the repository on sys.path, so a check
always runs the code that is in /repo now and never writes into it."""
import atexit
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('MON_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class BuildError(Exception):
    pass


def scratch(prefix='mon-'):
    d = tempfile.mkdtemp(prefix=prefix)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(clean)
    return d


def build_native(where, sanitize=False, extra=()):
    """Compile the native kernel of the current tree into `where`."""
    for f in ('violations.pyx', 'violations.h'):
        shutil.copy(os.path.join(REPO, f), where)
    # other headers or sources that a change may have added next to them
    for f in os.listdir(REPO):
        if f.endswith(('.h', '.hpp', '.pxd', '.pxi')):
            shutil.copy(os.path.join(REPO, f), where)
    r = subprocess.run([PY, '-m', 'cython', '--cplus', '-3',
                        'violations.pyx', '-o', 'violations.cpp'],
                       cwd=where, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    so = 'violations' + sysconfig.get_config_var('EXT_SUFFIX')
    flags = ['-O1']
    if sanitize:
        flags = ['-O1', '-g', '-fno-omit-frame-pointer',
                 '-fsanitize=address,undefined',
                 '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
                 '-D_GLIBCXX_DEBUG']
    r = subprocess.run(['g++', '-std=c++17', '-shared', '-fPIC', '-w'] + flags
                       + list(extra)
                       + ['-I' + sysconfig.get_paths()['include'],
                          'violations.cpp', '-o', so],
                       cwd=where, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    return os.path.join(where, so)


def prepare(native=True):
    """Returns the scratch directory; afterwards `import src...` works."""
    d = scratch()
    if native:
        build_native(d)
    sys.path.insert(0, REPO)
    sys.path.insert(0, d)
    return d
