"""Exercises the sanitized native kernel; prints one line per case so that the
parent knows which case a sanitizer report belongs to.

usage: child_asan.py <native dir> <repo> <spec json>"""
import ctypes
import json
import os
import sys

where, repo, text = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
sys.path[0:1] = [where, here]
import numpy as np       # noqa: E402
import violations        # noqa: E402
from checks import c20   # noqa: E402

lib = ctypes.CDLL(violations.__file__)


def counter(name):
    try:
        return ctypes.c_long.in_dll(lib, name)
    except ValueError:
        return None


calls, triples = counter('mon_sort_calls'), counter('mon_sort_triples')
try:
    swo = ctypes.c_int.in_dll(lib, 'mon_swo')
except ValueError:
    swo = None


def out(*a):
    sys.stdout.write(json.dumps(a) + '\n')
    sys.stdout.flush()


for spec in json.loads(text):
    out('start', spec)
    if spec['kind'] == 'bad':
        A, b, what = c20.malformed(spec)
        try:
            violations.compute_all_violations(A, b)
            out('accepted', spec, what)
        except Exception as e:
            out('rejected', spec, type(e).__name__)
        continue
    A, b, exact = c20.arrays(spec)
    # the kernel's arrays are surrounded by canaries of their own
    pad = 16
    bufA = np.full(A.size + 2 * pad, np.pi)
    bufb = np.full(b.size + 2 * pad, np.pi)
    vA = bufA[pad:pad + A.size].reshape(A.shape)
    vb = bufb[pad:pad + b.size].reshape(b.shape)
    own = spec['seed'] % 2 == 0     # own exact-size allocations: redzones
    if own:
        vA, vb = A.copy(), b.copy()
    else:
        vA[...] = A
        vb[...] = b
    if swo is not None:
        swo.value = int(exact)
    V = np.asarray(violations.compute_all_violations(vA, vb))
    ok = V.shape == (A.shape[0], A.shape[0], A.shape[1])
    clean = np.array_equal(vA, A, equal_nan=True) and \
        np.array_equal(vb, b, equal_nan=True)
    if not own:
        clean = clean and (bufA[:pad] == np.pi).all() and \
            (bufA[pad + A.size:] == np.pi).all() and \
            (bufb[:pad] == np.pi).all() and \
            (bufb[pad + b.size:] == np.pi).all()
    out('done', spec, dict(ok=bool(ok), clean=bool(clean),
                           nan=int(np.isnan(V).sum()),
                           calls=calls.value if calls else -1,
                           triples=triples.value if triples else -1))
out('end')
