"""C20: the native kernel is memory-safe and free of undefined behaviour."""
import json
import os
import random
import subprocess

import numpy as np

import boot

RULE = ('The kernel of the current tree is rebuilt with AddressSanitizer, '
        'UndefinedBehaviorSanitizer, _GLIBCXX_DEBUG assertions and an '
        'observer around its sorts, and called through its Python interface '
        'in child processes: a case is a batch of array shapes and value '
        'families (one-sized dimensions, ties, zeros, tiny and huge values), '
        'half in exact-size allocations, half between canaries; or a batch '
        'of malformed arrays; or repeated calls under a memory meter. '
        'Non-trivial: more than 16 items (the sort leaves its small-array '
        'path) or a checked ordering.')
# (sorts are observed while the kernel sorts with std::sort or stable_sort)
NEED = {'kernel_calls': 1500, 'malformed_rejected': 200,
        'memory_meter_runs': 4, 'huge_values': 100,
        'tiny_values': 100}
ASSUMPTIONS = ['matching shapes of A and b', 'finite nonnegative values up '
               'to 1e100; orderings are judged where products are exact',
               'gcc 13 sanitizers, x86-64']
NATIVE = True
WATCHDOG = 300
san = None
plain = None


def setup(w, tier, seed):
    global san, plain
    plain = w
    san = boot.scratch('mon-asan-')
    boot.build_native(san, sanitize=True, extra=[
        '-include', os.path.join(boot.VERIF, 'mon/native/mon_sort.h')])


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 59 + 20)
    out = []
    for _ in range(48 if q else 800):
        out.append(dict(kind='calls', specs=[
            dict(kind='call', seed=rng.randrange(10**8))
            for _ in range(60)]))
    for _ in range(6 if q else 60):
        out.append(dict(kind='calls', specs=[
            dict(kind='bad', seed=rng.randrange(10**8), which=i)
            for i in range(BAD)] * 3))
    for k, m, n, c in ((1, 1, 4000, 4000), (2, 3, 300, 3000),
                       (12, 4, 5, 3000), (3, 1, 1, 60000)):
        out.append(dict(kind='leak', k=k, m=m, n=n, calls=c))
    return out


def arrays(spec):
    """(A, b, exact products?)"""
    rng = random.Random(spec['seed'])
    rs = np.random.RandomState(spec['seed'] % 2**31)
    k = rng.choice([1, 1, 2, 2, 3, 5, 7])
    m = rng.choice([1, 1, 2, 3, 6])
    n = rng.choice([1, 2, 3, 4, 7, 12, 14, 16, 17, 31, 33, 64, 130])
    if k * k * m * m * n > 20000:
        k = 2
    kind = rng.choice(['int', 'int', 'ties', 'equal', 'zero', 'tenth',
                       'float', 'tiny', 'huge', 'mixed', 'sorted', 'near'])
    exact = False
    if kind == 'int':
        A = rs.randint(0, rng.choice([2, 4, 50, 10000]),
                       (k, m, n)).astype(float)
        exact = True
    elif kind == 'ties':
        A = (rs.randint(0, 4, n)[None, None, :]
             * rs.randint(0, 4, (k, m, 1))).astype(float)
        exact = True
    elif kind == 'equal':
        A = np.full((k, m, n), float(rng.choice([0, 1, 3])))
        exact = True
    elif kind == 'zero':
        A = rs.randint(1, 5, (k, m, n)).astype(float)
        A[rs.rand(k, m, n) < 0.8] = 0.0
        exact = True
    elif kind == 'tenth':
        A = np.round(rs.rand(k, m, n) * 9, 1)
    elif kind == 'float':
        A = rs.rand(k, m, n) * 100
    elif kind == 'tiny':
        A = 10.0 ** rs.uniform(-320, -3, (k, m, n))
    elif kind == 'huge':
        A = 10.0 ** rs.uniform(50, 100, (k, m, n))
    elif kind == 'near':
        # ratios that agree to six digits or more without being equal
        A = rs.randint(5000, 5030, n)[None, None, :] \
            + rs.randint(0, 4, (k, m, 1)).astype(float)
        exact = True
    elif kind == 'mixed':
        A = 10.0 ** rs.uniform(-30, 30, (k, m, n))
        A[rs.rand(k, m, n) < 0.3] = 0.0
    else:
        A = np.sort(rs.randint(0, 90, (k, m, n)), axis=2).astype(float)
        exact = True
        if rng.random() < 0.5:
            A = A[:, :, ::-1]
    b = A.sum(axis=2) * rs.uniform(0, 1.3, (k, m))
    if rng.random() < 0.3:
        b = np.round(b)
    if rng.random() < 0.2:
        b[rs.randint(0, k), rs.randint(0, m)] = 0.0
    if not np.isfinite(b).all():
        b = np.full((k, m), 1e100)
    spec['shape'] = [k, m, n]
    spec['family'] = kind
    return np.ascontiguousarray(A), np.ascontiguousarray(b), exact


BAD = 16


def malformed(spec):
    k, m, n = 3, 2, 4
    A = np.arange(k * m * n, dtype=float).reshape(k, m, n)
    b = np.ones((k, m))
    w = spec['which'] % BAD
    return [
        (np.asfortranarray(A), b, 'column-major A'),
        (A[:, :, ::2], b, 'strided A'),
        (A.astype(np.float32), b, 'single-precision A'),
        (A.astype(int), b, 'integer A'),
        (A[0], b, 'two-dimensional A'),
        (A[None], b, 'four-dimensional A'),
        (A, b[0], 'one-dimensional b'),
        (A, b.astype(int), 'integer b'),
        (A, np.asfortranarray(np.ones((k, m))), 'column-major b'),
        (None, b, 'no A'),
        (A, None, 'no b'),
        (A.tolist(), b, 'list A'),
        (A.astype('>f8'), b, 'foreign byte order'),
        (A.astype(complex), b, 'complex A'),
        (np.zeros((0, m, n)), np.zeros((0, m)), 'no scenario'),
        (np.zeros((k, m, 0)), b, 'no item'),
    ][w]


def run(case, rec):
    if case['kind'] == 'leak':
        r = subprocess.run(
            [boot.PY, '-B', os.path.join(boot.VERIF, 'mon/child_leak.py'),
             plain] + [str(case[q]) for q in ('k', 'm', 'n', 'calls')],
            capture_output=True, text=True, timeout=250)
        rec.event('memory_meter_runs')
        g = [q for q in r.stdout.split('\n') if q.startswith('GROWTH')]
        if not g:
            if r.returncode < 0:
                rec.fail('kernel kills its process', signal=-r.returncode)
            else:
                rec.unsure('memory meter failed: ' + r.stderr[-200:])
            return
        grow = int(g[0].split()[1])
        # one leaked index array per call would show
        limit = max(1 << 20, 2 * case['n'] * case['calls'])
        rec.state('leak', case['n'], case['calls'])
        rec.sample = dict(case, growth=grow)
        if grow > limit:
            rec.fail('memory grows with every call', growth=grow,
                     calls=case['calls'], n=case['n'])
        return
    pre = ':'.join(subprocess.run(
        ['gcc', '-print-file-name=' + q], capture_output=True,
        text=True).stdout.strip() for q in ('libasan.so', 'libstdc++.so'))
    env = dict(os.environ, LD_PRELOAD=pre, PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:'
               'detect_stack_use_after_return=1:exitcode=77',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    r = subprocess.run(
        [boot.PY, '-B', os.path.join(boot.VERIF, 'mon/child_asan.py'), san,
         boot.REPO, json.dumps(case['specs'])], capture_output=True,
        text=True, env=env, timeout=280)
    lines = []
    for q in r.stdout.splitlines():
        try:
            lines.append(json.loads(q))
        except ValueError:
            pass
    started = [q for q in lines if q[0] == 'start']
    last = started[-1][1] if started else None
    calls = triples = 0
    for q in lines:
        if q[0] == 'done':
            sp, res = q[1], q[2]
            rec.event('kernel_calls')
            calls, triples = res['calls'], res['triples']
            fam, n = sp['family'], sp['shape'][2]
            if n > 16:
                rec.event('large_sorts')
                rec.nontrivial = True
            if fam == 'huge':
                rec.event('huge_values')
            if fam == 'tiny':
                rec.event('tiny_values')
            rec.state(fam, sp['shape'])
            if not res['ok']:
                rec.fail('kernel result has the wrong shape', spec=sp)
            if not res['clean']:
                rec.fail('kernel writes into its inputs or beside them',
                         spec=sp)
            if res['nan']:
                rec.fail('kernel produces not-a-number from finite data',
                         spec=sp)
        elif q[0] == 'rejected':
            rec.event('malformed_rejected')
            rec.nontrivial = True
        elif q[0] == 'accepted':
            rec.fail('malformed array accepted: %s' % q[2], spec=q[1])
    rec.event('sorts_observed', max(calls, 0))
    rec.event('orderings_checked', max(triples, 0))
    if not lines or lines[-1][0] != 'end':
        err = r.stderr
        keys = ('ERROR: AddressSanitizer', 'runtime error', 'MONITOR:',
                'Assertion', 'Error: attempt', 'In function')
        hit = [q for q in err.splitlines() if any(k in q for k in keys)]
        if hit or r.returncode < 0:
            rec.fail('sanitizer report in the native kernel', spec=last,
                     report=hit[:4], code=r.returncode,
                     where=[q.strip() for q in err.splitlines()
                            if 'violations' in q][:4])
        else:
            rec.unsure('sanitized child failed (%s): %s'
                       % (r.returncode, err[-300:]))
    rec.sample = dict(first=case['specs'][0], calls=len(case['specs']),
                      sorts=calls)
