"""C07: the native violation kernel computes the exact Song bounds."""
import random
from fractions import Fraction

import numpy as np

import gen
from hooks import quiet

RULE = ('A case is one set of arrays (shape, family of values and degenerate '
        'features from the seed) on which every entry of the kernel is '
        'compared with an exact rational-arithmetic greedy and with the '
        'Python reference. Non-trivial: some entry is strictly below the '
        'all-ones violation.')
NEED = {'entries_checked': 20000, 'tightened': 2000, 'ties': 200,
        'zero_weights': 500, 'zero_capacity': 50}


def cases(tier, seed):
    rng = random.Random(seed * 31 + 7)
    n = 700 if tier == 'quick' else 8000
    return [dict(seed=rng.randrange(10**8)) for _ in range(n)]


def data(seed):
    rng = random.Random(seed)
    rs = np.random.RandomState(seed % 2**31)
    k = rng.choice([1, 2, 2, 3, 4, 6, 8])
    m = rng.choice([1, 1, 2, 3, 5])
    n = rng.choice([1, 2, 3, 5, 8, 12, 17, 24, 40])
    if k * m * n > 600:
        k = 3
    u = rng.random()
    if u < 0.12:
        k, m, n = 2, rng.choice([1, 2, 3]), rng.randint(60, 320)
    elif u < 0.18:
        k, m, n = rng.randint(12, 40), 1, rng.randint(1, 6)
    elif u < 0.22:
        k, m, n = 2, rng.randint(8, 24), rng.randint(2, 8)
    kind = rng.choice(['family', 'family', 'int', 'ties', 'float', 'tiny',
                       'equal', 'wide'])
    if kind == 'family':
        A, b, _ = gen.FAMILIES[rng.choice(sorted(gen.FAMILIES))](rs, n, m, k)
        A, b = np.round(A, 1), np.tile(np.round(b, 1), (k, 1))
    elif kind == 'int':
        A = rs.randint(0, 6, size=(k, m, n)).astype(float)
        b = rs.randint(0, 2 * n + 2, size=(k, m)).astype(float)
    elif kind == 'ties':
        base = rs.randint(1, 5, size=n) / 2.0
        A = base[None, None, :] * rs.randint(1, 4, size=(k, m, 1))
        b = rs.randint(1, 3 * n, size=(k, m)).astype(float)
    elif kind == 'float':
        A = rs.rand(k, m, n) * 10
        b = A.sum(axis=2) * rs.rand(k, m)
    elif kind == 'tiny':
        A = np.round(rs.rand(k, m, n), 1) * 0.5
        b = np.round(rs.rand(k, m) * n / 4, 1)
    elif kind == 'equal':
        A = np.full((k, m, n), 2.5)
        b = np.round(rs.rand(k, m) * 2.5 * n, 1)
    else:
        A = 10.0 ** rs.randint(-1, 5, size=(k, m, n))
        b = np.round(A.sum(axis=2) * rs.rand(k, m), 1)
    if rng.random() < 0.4:
        A[rs.rand(k, m, n) < rng.choice([0.1, 0.4, 0.8])] = 0.0
    if rng.random() < 0.2:
        A[:, :, rs.randint(0, n)] = 0.0
    if rng.random() < 0.2:
        A[rs.randint(0, k)] = 0.0
    if rng.random() < 0.2 and k > 1:
        A[0] = A[-1]
    if rng.random() < 0.2:
        b[rs.randint(0, k), rs.randint(0, m)] = 0.0
    if rng.random() < 0.15:
        b[:] = A.sum(axis=2) + 1.0
    return np.ascontiguousarray(A), np.ascontiguousarray(b), kind


def greedy(p, r, w, cap):
    """max p.x - r over the unit box with w.x <= cap (floats, exact order)."""
    total = -r + float(p[w == 0].sum())
    idx = [j for j in range(len(p)) if w[j] > 0 and p[j] > 0]
    idx.sort(key=lambda j: Fraction(float(p[j])) / Fraction(float(w[j])),
             reverse=True)
    left = cap
    for j in idx:
        if left <= 0:
            break
        q = min(1.0, left / w[j])
        total += p[j] * q
        left -= w[j] * q
    return total


def run(case, rec):
    from violations import compute_all_violations
    from src import song_big_m
    A, b, kind = data(case['seed'])
    k, m, n = A.shape
    A0, b0 = A.copy(), b.copy()
    V = np.asarray(compute_all_violations(A, b))
    ctx0 = dict(shape=[k, m, n], kind=kind)
    rec.state(k, m, n, kind)
    if not (np.array_equal(A, A0) and np.array_equal(b, b0)):
        rec.fail('kernel changed its inputs', **ctx0)
    if V.shape != (k, k, m):
        rec.fail('kernel result has the wrong shape', got=V.shape, **ctx0)
        return
    V2 = np.asarray(compute_all_violations(A, b))
    if not np.array_equal(V, V2):
        rec.fail('kernel gives another result when called again', **ctx0)
    naive = A.sum(axis=2) - b
    with quiet():
        P = song_big_m.compute_all_violations(A, b)
    rec.event('zero_weights', int((A == 0).sum()))
    rec.event('zero_capacity', int((b == 0).sum()))
    pairs = [(s, t, i) for s in range(k) for t in range(k) for i in range(m)]
    if len(pairs) > 150:
        pairs = random.Random(case['seed']).sample(pairs, 150)
    for s, t, i in pairs:
        rec.event('entries_checked')
        ref = min(greedy(A[s, i], b[s, i], A[t, l], b[t, l])
                  for l in range(m))
        if any(len(set(np.round(A[s, i][A[t, l] > 0]
                                / A[t, l][A[t, l] > 0], 9))) <
               (A[t, l] > 0).sum() for l in range(m)):
            rec.event('ties')
        tol = 3e-6 * (1 + A[s, i].sum() + abs(b[s, i]))
        ctx = dict(s=s, t=t, i=i, got=V[s, t, i], reference=ref,
                   python=P[s, t, i], A=A if A.size < 200 else None,
                   b=b if A.size < 200 else None, **ctx0)
        if not np.isfinite(V[s, t, i]):
            rec.fail('kernel entry is not finite', **ctx)
        elif s == t:
            if V[s, t, i] < ref - tol or V[s, t, i] > tol:
                rec.fail('diagonal entry invalid', **ctx)
        else:
            if V[s, t, i] < ref - tol:
                rec.fail('kernel entry below the true violation', **ctx)
            elif V[s, t, i] > ref + tol:
                rec.fail('kernel entry above the true violation', **ctx)
        if abs(P[s, t, i] - ref) > tol:
            rec.fail('Python reference differs from the true violation',
                     **ctx)
        if ref < naive[s, i] - 1e-6:
            rec.event('tightened')
            rec.nontrivial = True
    rec.sample = dict(kind=kind, shape=[k, m, n], first=V[0, -1].tolist())
