"""Instance generators: seeded, hostile families of chance-constrained
multi-dimensional knapsack instances, written in the repository's own CSV
format (exactly what its reader and its own instance generator use)."""
import csv
import os
import random
from fractions import Fraction

import numpy as np


class Inst:
    """A generated instance: data as the reader will see it (one decimal)."""

    def __init__(self, A, b, c, eps, family, cont, ident):
        self.A = np.ascontiguousarray(np.round(np.asarray(A, float), 1))
        self.b = np.round(np.asarray(b, float), 1)       # shape (m,)
        self.c = np.round(np.asarray(c, float), 1)
        self.eps = float(eps)
        self.family = family
        self.cont = bool(cont)
        self.ident = ident
        self.N, self.m, self.n = self.A.shape

    @property
    def k(self):
        """Number of scenarios that may be violated, in exact arithmetic on
        the decimal value of epsilon that the user typed."""
        return k_of(self.eps, self.N)

    def write(self, path):
        with open(path, 'w', newline='\n') as f:
            w = csv.writer(f, delimiter=',')
            w.writerow([self.n, self.m, self.N])
            w.writerow(self.c.tolist())
            for s in range(self.N):
                w.writerows(self.A[s].tolist())
            w.writerow(self.b.tolist())
        return path

    def describe(self):
        return dict(ident=self.ident, family=self.family, n=self.n, m=self.m,
                    N=self.N, eps=self.eps, k=self.k, continuous=self.cont)

    def dump(self):
        d = self.describe()
        d.update(A=self.A.tolist(), b=self.b.tolist(), c=self.c.tolist())
        return d

    @staticmethod
    def load(d):
        return Inst(d['A'], d['b'], d['c'], d['eps'], d['family'],
                    d['continuous'], d['ident'])


def k_of(eps, N):
    f = Fraction(repr(float(eps))) * N
    return f.numerator // f.denominator


# (N, eps) pairs whose binary floating product eps*N falls just below or just
# above the exact integer.
def pick_eps(rng, N, mode=None):
    mode = mode or rng.choice(['int', 'int', 'frac', 'small', 'big', 'hund'])
    if mode == 'int':        # eps*N is exactly an integer
        k = rng.randrange(0, max(1, min(N, 5)))
        e = Fraction(k, N)
        # keep a short decimal
        if (e * 1000).denominator == 1:
            return float(e)
        mode = 'frac'
    if mode == 'frac':
        k = rng.randrange(0, max(1, min(N - 1, 5)) if N > 1 else 1)
        return round((k + rng.choice([0.2, 0.5, 0.8])) / N, 4)
    if mode == 'small':
        return rng.choice([0.01, 0.05, 0.1])
    if mode == 'hund':
        return rng.randrange(1, 60) / 100.0
    return rng.choice([0.1, 0.2, 0.25, 0.3, 0.4, 0.5])


def awkward_pairs(limit_N=60):
    """(eps, N): eps a two-decimal number, eps*N an exact integer whose float
    product is below that integer."""
    out = []
    for N in range(2, limit_N + 1):
        for h in range(1, 100):
            if (h * N) % 100 == 0 and (h / 100.0) * N < (h * N) // 100:
                out.append((h / 100.0, N))
    return out


def orlib_like(rs, n, m, N, fail=True, tight=None):
    base = rs.randint(1, 60, size=(m, n)).astype(float)
    base[rs.rand(m, n) < 0.2] = 0.0
    p = np.clip(rs.exponential(0.1, size=n), 0, 1)
    alive = 1 - rs.binomial(1, p, size=(N, n)) if fail else np.ones((N, n))
    A = rs.normal(base, 0.1 * base, size=(N, m, n)) * alive[:, None, :]
    A[A < 0] = 0
    tight = rs.uniform(0.25, 0.7) if tight is None else tight
    b = np.maximum(np.round(base.sum(axis=1) * tight), 1)
    c = rs.randint(1, 200, size=n).astype(float)
    return A, b, c


def fam_orlib(rs, n, m, N):
    return orlib_like(rs, n, m, N)


def fam_nofail(rs, n, m, N):
    return orlib_like(rs, n, m, N, fail=False)


def fam_smallint(rs, n, m, N):
    A = rs.randint(0, 5, size=(N, m, n)).astype(float)
    b = rs.randint(1, 3 * n // 2 + 2, size=m).astype(float)
    c = rs.randint(1, 10, size=n).astype(float)
    return A, b, c


def fam_ties(rs, n, m, N):
    A = rs.choice([0.0, 1.0, 2.0], size=(N, m, n))
    b = np.full(m, float(max(1, n // 2)))
    c = np.ones(n) * rs.randint(1, 4)
    return A, b, c


def fam_dups(rs, n, m, N):
    A, b, c = orlib_like(rs, n, m, N)
    for s in range(1, N):
        if rs.rand() < 0.5:
            A[s] = A[rs.randint(0, s)]
    return A, b, c


def fam_sparse(rs, n, m, N):
    A, b, c = orlib_like(rs, n, m, N)
    A[rs.rand(N, m, n) < 0.6] = 0.0
    b = np.maximum(np.round(b * 0.5), 0.5)
    return A, b, c


def fam_spread(rs, n, m, N):
    """Scenarios of very different severity: cost quantiles far apart."""
    A, b, c = orlib_like(rs, n, m, N, fail=False)
    sev = rs.uniform(0.3, 3.0, size=N)
    return A * sev[:, None, None], b, c


def fam_decimals(rs, n, m, N):
    """Fractional coefficients with one decimal, tied profit/weight ratios."""
    base = rs.randint(1, 30, size=(m, n)) / 10.0
    mult = rs.choice([0.5, 1.0, 1.0, 2.0, 3.0], size=(N, m, 1))
    A = base[None, :, :] * mult
    b = rs.randint(5, 60, size=m) / 10.0
    c = rs.randint(1, 50, size=n) / 10.0
    return A, b, c


def fam_bigcoef(rs, n, m, N):
    A, b, c = orlib_like(rs, n, m, N)
    c = rs.randint(5000, 20000, size=n).astype(float) + rs.randint(0, 9, n)/10
    return A, b, c


def fam_orthog(rs, n, m, N):
    """Each scenario forbids a different group of items."""
    A = rs.randint(0, 3, size=(N, m, n)).astype(float)
    b = np.full(m, float(n))
    for s in range(N):
        j = rs.randint(0, n)
        A[s, rs.randint(0, m), j] = 3.0 * n
    c = rs.randint(1, 50, size=n).astype(float)
    return A, b, c


def fam_slack(rs, n, m, N):
    """Some scenarios or constraints never bind."""
    A, b, c = orlib_like(rs, n, m, N, tight=0.9)
    A[rs.rand(N) < 0.5] *= 0.4
    return A, b, c


def fam_fewhard(rs, n, m, N, h=None):
    """Only some scenarios bind, in layers of severity: relaxed solutions
    violate few scenarios, often concentrated in few subsets."""
    A = rs.randint(0, 4, size=(N, m, n)).astype(float)
    b = A.sum(axis=2).max(axis=0) + 1.0
    order = rs.permutation(N)
    h = rs.randint(2, max(3, N // 2) + 1) if h is None else min(h, N)
    for j, s in enumerate(order[:h]):
        r = rs.randint(0, m)
        items = rs.rand(n) < rs.choice([0.3, 0.6, 1.0])
        f = rs.choice([1.3, 1.6, 2.0, 3.0])
        if items.any():
            A[s, r, items] += np.round(f * b[r] / items.sum(), 1)
    c = rs.randint(5, 60, size=n).astype(float)
    return A, b, c


def fam_noisy(rs, n, m, N):
    """Scenarios without any common structure: long runs with many splits."""
    A = rs.gamma(1.0, 10.0, size=(N, m, n))
    b = np.round(A.sum(axis=2).mean(axis=0) * rs.uniform(.25, .6), 1)
    c = rs.randint(20, 60, size=n).astype(float)
    return A, b, c


def fam_close(rs, n, m, N):
    """Clusters of nearly identical scenarios: successive relaxed optima may
    be different but within 1e-5 of each other."""
    base = rs.uniform(1, 60, size=(m, n)) * 1000
    q = rs.randint(2, 6)
    centre = (rs.uniform(.4, 2, size=(q, 1, 1)) * base
              * rs.uniform(.7, 1.3, size=(q, m, n)))
    A = centre[rs.randint(0, q, size=N)] * (1 + 1e-5 * rs.rand(N, m, n))
    b = np.round(base.sum(1) * .45)
    c = rs.randint(1, 200, size=n).astype(float)
    return A, b, c


def fam_wide(rs, n, m, N):
    """Large coefficients, similar items, sometimes profits proportional to
    weights: many near-optimal points, hard tolerances."""
    lo = rs.choice([10, 100, 1000, 5000])
    base = rs.uniform(lo, lo * rs.choice([1.2, 2, 4]), size=(1, m, n))
    A = base * rs.uniform(rs.choice([.5, .8, .97]), 1.1, size=(N, m, n))
    A = A * (rs.rand(N, 1, n) > rs.choice([0, .1]))
    b = np.round(A.sum(axis=2).mean(axis=0) * rs.uniform(.3, .6), 1)
    if rs.rand() < .5:
        c = base[0].mean(axis=0) * rs.uniform(.98, 1.02, size=n)
    else:
        c = rs.uniform(lo, lo * 2, size=n)
    return A, b, c


FAMILIES = dict(wide=fam_wide, fewhard=fam_fewhard, noisy=fam_noisy,
                close=fam_close, orlib=fam_orlib, nofail=fam_nofail,
                smallint=fam_smallint,
                ties=fam_ties, dups=fam_dups, sparse=fam_sparse,
                spread=fam_spread, decimals=fam_decimals,
                bigcoef=fam_bigcoef, orthog=fam_orthog, slack=fam_slack)


def make(seed, cont=None, n=None, m=None, N=None, eps=None, family=None,
         nmax=9, Nmax=14, mmax=5, eps_mode=None):
    """Deterministic instance number `seed`."""
    rng = random.Random(seed * 7919 + 13)
    rs = np.random.RandomState((seed * 104729 + 7) % (2**32 - 1))
    family = family or rng.choice(sorted(FAMILIES))
    cont = rng.random() < 0.5 if cont is None else cont
    n = n or rng.randint(1 if rng.random() < 0.1 else 3, nmax)
    m = m or rng.randint(1, mmax)
    N = N or rng.randint(2 if rng.random() < 0.15 else 5, Nmax)
    if eps is None:
        eps = pick_eps(rng, N, eps_mode)
    eps = min(max(eps, 0.0), 0.99)
    if family == 'fewhard':
        # hardly more binding scenarios than tolerated ones
        A, b, c = fam_fewhard(rs, n, m, N, k_of(eps, N) + 1
                              + rs.randint(0, 6))
    else:
        A, b, c = FAMILIES[family](rs, n, m, N)
    return Inst(A, b, c, eps, family, cont, int(seed))
