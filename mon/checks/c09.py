"""C09: feasibility checks classify every point and scenario correctly."""
import random
from fractions import Fraction

import numpy as np

import adaptive
import gen
from hooks import quiet

RULE = ('A case is one generated instance and a sequence of points checked on '
        'one instance object (random, binary, scaled onto a constraint with a '
        'signed offset from 1e-9 to 1, and points with an exact number of '
        'violated scenarios); each answer is compared with exact rational '
        'arithmetic. Non-trivial: points with exactly the tolerated number '
        'and with one more violated scenario were both seen, or a boundary '
        'point was judged.')
NEED = {'points': 3000, 'boundary_points': 500, 'exactly_tolerated': 60,
        'one_too_many': 60, 'awkward_epsilon': 100}
ASSUMPTIONS = ['offsets between 1e-7 and 1e-5 around the numerical tolerance '
               '(1e-6) are not judged', 'epsilon with at most four decimals']
LOW, HIGH = 1e-7, 1e-5


def cases(tier, seed):
    n = 500 if tier == 'quick' else 8000
    rng = random.Random(seed * 1009 + 9)
    awk = gen.awkward_pairs(100)
    out = []
    for _ in range(n):
        kw = dict(nmax=8, Nmax=18, mmax=4)
        u = rng.random()
        if u < 0.3:
            e, N = awk[rng.randrange(len(awk))]
            kw.update(eps=e, N=N, awk=True)
        elif u < 0.5:
            kw.update(eps_mode='hund', Nmax=60)
        out.append(dict(seed=rng.randrange(10**8), kw=kw))
    # many scenarios, items or constraints
    for i in range(n // 12):
        kw = [dict(N=rng.randint(100, 400), nmax=6, mmax=3),
              dict(n=rng.randint(30, 120), Nmax=20, mmax=3),
              dict(m=rng.randint(8, 30), Nmax=20, nmax=8)][i % 3]
        out.append(dict(seed=rng.randrange(10**8), kw=kw))
    return out


def exact(inst, x):
    """Exact violations per scenario: list of lists over constraints."""
    fx = [Fraction(float(v)) for v in x]
    A10 = np.rint(inst.A * 10).astype(int)
    b10 = np.rint(inst.b * 10).astype(int)
    out = []
    for s in range(inst.N):
        out.append([(sum(int(a) * v for a, v in zip(A10[s, i], fx))
                     - int(b10[i])) / 10 for i in range(inst.m)])
    return out


class Judge:
    def __init__(self, inst, x):
        self.x = x
        V = exact(inst, x)
        self.bad, self.sure, self.size = [], True, []
        for s in range(inst.N):
            bad, worst = False, 0.0
            for i in range(inst.m):
                v = float(V[s][i])
                if LOW < v < HIGH:
                    self.sure = False
                if v > HIGH / 2:
                    bad = True
                    nr = float(np.linalg.norm(inst.A[s, i])) or 1.0
                    worst = max(worst, v / nr)
            self.bad.append(bad)
            self.size.append(worst)
        self.nbad = sum(self.bad)
        self.ok = self.nbad <= inst.k


def points(rng, inst):
    rs = np.random.RandomState(rng.randrange(2**31))
    n = inst.n
    kind = rng.choice(['rand', 'rand', 'bin', 'bound', 'bound', 'rank'])
    if kind == 'rand':
        return kind, rs.rand(n) * rng.choice([0.3, 0.7, 1.0])
    if kind == 'bin':
        return kind, (rs.rand(n) < rng.random()).astype(float)
    x0 = rs.rand(n)
    if kind == 'bound':
        s, i = rng.randrange(inst.N), rng.randrange(inst.m)
        a = inst.A[s, i] @ x0
        if a <= 1e-9:
            return 'rand', x0
        off = rng.choice([-1.0, -1e-3, -1e-5, -1e-8, 0.0, 2e-9, 1e-8, 5e-8,
                          2e-5, 1e-4, 5e-4, 1e-3, 1e-2, 0.3])
        return kind, x0 * ((inst.b[i] + off) / a)
    # the number of violated scenarios is the tolerated one, or one more
    with np.errstate(divide='ignore', invalid='ignore'):
        load = inst.A @ x0
        r = np.where(load > 1e-9, inst.b[None, :] / np.maximum(load, 1e-9),
                     1e9).min(axis=1)
    r = np.sort(r)
    want = inst.k + rng.choice([0, 1])
    lo = r[want - 1] if want > 0 else 0.0
    hi = r[want] if want < inst.N else lo + 1
    if hi - lo < 1e-4 or hi > 1e6:
        return 'rand', x0
    return kind, x0 * (lo + rng.choice([0.02, 0.5, 0.98]) * (hi - lo))


def compare(rec, inst, ci, j, ctx):
    """The public views after check_feasibility(j.x)."""
    got = [bool(v) for v in ci.is_scenario_infeasible]
    lst = [int(v) for v in ci.infeasible_scenarios]
    flag = [bool(v) for v in ci.get_feasible_scenarios()]
    size = [float(v) for v in ci.get_sum_infeasibility()]
    if got != j.bad:
        rec.fail('violated scenarios misclassified', got=got, want=j.bad,
                 **ctx)
    if lst != [s for s in range(inst.N) if got[s]]:
        rec.fail('list of violated scenarios disagrees with the flags',
                 got=lst, flags=got, **ctx)
    if flag != [not v for v in got]:
        rec.fail('satisfied flags disagree with the violated ones',
                 got=flag, flags=got, **ctx)
    if len(size) != inst.N or any(
            abs(a - b) > 1e-9 + 1e-7 * b for a, b in zip(size, j.size)):
        rec.fail('reported violation is not the largest rescaled one',
                 got=size, want=j.size, **ctx)


def run(case, rec):
    kw = dict(case['kw'])
    awk = kw.pop('awk', False)
    inst = gen.make(case['seed'], **kw)
    rng = random.Random(case['seed'] + 5)
    ci = adaptive.load(inst)
    rec.state(inst.family, inst.N, inst.k, inst.m)
    last = None
    hit = set()
    buf = np.zeros(inst.n)
    if ci.get_nb_tolerated_scenarios() != inst.k if hasattr(
            ci, 'get_nb_tolerated_scenarios') else False:
        rec.fail('wrong number of tolerated scenarios', inst=inst.describe(),
                 got=ci.get_nb_tolerated_scenarios())
    for step in range(16):
        kind, x = points(rng, inst)
        j = Judge(inst, x)
        if not j.sure:
            rec.event('not_judged')
            continue
        rec.event('points')
        if awk:
            rec.event('awkward_epsilon')
        if kind == 'bound':
            rec.event('boundary_points')
            hit.add('b')
        if j.nbad == inst.k:
            rec.event('exactly_tolerated')
            hit.add(0)
        if j.nbad == inst.k + 1:
            rec.event('one_too_many')
            hit.add(1)
        rec.state(case['seed'], j.bad)
        ctx = dict(inst=inst.describe(), x=x.copy(), kind=kind, nbad=j.nbad)
        keep = x.copy()
        # (the caller may keep one array and write each point into it)
        if rng.random() < 0.5:
            buf[:] = x
            x = buf
            rec.event('points_in_a_reused_array')
        with quiet():
            if rng.random() < 0.5:
                ok = ci.check_feasibility(x)
                last = j
                if bool(ok) != j.ok:
                    rec.fail('point wrongly declared %sfeasible'
                             % ('' if ok else 'in'), **ctx)
            else:
                r = ci.is_feasible(x)
                if bool(r[0]) != j.ok:
                    rec.fail('point wrongly declared %sfeasible'
                             % ('' if r[0] else 'in'), **ctx)
                if int(r[1]) != j.nbad or int(r[2]) != inst.k:
                    rec.fail('wrong counts of violated or tolerated '
                             'scenarios', got=r[1:3], want=[j.nbad, inst.k],
                             **ctx)
                if [bool(v) for v in r[3]] != j.bad:
                    rec.fail('violated scenarios misclassified',
                             got=r[3], want=j.bad, **ctx)
        if not np.array_equal(keep, x):
            rec.fail('the checked point was modified', **ctx)
        if last is not None:
            rec.event('view_comparisons')
            compare(rec, inst, ci, last, dict(ctx, last=last.x))
    rec.nontrivial = {0, 1} <= hit or 'b' in hit
    rec.sample = dict(instance=inst.describe(), points=16,
                      seen=sorted(map(str, hit)))
