"""C06: every big-M coefficient is valid, and tight where promised."""
import random

import numpy as np

import adaptive
import gen
import oracle
from checks.c08 import random_partition
from checks import runs
from hooks import quiet

RULE = ('Direct cases: one generated instance; naive, Belotti (several upper '
        'bounds) and Song coefficients for the scenarios and for random '
        'partitions, each compared with the exact maximum violation over the '
        'admissible points (enumeration for binary, LP/MIP for continuous). '
        'Run cases: the coefficients of each relaxed solve of adaptive runs. '
        'Non-trivial: some coefficient was tightened below the naive one.')
NEED = {'coefficients_checked': 5000, 'song_coefficients': 500,
        'belotti_coefficients': 500, 'partition_coefficients': 500,
        'tightened': 200, 'instances_of_many_scenarios': 15}


def cases(tier, seed):
    rng = random.Random(seed * 31 + 6)
    out = []
    awk = gen.awkward_pairs(100)
    for j in range(260 if tier == 'quick' else 3000):
        s = rng.randrange(10**8)
        u = rng.random()
        kw = dict(nmax=8, Nmax=9, mmax=3)
        if u < 0.2:
            N = rng.randint(2, 8)
            k = rng.randint(0, N - 1)
            kw = dict(N=N, eps=min(0.99, round((k + 0.05) / N, 4)), nmax=7,
                      mmax=3)
        elif u < 0.28:
            e, N = awk[rng.randrange(len(awk))]
            kw = dict(N=N, eps=e, nmax=6, mmax=2, cont=False)
        elif u < 0.5:
            kw = dict(cont=False, nmax=10, Nmax=16, mmax=4)
        out.append(dict(direct=True, seed=s, kw=kw))
    for j in range(20 if tier == 'quick' else 240):
        N = rng.choice([30, 50, 90])
        out.append(dict(direct=True, many=True, seed=rng.randrange(10**8),
                        kw=dict(cont=False, N=N, n=rng.randint(3, 8),
                                m=rng.randint(1, 2), eps=round(
                                    rng.choice([0, 1, 3, N // 4]) / N
                                    + 0.001, 4))))
    # single-row instances whose Belotti subproblem has many points within a
    # fraction of a percent of its optimum: the coefficient must be the exact
    # maximum, not the value of a near-optimal point
    for j in range(40 if tier == 'quick' else 400):
        out.append(dict(dense=True, seed=rng.randrange(10**8)))
    out += runs.make_cases(tier, seed, 6, 120, 1200, per=4, wide=False)
    return out


class Admissible:
    """max A_si x - b_i over the points of a relaxed problem."""

    def __init__(self, inst, truth, groups, k, cap):
        self.inst, self.k, self.groups, self.cap = inst, k, groups, cap
        if not inst.cont:
            sat = np.stack([truth.sat[:, list(g)].all(axis=1)
                            for g in groups], axis=1)
            ok = (~sat).sum(axis=1) <= k
            if cap is not None:
                ok &= truth.obj <= cap + 1e-9
            self.X = truth.X[ok]

    def max(self, s, i):
        inst = self.inst
        if not inst.cont:
            if len(self.X) == 0:
                return -np.inf
            return float((self.X @ inst.A[s, i]).max() - inst.b[i])
        return oracle.mip_groups(inst, self.groups, self.k,
                                 objective=inst.A[s, i],
                                 const=-inst.b[i], cap=self.cap)


def knap(inst, truth, s, i, cap):
    """Exact Belotti value: max A_si x - b_i s.t. c x <= cap."""
    if inst.cont:
        return oracle.lp(inst.A[s, i], [inst.c], [cap], inst.n)[0] - inst.b[i]
    ok = truth.obj <= cap + 1e-9
    return float((truth.X[ok] @ inst.A[s, i]).max() - inst.b[i])


def judge(rec, inst, truth, method, groups, M, cap, label, limit=None,
          rng=None):
    """M[c][j]: coefficient of constraint j of group c."""
    naive = inst.A.sum(axis=2) - inst.b[None, :]
    adm = Admissible(inst, truth, groups, inst.k, cap
                     if method == 'belotti' else None)
    jobs = [(c, j) for c, g in enumerate(groups)
            for j in range(len(g) * inst.m)]
    if limit and len(jobs) > limit:
        jobs = rng.sample(jobs, limit)
    for c, j in jobs:
        g = groups[c]
        s, i = g[j // inst.m], j % inst.m
        if len(M[c]) != len(g) * inst.m:
            rec.fail('wrong number of coefficients', label=label, group=c,
                     got=len(M[c]), inst=inst.describe(), groups=groups)
            return
        v = float(M[c][j])
        rec.event('coefficients_checked')
        rec.event(method + '_coefficients')
        if label != 'scenarios':
            rec.event('partition_coefficients')
        if v < naive[s, i] - 1e-6:
            rec.event('tightened')
            rec.nontrivial = True
        t = 2e-6 * (1 + abs(naive[s, i]) + inst.A[s, i].max())
        ctx = dict(method=method, where=label, scenario=s, constraint=i,
                   coefficient=v, naive=naive[s, i], cap=cap, groups=groups,
                   inst=inst.describe())
        if method == 'naive' and abs(v - naive[s, i]) > t:
            rec.fail('naive coefficient is not the violation at all ones',
                     **ctx)
        if v > max(naive[s, i], 0) + t:
            rec.fail('coefficient above the naive one', **ctx)
        if method == 'belotti':
            ref = knap(inst, truth, s, i, cap)
            if abs(v - ref) > t + 1e-5:
                rec.fail('Belotti coefficient is not the exact maximum',
                         reference=ref, **ctx)
        need = adm.max(s, i)
        if v < need - t - 1e-5:
            rec.fail('coefficient cuts off an admissible solution',
                     needed=need, **ctx)


def attained(rng, inst, opt):
    """An upper bound that some 0/1 point attains, as a sum of decimals."""
    best = float(opt)
    for _ in range(20):
        v = 0.0
        for w in rng.sample(list(inst.c), rng.randint(1, inst.n)):
            v += float(w)
        if v >= opt - 1e-9:
            best = v
            if v != round(v, 1):
                break
    return best


def direct(case, rec):
    from src.BigMFinder import BigMFinder
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], **case['kw'])
    t = oracle.truth(inst)
    ci = adaptive.load(inst)
    opt = t.opt()
    if case.get('many'):
        rec.event('instances_of_many_scenarios')
    single = [[s] for s in range(inst.N)]
    quant = sorted(t.scenario_costs())[inst.k]
    lim = 40 if inst.cont else 120
    with quiet():
        f = BigMFinder(ci)
        judge(rec, inst, t, 'naive', single,
              [f.get_vector_big_M(s) for s in range(inst.N)], None,
              'scenarios', lim, rng)
        for cap in {opt + 1e-6, quant + 1e-6, float(inst.c.sum()) * 1.1,
                    opt + rng.random() * (inst.c.sum() - opt) + 1e-6,
                    attained(rng, inst, opt)}:
            f = BigMFinder(ci)
            f.run_belotti_et_al_big_M(cap)
            judge(rec, inst, t, 'belotti', single,
                  [f.get_vector_big_M(s) for s in range(inst.N)], cap,
                  'scenarios', lim, rng)
        f = BigMFinder(ci)
        f.run_song_et_al_big_m(ci)
        judge(rec, inst, t, 'song', single,
              [f.get_vector_big_M(s) for s in range(inst.N)], None,
              'scenarios', lim, rng)
        p_ci = PartitionChanceKnapInstance(ci)
        f = BigMFinder.__new__(BigMFinder)
        first = True
        for _ in range(2):
            nb = rng.randint(min(inst.k + 1, inst.N), inst.N)
            part = random_partition(rng, inst.N, nb)
            p_ci.load_partition(nb, part)
            if first:
                f.__init__(p_ci)
                first = False
            ropt = oracle.group_opt(t, part, inst.k)
            cap = ropt + 1e-6 + rng.choice([0, 0.1]) * (1 + abs(ropt))
            for method in ('naive', 'belotti', 'song'):
                f.update_big_M(nb, cap, method=method, chance_instance=ci,
                               partition=part)
                judge(rec, inst, t, method, part,
                      [f.get_vector_big_M(c) for c in range(nb)], cap,
                      'partition', lim, rng)
    rec.state(case['seed'])
    rec.sample = dict(instance=inst.describe(), optimum=opt)


def knapsack_dp(w, v, cap):
    """Exact 0/1 knapsack in integers: the largest value."""
    best = np.zeros(cap + 1, dtype=np.int64)
    for wi, vi in zip(w, v):
        if wi <= cap:
            best[wi:] = np.maximum(best[wi:], best[:cap + 1 - wi] + vi)
    return int(best.max())


def dense(case, rec):
    """Many items of similar ratios: many points within a fraction of a
    percent of the maximum; the oracle is an exact dynamic program."""
    from src.BigMFinder import BigMFinder
    rng = random.Random(case['seed'])
    n, N, m = rng.randint(12, 40), 4, rng.randint(1, 2)
    lo, hi = rng.choice([(50, 99), (20, 25), (1, 99)])

    def draw():
        return round(rng.uniform(lo, hi), 1)
    A = [[[draw() for _ in range(n)] for _ in range(m)] for _ in range(N)]
    c = [draw() for _ in range(n)]
    b = [rng.choice([0.5, 20.0, 100.0]) for _ in range(m)]
    inst = gen.Inst(A, b, c, 0.3, 'dense', False, case['seed'])
    ci = adaptive.load(inst)
    f = BigMFinder(ci)
    wi = [int(round(v * 10)) for v in inst.c]
    for part in (0.3, 0.4, 0.5, 0.6, 0.7, 0.8):
        cap = int(sum(wi) * part)
        with quiet():
            f.run_belotti_et_al_big_M(cap / 10.0 + 0.001)
        for s in range(N):
            M = f.get_vector_big_M(s)
            for i in range(m):
                ref = knapsack_dp(wi, [int(round(v * 10)) for v in
                                       inst.A[s, i]], cap) / 10.0
                ref -= float(inst.b[i])
                rec.event('near_optimal_maxima')
                if abs(float(M[i]) - ref) > 1e-4:
                    rec.fail('Belotti coefficient is not the exact maximum',
                             scenario=s, constraint=i, reference=ref,
                             coefficient=float(M[i]), cap=cap / 10.0,
                             inst=inst.describe())
    rec.nontrivial = True
    rec.state(case['seed'])


def run(case, rec):
    if case.get('dense'):
        return dense(case, rec)
    if case.get('direct'):
        return direct(case, rec)
    rng = random.Random(case['seed'])

    def on(r, truth, opt):
        for e in r.of('bigm'):
            rec.event('run_updates')
            rec.state(case['seed'], e['partition'])
            judge(rec, r.inst, truth, r.cfg['big_m'], e['partition'], e['M'],
                  e['vUB'], 'run partition', 25, rng)
    runs.drive(case, rec, on, big_m_events=True)
