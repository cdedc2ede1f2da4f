"""C01: the extended formulation is exact with every big-M method."""
import random

import adaptive
import gen
import oracle

RULE = ('A case is one generated instance (family, sizes, epsilon, variable '
        'type from the seed) solved with the extended formulation in four '
        'variants (indicator, naive, Belotti, Song) and compared with an '
        'exhaustive/independent optimum. Non-trivial: the optimum is strictly '
        'below the sum of the objective and the chance constraint matters '
        '(optimum strictly above the all-scenario optimum, or no scenario '
        'tolerated).')
NEED = {'milp_solves': 50, 'binary': 10, 'continuous': 10,
        'tolerance_used': 10}
ASSUMPTIONS = ['data nonnegative with one decimal, fewer tolerated than total '
               'scenarios', 'Gurobi is trusted as an LP/MIP engine for '
               'continuous reference optima; binary ones are enumerated']


def cases(tier, seed):
    n = 420 if tier == 'quick' else 6000
    rng = random.Random(seed)
    out = []
    awk = gen.awkward_pairs(100)
    for i in range(n):
        s = rng.randrange(10**8)
        kw = {}
        u = rng.random()
        if u < 0.12:
            e, N = awk[rng.randrange(len(awk))]
            kw = dict(eps=e, N=N, cont=False, nmax=8, mmax=4)
        elif u < 0.22:
            kw = dict(eps_mode='hund', Nmax=40)
        elif u < 0.30:
            # every count of tolerated scenarios up to N-1
            N = rng.randint(2, 9)
            k = rng.randint(0, N - 1)
            kw = dict(N=N, eps=min(0.99, round((k + 0.05) / N, 4)))
        elif u < 0.42:
            kw = dict(cont=False, nmax=11, Nmax=20)
        out.append(dict(seed=s, kw=kw))
    # as many scenarios as the solver licence allows, epsilon in all scales
    for _ in range(n // 12):
        N = rng.choice([100, 150, 300, 500, 1000, 1500, 1900])
        k = rng.choice([0, 1, 2, 3, 5, N // 100, N // 50, N // 20])
        fam = rng.choice(['noisy', 'orthog', 'orlib', 'fewhard', 'ties'])
        out.append(dict(seed=rng.randrange(10**8), kw=dict(
            N=N, eps=round(k / N + rng.choice([0, 0.2 / N]), 5), cont=False,
            n=rng.randint(3, 10), m=1, family=fam)))
    for _ in range(n // 12):
        N = rng.randint(24, 60)
        k = rng.randint(0, 8)
        out.append(dict(seed=rng.randrange(10**8), kw=dict(
            N=N, eps=round((k + rng.choice([0, 0.3])) / N, 4), nmax=11)))
    return out


def run(case, rec):
    inst = gen.make(case['seed'], **case['kw'])
    t = oracle.truth(inst)
    opt = t.opt()
    allsc = t.subset_opt(range(inst.N))
    rec.event('continuous' if inst.cont else 'binary')
    if inst.k > 0 and opt > allsc + 1e-6:
        rec.event('tolerance_used')
    rec.nontrivial = (opt < inst.c.sum() - 1e-6
                      and (inst.k == 0 or opt > allsc + 1e-6))
    rec.state(inst.family, inst.cont, inst.k, inst.N, inst.n, inst.m)
    got = {}
    gap = 1e-4 if case['seed'] % 3 else 1e-8
    ci = adaptive.load(inst)
    for method in (None, 'naive', 'belotti', 'song'):
        label = method or 'indicator'
        s = adaptive.milp_run(inst, method, ci=ci, gap=gap)
        rec.event('milp_solves')
        got[label] = (float(s.vLB), float(s.vUB))
        adaptive.judge_final(rec, inst, opt, float(s.vLB), float(s.vUB),
                             s.xLB, gap, label)
    rec.sample = dict(instance=inst.describe(), optimum=opt, bounds=got)
