"""C10: the quantile bound is the right order statistic and a valid bound."""
import random
from fractions import Fraction

import numpy as np

import adaptive
import gen
import oracle
from hooks import quiet

RULE = ('A list case is one list of scenario costs (random, tied, sorted, '
        'negative, nearly equal; up to 5000 entries) and one epsilon (two or '
        'three decimals, favouring exact and awkward integer products); the '
        'bound is compared with the exact order statistic. An instance case '
        'computes it from the single-scenario optima of a generated instance '
        'and compares it with the true optimum. Non-trivial: the neighbours '
        'of the order statistic differ from it, or the bound is strictly '
        'above the optimum of the all-scenario problem.')
NEED = {'list_bounds': 4000, 'awkward_products': 150, 'exact_products': 400,
        'instance_bounds': 60, 'solver_bounds': 60}
ASSUMPTIONS = ['uniform probabilities', 'epsilon with at most three decimals, '
               'at most 5000 scenarios']


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 77 + 10)
    out = [dict(kind='lists', seed=rng.randrange(10**8), num=60)
           for _ in range(120 if q else 2500)]
    out += [dict(kind='inst', seed=rng.randrange(10**8))
            for _ in range(140 if q else 2500)]
    return out


def costs(rng, rs, N):
    kind = rng.choice(['rand', 'ties', 'sorted', 'reverse', 'neg', 'close',
                       'perm'])
    if kind == 'rand':
        c = rs.uniform(0, 1000, N)
    elif kind == 'ties':
        c = rs.randint(0, max(2, N // 5), N).astype(float)
    elif kind == 'sorted':
        c = np.sort(rs.uniform(0, 10, N))
    elif kind == 'reverse':
        c = np.sort(rs.uniform(0, 10, N))[::-1].copy()
    elif kind == 'neg':
        c = rs.uniform(-50, 50, N)
    elif kind == 'close':
        c = 100 + 1e-6 * rs.permutation(N)
    else:
        c = rs.permutation(N).astype(float)
    return kind, c


def run_lists(case, rec):
    from src.UpperBounder import UpperBounder
    rng = random.Random(case['seed'])
    rs = np.random.RandomState(case['seed'] % 2**32)
    awk = gen.awkward_pairs(100)
    ub = UpperBounder(None, None, None)
    for _ in range(case['num']):
        u = rng.random()
        if u < 0.2:
            e, N = awk[rng.randrange(len(awk))]
        elif u < 0.4:
            N = rng.choice([10, 20, 50, 100, 200, 500, 1000])
            e = rng.choice([0.05, 0.1, 0.15, 0.2, 0.25, 0.3])
        elif u < 0.5:
            N = rng.choice([500, 1000, 3000, 5000])
            e = rng.randrange(1, 100) / 100
        elif u < 0.8:
            N = rng.randint(1, 60)
            e = rng.randrange(0, 100) / 100
        else:
            N = rng.randint(1, 120)
            e = rng.randrange(0, 999) / 1000
        k = gen.k_of(e, N)
        if k >= N:
            continue
        kind, c = costs(rng, rs, N)
        arg = c.copy() if rng.random() < 0.5 else c.tolist()
        with quiet():
            got = ub.ahmed_et_al_bound(arg, np.full(N, 1 / N), e)
        srt = np.sort(c)
        rec.event('list_bounds')
        exact = (Fraction(repr(e)) * N).denominator == 1
        if exact:
            rec.event('exact_products')
            if e * N < k:
                rec.event('awkward_products')
        if (k + 1 < N and srt[k + 1] > srt[k]) or (k and
                                                   srt[k - 1] < srt[k]):
            rec.nontrivial = True
        rec.state(N, k, kind)
        if got is None or float(got) != float(srt[k]):
            rec.fail('quantile bound is not the right order statistic',
                     N=N, eps=e, k=k, got=got, want=srt[k],
                     neighbours=srt[max(0, k - 1):k + 2], kind=kind)
        if not np.array_equal(np.asarray(arg, float), c):
            rec.fail('cost list was modified', N=N, eps=e)
    rec.sample = dict(last_N=N, last_eps=e, tolerated=k, bound=got)


def run_inst(case, rec):
    from src.Evaluator import Evaluator
    from src.UpperBounder import UpperBounder
    rng = random.Random(case['seed'])
    awk = gen.awkward_pairs(100)
    kw = dict(nmax=7, Nmax=20, mmax=3)
    if rng.random() < 0.35:
        e, N = awk[rng.randrange(len(awk))]
        kw.update(eps=e, N=N, cont=False)
    inst = gen.make(case['seed'], **kw)
    t = oracle.truth(inst)
    opt = t.opt()
    ci = adaptive.load(inst)
    with quiet():
        sc = Evaluator(ci).get_all_single_scenario_costs()
        got = UpperBounder(None, None, None).ahmed_et_al_bound(
            sc, ci.get_proba(), ci.get_epsilon())
    rec.event('instance_bounds')
    ctx = dict(inst=inst.describe(), bound=got, optimum=opt)
    mine = sorted(t.scenario_costs())
    if got is None or got < opt - adaptive.gap_tol(opt):
        rec.fail('quantile bound below the optimum', **ctx)
    elif abs(got - mine[inst.k]) > adaptive.gap_tol(mine[inst.k]):
        rec.fail('quantile bound is not the right order statistic of the '
                 'scenario optima', want=mine[inst.k], **ctx)
    # the bound the adaptive solver starts from
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    with quiet():
        s = AdaptivePartitioner(ci, split_method='random',
                                initial_partition_type='cost')
    rec.event('solver_bounds')
    if s.vUB is not None and abs(float(s.vUB) - mine[inst.k]) > \
            adaptive.gap_tol(mine[inst.k]):
        rec.fail('initial upper bound of the solver is not the quantile '
                 'bound', start=float(s.vUB), want=mine[inst.k], **ctx)
    rec.nontrivial = mine[inst.k] > mine[0] + 1e-9
    rec.state(inst.family, inst.N, inst.k)
    rec.sample = dict(instance=inst.describe(), bound=got, optimum=opt)


def run(case, rec):
    (run_lists if case['kind'] == 'lists' else run_inst)(case, rec)
