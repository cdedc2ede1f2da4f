"""C02: adaptive partitioning terminates with the true optimum."""
import json
import os
import random

import adaptive
import gen
import oracle

RULE = ('A case is one generated instance run with several of the 224 '
        'strategy combinations (initial partition x split x big-M x merge x '
        'lazy x projection); the final bounds and incumbent are judged '
        'against an independent optimum, and a logical step budget decides '
        'termination. Non-trivial: at least one of the runs of the case '
        'refined its partition.')
NEED = {'runs': 200, 'splits': 100, 'merges': 10}
ASSUMPTIONS = ['termination is decided by a budget of refinements '
               '(40 + 12 N) and of executed loop iterations, far above what '
               'any observed terminating run needs']

REGRESS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'regress.json')


def pick_configs(rng, n):
    return [dict(c) for c in rng.sample(adaptive.CONFIGS, n)]


def case_kw(rng, awk):
    u = rng.random()
    v = rng.random()
    if v < 0.1:
        return long_kw(rng)
    if v < 0.15:
        return wide_kw(rng)
    if u < 0.06:
        # only binary: with many tolerated scenarios the continuous relaxed
        # problems get slow
        e, N = awk[rng.randrange(len(awk))]
        return dict(eps=e, N=N, cont=False, nmax=7, mmax=3)
    if u < 0.25:
        return dict(eps_mode='hund', Nmax=30)
    if u < 0.35:
        return dict(family='ties')
    if u < 0.50:
        return dict(Nmax=26, eps_mode='big')
    if u < 0.60:
        # many tolerated scenarios
        N = rng.randint(3, 16)
        k = rng.randint(N // 2, N - 1)
        return dict(N=N, eps=min(0.99, round((k + 0.05) / N, 4)))
    if u < 0.7:
        return dict(cont=False, nmax=11, Nmax=20)
    if u < 0.85:
        # several splits needed at once, merges of several subsets
        N = rng.randint(10, 24)
        k = rng.randint(2, 8)
        return dict(family='fewhard', N=N, eps=round((k + 0.05) / N, 4))
    return {}


def long_kw(rng):
    """Long runs: many scenarios without common structure."""
    N = rng.randint(24, 60)
    k = rng.randint(1, 7)
    return dict(family=rng.choice(['noisy', 'orthog', 'ties', 'sparse',
                                   'fewhard', 'dups']), N=N,
                eps=round((k + rng.choice([0, 0.05, 0.5])) / N, 4),
                nmax=10, mmax=3)


def wide_kw(rng):
    """More items than can be enumerated, large coefficients."""
    N = rng.randint(8, 18)
    k = rng.randint(1, 4)
    return dict(family='wide', N=N, eps=round((k + 0.1) / N, 4), cont=False,
                n=rng.randint(15, 22), m=rng.randint(1, 3))


def huge_kw(rng):
    """As many scenarios as the solver licence allows."""
    N = rng.choice([100, 200, 250, 400, 500, 800, 1000])
    k = rng.choice([0, 1, 2, 3, 5, N // 100, N // 50])
    return dict(family=rng.choice(['noisy', 'orthog', 'orlib', 'fewhard',
                                   'smallint']), N=N,
                eps=round(k / N + rng.choice([0, 0.2 / N]), 5), cont=False,
                n=rng.randint(3, 9), m=1)


def cases(tier, seed):
    n = 420 if tier == 'quick' else 5000
    rng = random.Random(seed + 1)
    awk = gen.awkward_pairs(100)
    out = [dict(seed=rng.randrange(10**8), kw=case_kw(rng, awk),
                configs=pick_configs(rng, 8)) for _ in range(n)]
    for _ in range(n // 12):
        cfgs = pick_configs(rng, 3)
        for c in cfgs:
            c['split'] = 'random'   # cost splits of such sets get slow
        out.insert(0, dict(seed=rng.randrange(10**8), kw=huge_kw(rng),
                           configs=cfgs))
    for _ in range(n // 12):
        out.insert(0, dict(seed=rng.randrange(10**8), kw=wide_kw(rng),
                           configs=pick_configs(rng, 3)))
    for _ in range(n // 6):
        kw = case_kw(rng, awk)
        if rng.random() < 0.7:
            N = rng.randint(6, 18)
            k = rng.randint(1, 4)
            kw = dict(family=rng.choice(['ties', 'wide', 'bigcoef', 'noisy',
                                         'orlib']), N=N, cont=False,
                      eps=round((k + 0.1) / N, 4), n=rng.randint(6, 13),
                      m=rng.randint(1, 4))
        out.append(dict(seed=rng.randrange(10**8), kw=kw, sloppy=True,
                        configs=pick_configs(rng, 8)))
    # instances on which this repository once failed
    with open(REGRESS) as f:
        out += json.load(f)
    return out


def run(case, rec):
    inst = (gen.Inst.load(case['inst']) if 'inst' in case
            else gen.make(case['seed'], **case['kw']))
    opt = oracle.truth(inst).opt()
    ci = adaptive.load(inst)
    got = []
    for j, cfg in enumerate(case['configs']):
        name = adaptive.cfg_name(cfg)
        r = adaptive.Run(inst, cfg, case['seed'] + j, ci=ci,
                         sloppy=case.get('sloppy')).go()
        if case.get('sloppy'):
            rec.event('other_optima', r.sloppy.moved)
            rec.event('raised_bounds', r.sloppy.raised)
        rec.event('runs')
        ns, nm = len(r.of('split')), len(r.of('merge'))
        rec.event('splits', ns)
        rec.event('merges', nm)
        rec.event('relaxed_solves', len(r.of('ub')))
        rec.state(name, min(ns, 6), min(nm, 4), inst.cont)
        if ns:
            rec.nontrivial = True
        if r.budget:
            rec.fail('the run does not terminate', config=name,
                     inst=inst.describe(), budget=r.budget, splits=ns,
                     merges=nm, vLB=r.solver and r.solver.vLB,
                     vUB=r.solver and r.solver.vUB, opt=opt)
            continue
        s = r.solver
        adaptive.judge_final(rec, inst, opt, float(s.vLB), float(s.vUB),
                             s.xLB, r.gap, name)
        got.append([name, ns, nm, float(s.vLB), float(s.vUB)])
    rec.sample = dict(instance=inst.describe(), optimum=opt, runs=got[:3])
