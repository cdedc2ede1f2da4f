"""C08: every relaxed problem over a partition is solved exactly."""
import random

import numpy as np

import adaptive
import gen
import oracle
import traces
from checks import runs
from hooks import quiet, Steps
import boot

RULE = ('Run cases: one generated instance with five strategy combinations; '
        'each relaxed solve is compared with an independent optimum for the '
        'partition and bounds of that moment. Direct cases: random '
        'partitions solved with every big-M method, with and without lazy '
        'constraints and warm start. Non-trivial: a relaxed problem with more '
        'than floor(eps*N)+1 subsets was compared.')
NEED = {'relaxed_partition': 200, 'relaxed_optima_compared': 300,
        'direct_solves': 200}


def cases(tier, seed):
    out = runs.make_cases(tier, seed, 8, 300, 3500, per=5)
    rng = random.Random(seed * 31 + 8)
    for _ in range(150 if tier == 'quick' else 2500):
        out.append(dict(direct=True, seed=rng.randrange(10**8)))
    return out


def random_partition(rng, N, nb):
    sc = list(range(N))
    rng.shuffle(sc)
    cuts = sorted(rng.sample(range(1, N), nb - 1)) if nb > 1 else []
    return [sc[a:b] for a, b in zip([0] + cuts, cuts + [N])]


def direct(case, rec):
    from src.BigMFinder import BigMFinder
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    from src.solver.Solver import Solver
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=8, Nmax=14, mmax=4)
    t = oracle.truth(inst)
    ci = adaptive.load(inst)
    p_ci = PartitionChanceKnapInstance(ci)
    nb = rng.randint(inst.k + 1, inst.N)
    part = random_partition(rng, inst.N, nb)
    opt = oracle.group_opt(t, part, inst.k)
    p_ci.load_partition(nb, part)
    solver = Solver(ci, 100000, 1e-4)
    vUB = opt + rng.choice([1e-3, 0.05, 0.3]) * (1 + abs(opt))
    with quiet(), Steps(3000000, boot.REPO):
        for method in (None, 'naive', 'belotti', 'song'):
            lazy = rng.random() < 0.5
            f = BigMFinder(p_ci)
            if method:
                f.update_big_M(nb, vUB, method=method, chance_instance=ci,
                               partition=part)
            z0 = {i: 1 for i in range(nb) if rng.random() < 0.4} \
                if rng.random() < 0.5 else None
            # discard subsets that provably cannot reach the optimum
            prune = [c for c in range(nb)
                     if t.subset_opt(part[c]) < opt - 1e-2 * (1 + abs(opt))
                     and rng.random() < 0.5] if rng.random() < 0.5 else []
            x, z, obj, bnd = solver.solve_cclp_model(
                p_ci, f, z_start=z0, prune_indices=prune, gap=1e-8,
                use_big_M=method is not None,
                use_lazy=lazy and method is not None)
            rec.event('direct_solves')
            rec.event('pruned_subsets', len(prune))
            ctx = dict(method=method, lazy=lazy, partition=part, obj=obj,
                       bnd=bnd, optimum=opt, vUB=vUB, prune=prune,
                       inst=inst.describe())
            if abs(obj - opt) > adaptive.tol(opt) or \
                    abs(bnd - opt) > adaptive.tol(opt):
                rec.fail('relaxed problem not solved to its optimum', **ctx)
            traces.relaxed_point(rec, inst, part, x, z, obj, ctx)
    rec.nontrivial = nb > inst.k + 1
    rec.state(case['seed'], nb, inst.k)
    rec.sample = dict(instance=inst.describe(), partition=part, optimum=opt)


def run(case, rec):
    if case.get('direct'):
        return direct(case, rec)

    def judge(r, truth, opt):
        traces.relaxed(rec, r, truth)
        for e in r.of('ub'):
            rec.state(case['seed'], e['partition'])
    runs.drive(case, rec, judge)
