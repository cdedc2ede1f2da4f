"""C04: the partition is an exact cover seen consistently everywhere."""
import random

import numpy as np

import adaptive
import gen
import merging
import oracle
import traces
from checks import runs
from hooks import quiet

RULE = ('Run cases: one generated instance with five strategy combinations, '
        'every loaded partition, its view and every stored cost judged. '
        'Direct cases: initial partitions of every size and type, views '
        'of random partitions, merges of random partitions with candidates '
        'in any order. Non-trivial: a run refined its partition, or '
        'a direct partition with at least two subsets.')
NEED = {'partitions_checked': 400, 'merges': 10, 'subset_costs_checked': 500,
        'initial_partitions': 50, 'random_views': 50,
        'merges_of_three_or_more': 100}


def cases(tier, seed):
    out = runs.make_cases(tier, seed, 4, 360, 4000, per=5)
    rng = random.Random(seed * 31 + 4)
    for _ in range(120 if tier == 'quick' else 1500):
        out.append(dict(direct=True, seed=rng.randrange(10**8)))
    return out + merging.cases(tier, seed, 4)


def direct(case, rec):
    from src.Initializer import Initializer
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=6, Nmax=18, mmax=4)
    random.seed(case['seed'])
    ci = adaptive.load(inst)
    part_ci = PartitionChanceKnapInstance(ci)
    t = oracle.truth(inst)
    with quiet():
        for kind in ('random', 'cost'):
            for nb in {1, inst.N, rng.randint(1, inst.N), inst.k + 1}:
                p = Initializer(ci, part_ci).create_first_partition(
                    nb, partition_type=kind)
                rec.event('initial_partitions')
                p = adaptive.snap(p)
                ctx = dict(kind=kind, nb=nb, partition=p,
                           inst=inst.describe())
                if len(p) != nb:
                    rec.fail('initial partition has the wrong number of '
                             'subsets', **ctx)
                if sorted(s for c in p for s in c) != list(range(inst.N)):
                    rec.fail('initial partition is not an exact cover', **ctx)
                sizes = [len(c) for c in p]
                if min(sizes) < 1 or max(sizes) - min(sizes) > 1:
                    rec.fail('initial partition is not balanced', **ctx)
                if kind == 'cost':
                    # the nb cheapest scenarios are spread over the subsets
                    costs = np.array(t.scenario_costs())
                    if len(set(np.round(costs, 6))) == inst.N and nb > 1:
                        rec.event('cost_spread_checked')
                        gaps = np.diff(np.sort(costs)).min()
                        if gaps > 2e-4 * (1 + costs.max()):
                            low = set(np.argsort(costs)[:nb].tolist())
                            if any(len(low & set(c)) != 1 for c in p):
                                rec.fail('cost partition does not spread the '
                                         'cheapest scenarios', **ctx)
        for _ in range(4):
            nb = rng.randint(min(inst.k + 1, inst.N), inst.N)
            sc = list(range(inst.N))
            rng.shuffle(sc)
            cuts = sorted(rng.sample(range(1, inst.N), nb - 1)) if nb > 1 \
                else []
            p = [sc[a:b] for a, b in zip([0] + cuts, cuts + [inst.N])]
            part_ci.load_partition(len(p), p)
            rec.event('random_views')
            rec.nontrivial |= len(p) > 1
            r = adaptive.Run(inst, {}, 0)
            traces.view(rec, inst, adaptive.snap(p), r.view(part_ci, p),
                        'direct')
    if not np.allclose(ci.get_matrices_A(), inst.A) or \
            ci.get_nb_scenarios() != inst.N:
        rec.fail('loading a partition changed the source instance',
                 inst=inst.describe())


def run(case, rec):
    if case.get('direct'):
        return direct(case, rec)
    if case.get('merging'):
        for h in merging.histories(case, rec):
            merging.judge(rec, h)
            h['part_ci'].load_partition(h['nb'], h['new'])
            p = adaptive.snap(h['new'])
            r = adaptive.Run(h['inst'], {}, 0)
            traces.view(rec, h['inst'], p, r.view(h['part_ci'], p), 'merge')
        return None
    runs.drive(case, rec, lambda r, t, o: traces.structure(rec, r, t))
