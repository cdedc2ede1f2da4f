"""Direct histories of the merging component: random partitions, candidates in
any order, any number of subsets merged at once (runs reach merges of three or
more subsets only rarely)."""
import copy
import random

import numpy as np

import adaptive
import gen
from hooks import quiet

EVENT = 'direct_merges'


def cases(tier, seed, salt, quick=120, thorough=1500):
    rng = random.Random(seed * 77 + salt)
    return [dict(merging=True, seed=rng.randrange(10**8))
            for _ in range(quick if tier == 'quick' else thorough)]


def random_partition(rng, N, nb):
    sc = list(range(N))
    rng.shuffle(sc)
    cuts = sorted(rng.sample(range(1, N), nb - 1)) if nb > 1 else []
    return [sc[a:b] for a, b in zip([0] + cuts, cuts + [N])]


def histories(case, rec, count=12):
    """Yields (kind, merger, old, candidates, number merged, new, nb)."""
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    from src.Merger import Merger
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=6, N=rng.randint(4, 24), mmax=3)
    ci = adaptive.load(inst)
    part_ci = PartitionChanceKnapInstance(ci)
    merger = Merger(ci, part_ci)
    for _ in range(count):
        nb = rng.randint(3, inst.N)
        old = random_partition(rng, inst.N, nb)
        part_ci.load_partition(nb, old)
        part = copy.deepcopy(old)
        kind = rng.choice(['merge_all', 'merge_feasible'])
        cand = rng.sample(range(nb), rng.randint(2, nb))
        with quiet():
            if kind == 'merge_all':
                take = len(cand)
                new, got = merger.merge_all(part, list(cand))
            else:
                take = rng.randint(2, len(cand))
                x = np.array([rng.choice([0, 1, rng.random()])
                              for _ in range(inst.n)])
                new, got = merger.merge_feasible(part, x, sorted(cand),
                                                 take - 1)
        rec.event(EVENT)
        if take >= 3:
            rec.event('merges_of_three_or_more')
            rec.nontrivial = True
        yield dict(kind=kind, merger=merger, inst=inst, old=old, cand=cand,
                   take=take, new=new, nb=got, part_ci=part_ci, rng=rng)


def ctx(h):
    return dict(kind=h['kind'], inst=h['inst'].describe(), old=h['old'],
                candidates=h['cand'], merged=h['take'], new=h['new'])


def survivors(h):
    """For each subset of the result, the old positions it consists of (None
    when it is not a union of old subsets)."""
    out = []
    for s in h['new']:
        rest, idx = set(s), []
        for i, o in enumerate(h['old']):
            if set(o) <= rest:
                rest -= set(o)
                idx.append(i)
        out.append(None if rest else idx)
    return out


def judge(rec, h):
    """Exact cover, exactly the requested number of candidates united, nothing
    else touched."""
    c = ctx(h)
    new, old = h['new'], h['old']
    rec.state(sorted(map(sorted, new)))
    if h['nb'] != len(new):
        rec.fail('merge reports a wrong number of subsets', nb=h['nb'], **c)
    if any(not len(s) for s in new):
        rec.fail('merge leaves an empty subset', **c)
    if sorted(s for p in new for s in p) != list(range(h['inst'].N)):
        rec.fail('merged partition is not an exact cover', **c)
        return
    groups = survivors(h)
    if any(g is None for g in groups):
        rec.fail('merge does not unite whole subsets', **c)
        return
    big = [g for g in groups if len(g) > 1]
    if len(big) != 1 or len(big[0]) != h['take'] or \
            not set(big[0]) <= set(h['cand']):
        rec.fail('merge unites other subsets than the candidates',
                 united=big, **c)
