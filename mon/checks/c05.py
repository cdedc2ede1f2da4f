"""C05: refinement excludes the last relaxed solution; no cycling."""
import random

import numpy as np

import adaptive
import boot
import gen
import merging
import traces
from checks import runs
from hooks import Steps, quiet

RULE = ('A case is one generated instance run with six strategy combinations '
        '(merging favoured); every refinement and merge is judged from its '
        'recorded input and output. Non-trivial: a run of the case refined '
        'its partition (or merged three subsets at once in a direct merge '
        'history, or split two subsets at once in a direct refinement '
        'history: one refiner and one instance of up to 150 scenarios, '
        'random partitions and points). States: distinct partitions visited.')
NEED = {'splits_checked': 200, 'merges_checked': 20,
        'merges_of_three_or_more': 100, 'direct_refinements': 400,
        'direct_splits_of_two_or_more': 100}


def cases(tier, seed):
    return runs.make_cases(tier, seed, 5, 420, 5000, merge_bias=0.7, sloppy=0.15) \
        + merging.cases(tier, seed, 5) + refining(tier, seed)


def refining(tier, seed):
    rng = random.Random(seed * 4099 + 5)
    return [dict(refining=True, seed=rng.randrange(10**8))
            for _ in range(120 if tier == 'quick' else 2000)]


def partition(rng, inst, bad):
    """A partition with at most k subsets that contain a bad scenario."""
    k, N = inst.k, inst.N
    good = [s for s in range(N) if s not in set(bad)]
    inf = rng.randint(max(1, k - 2) if rng.random() < 0.5 else 1,
                      min(k, len(bad)))
    bad = rng.sample(bad, len(bad))
    part = [bad[i::inf] for i in range(inf)]
    if rng.random() < 0.5:
        # uneven: nearly all of them in one subset
        part = [bad[:len(bad) - inf + 1]] + \
            [[s] for s in bad[len(bad) - inf + 1:]]
    need = max(k + 1 - inf, 0)
    if len(good) < need:
        return None
    good = rng.sample(good, len(good))
    free = rng.randint(need, max(need, min(len(good), need + 3)))
    for i in range(free):
        part.append([good.pop()])
    for s in good:
        rng.choice(part).append(s)
    for p in part:
        rng.shuffle(p)
    rng.shuffle(part)
    return part


def direct(case, rec):
    from src.refiner.CostRefiner import CostRefiner
    from src.refiner.RandomRefiner import RandomRefiner
    rng = random.Random(case['seed'])
    cost = rng.random() < 0.25
    N = rng.randint(6, 14) if cost else int(10 ** rng.uniform(0.9, 2.18))
    k = int(max(1, N // 3) ** rng.random())
    inst = gen.make(case['seed'], nmax=7, mmax=3, N=N,
                    eps=round((k + 0.5) / N, 4))
    ci = adaptive.load(inst)
    done = []
    random.seed(case['seed'])
    with quiet(), Steps(5000000, boot.REPO):
        r = CostRefiner(ci, use_acc_obj=True) if cost else RandomRefiner(ci, False)
        for _ in range(30):
            if len(done) >= (4 if cost else 8):
                break
            x = np.ones(inst.n) * rng.choice([1, 1, rng.random()])
            if rng.random() < 0.7:
                x = np.array([rng.choice([0, 1, 1, x[0]])
                              for _ in range(inst.n)], float)
            if not inst.cont:
                x = np.round(x)
            v = (inst.A @ x - inst.b[None, :]).max(axis=1)
            if ((v > 1e-7) & (v < 1e-5)).any():
                continue
            bad = [s for s in range(N) if v[s] > 1e-6]
            if len(bad) <= inst.k:
                continue
            part = partition(rng, inst, bad)
            if part is None:
                continue
            ci.check_feasibility(x)
            r.vUB = float(rng.random() * inst.c.sum())
            r.subset_costs = [float(rng.random() * inst.c.sum())
                              for _ in part]
            old = adaptive.snap(part)
            nb, new = r.refine(part, x)
            new = adaptive.snap(new)
            mu = inst.k + 1 - traces.excluded(old, set(bad))
            done.append([len(old), int(nb), len(bad)])
            rec.event('direct_refinements')
            rec.state(case['seed'], sorted(map(sorted, new)))
            if mu > 1:
                rec.event('direct_splits_of_two_or_more')
                rec.nontrivial = True
            ctx = dict(inst=inst.describe(), refiner=type(r).__name__,
                       old=old, new=new, violated=bad, step=len(done))
            if sorted(s for p in new for s in p) != list(range(N)) or \
                    any(not p for p in new) or int(nb) != len(new):
                rec.fail('refined partition is not an exact cover', nb=nb,
                         **ctx)
                continue
            if traces.excluded(new, set(bad)) < inst.k + 1:
                rec.fail('refinement does not exclude the last relaxed '
                         'solution', **ctx)
            olds = [set(s) for s in old]
            if any(not any(set(s) <= o for o in olds) for s in new):
                rec.fail('refinement moves scenarios between subsets', **ctx)
    rec.sample = dict(instance=inst.describe(), refinements=done)


def run(case, rec):
    if case.get('merging'):
        for h in merging.histories(case, rec):
            merging.judge(rec, h)
        return
    if case.get('refining'):
        return direct(case, rec)
    runs.drive(case, rec, lambda r, t, o: traces.progress(rec, r))
