"""C13: the cost-based split minimizes the worst post-split bound."""
import random

import numpy as np

import adaptive
import gen
import oracle
from hooks import quiet, Steps
import boot
from checks import runs

RULE = ('Split cases: one generated instance, random scenario sets (up to 8) '
        'with random violated subsets (at least two); each split is compared '
        'with all bipartitions. Refine cases: one refiner object refines a '
        'sequence of partitions of one instance (reused values included); '
        'run cases: every refinement of real cost-based runs. The chosen '
        'subset is compared with the rule applied to independently computed '
        'values. Non-trivial: the best split is strictly better than the '
        'worst one, or a choice among several candidate subsets was judged.')
NEED = {'splits': 500, 'splits_that_matter': 250, 'choices': 250,
        'choices_above_bound': 15, 'choices_of_several': 100, 'choices_below_bound': 40}
ASSUMPTIONS = ['sets of at most 8 scenarios', 'values within the relative '
               'gap of the split model are ties']


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 977 + 13)
    out = [dict(kind='split', seed=rng.randrange(10**8))
           for _ in range(200 if q else 3000)]
    out += [dict(kind='refine', seed=rng.randrange(10**8))
            for _ in range(420 if q else 5000)]
    out += [dict(kind='refine', seed=rng.randrange(10**8), memory=True)
            for _ in range(160 if q else 2500)]
    rc = runs.make_cases(tier, seed, 13, 120, 1500, per=4)
    for c in rc:
        for g in c['configs']:
            g['split'] = 'cost'
        c['kw'] = dict(nmax=7, Nmax=11, mmax=3)
    return out + [dict(c, kind='run') for c in rc]


class Relax:
    """Linear-relaxation optima of scenario sets."""

    def __init__(self, inst):
        i = gen.Inst(inst.A, inst.b, inst.c, inst.eps, inst.family, True,
                     inst.ident)
        self.t = oracle.ContTruth(i)
        self.memo = {}

    def opt(self, s):
        return self.t.subset_opt(s)

    def best(self, scen, inf):
        """(best, worst) of the larger relaxed optimum over all splits."""
        key = (frozenset(scen), frozenset(inf))
        if key not in self.memo:
            scen = sorted(scen)
            vals = []
            for mask in range(1 << (len(scen) - 1)):
                left = [s for j, s in enumerate(scen) if mask >> j & 1]
                right = [s for s in scen if s not in left]
                if not set(left) & set(inf) or not set(right) & set(inf):
                    continue
                vals.append(max(self.opt(left), self.opt(right)))
            self.memo[key] = (min(vals), max(vals))
        return self.memo[key]


def slack(v):
    return 1.5e-4 * abs(v) + 1e-5


def judge_split(rec, inst, rel, scen, inf, v, left, right, ctx):
    rec.event('splits')
    ctx = dict(ctx, inst=inst.describe(), scenarios=scen, violated=inf,
               value=v, left=left, right=right)
    l, r = set(left), set(right)
    if l & r or l | r != set(scen) or len(left) + len(right) != len(scen):
        rec.fail('split is not a partition of the set', **ctx)
        return
    if not l & set(inf) or not r & set(inf):
        rec.fail('a half of the split has no violated scenario', **ctx)
        return
    mine = max(rel.opt(left), rel.opt(right))
    best, worst = rel.best(scen, inf)
    if worst > best + slack(best):
        rec.event('splits_that_matter')
        rec.nontrivial = True
    if v is not None and abs(v - mine) > slack(mine):
        rec.fail('reported split value is not the larger relaxed optimum of '
                 'the halves', want=mine, **ctx)
    if mine > best + slack(best):
        rec.fail('split does not minimize the larger relaxed optimum',
                 halves=mine, best=best, **ctx)


def halvings(rel, parts, inf, t):
    """Ways to unite the final parts of a subset into two admissible halves
    of minimal value."""
    out = []
    whole = sorted(s for p in parts for s in p)
    best = rel.best(whole, [s for s in whole if s in inf])[0]
    for mask in range(1 << (len(parts) - 1)):
        l = [p for j, p in enumerate(parts) if mask >> j & 1]
        r = [p for p in parts if p not in l]
        if not l or not r:
            continue
        ls, rs = [s for p in l for s in p], [s for p in r for s in p]
        if not set(ls) & inf or not set(rs) & inf:
            continue
        if max(rel.opt(ls), rel.opt(rs)) <= best + t:
            out.append((l, r))
    return out


def explain(rel, state, inf, vUB, mu):
    """Is there a sequence of mu splits by the documented rule that leads from
    the state to the final partition? state: list of lists of final parts.
    True, False or None (a value too close to the bound, or too large)."""
    if mu == 0:
        return all(len(parts) == 1 for parts in state)
    cand = {}
    for c, parts in enumerate(state):
        whole = sorted(s for p in parts for s in p)
        bad = [s for s in whole if s in inf]
        if len(bad) >= 2:
            if len(whole) > 8:
                return None
            cand[c] = rel.best(whole, bad)[0]
    if not cand:
        return False
    t = max(slack(vUB), max(slack(v) for v in cand.values()))
    if any(abs(v - vUB) <= t for v in cand.values()):
        return None
    below = [c for c in cand if cand[c] <= vUB]
    if below:
        top = max(cand[c] for c in below)
        good = [c for c in below if cand[c] >= top - t]
    else:
        low = min(cand.values())
        good = [c for c in cand if cand[c] <= low + t]
    for c in good:
        if len(state[c]) < 2:
            continue
        for l, r in halvings(rel, state[c], inf, t):
            res = explain(rel, state[:c] + [l] + state[c + 1:] + [r], inf,
                          vUB, mu - 1)
            if res is not False:
                return res
    return False


def judge_choice(rec, inst, rel, old, new, bad, vUB, ctx):
    """Were the subsets to split chosen by the documented rule?"""
    inf = {s for s in range(inst.N) if bad[s]}
    ninf = sum(any(bad[s] for s in sub) for sub in old)
    mu = inst.k + 1 - ninf
    ctx = dict(ctx, inst=inst.describe(), old=old, new=new, vUB=vUB,
               violated=sorted(inf), splits=mu)
    state = [[p for p in new if set(p) <= set(sub)] for sub in old]
    if len(new) != len(old) + mu or mu < 1 or \
            sum(map(len, state)) != len(new):
        rec.fail('refinement does not make the required number of splits',
                 **ctx)
        return
    split = [c for c in range(len(old)) if len(state[c]) > 1]
    if any(sum(bad[s] for s in old[c]) < 2 for c in split):
        rec.fail('a subset without two violated scenarios was split', **ctx)
        return
    cand = {c: rel.best(sub, [s for s in sub if bad[s]])[0]
            for c, sub in enumerate(old)
            if sum(bad[s] for s in sub) >= 2 and len(sub) <= 8}
    ctx.update(values=cand, split=split)
    # the halves themselves
    for c in split:
        if len(state[c]) == 2 and c in cand:
            judge_split(rec, inst, rel, list(old[c]),
                        [s for s in old[c] if bad[s]], None, state[c][0],
                        state[c][1], dict(ctx, note='refine'))
    if any(len(p) > 4 for p in state) or mu > 4:
        rec.event('choices_too_large')
        return
    res = explain(rel, state, inf, vUB, mu)
    if res is None:
        rec.event('choices_not_judged')
        return
    rec.event('choices')
    if mu > 1:
        rec.event('choices_of_several')
    if len(cand) > 1 or mu > 1:
        rec.nontrivial = True
        rec.event('choices_below_bound'
                  if any(v <= vUB for v in cand.values())
                  else 'choices_above_bound')
    if not res:
        rec.fail('the subset to split was not chosen by its post-split value',
                 **ctx)


def direct(case, rec):
    from src.refiner.CostRefiner import CostRefiner
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=7, Nmax=10, mmax=3, N=None)
    if inst.N < 2:
        return
    rel = Relax(inst)
    ci = adaptive.load(inst)
    rec.state(inst.family, inst.N, inst.n, inst.m)
    with quiet(), Steps(5000000, boot.REPO):
        r = CostRefiner(ci, use_acc_obj=True)
        for _ in range(4):
            scen = rng.sample(range(inst.N), rng.randint(2, min(7, inst.N)))
            inf = rng.sample(scen, rng.randint(2, len(scen)))
            v, left, right = r.accurate_obj_split(list(scen), list(inf))
            judge_split(rec, inst, rel, scen, inf, float(v),
                        [int(s) for s in left], [int(s) for s in right], {})
    rec.sample = dict(instance=inst.describe(), scenarios=scen, violated=inf,
                      value=v, left=left, right=right)


def refine(case, rec):
    from src.refiner.CostRefiner import CostRefiner
    from src.instance.PartitionChanceKnapInstance import \
        PartitionChanceKnapInstance
    from src.Merger import Merger
    from checks.c08 import random_partition
    from checks.c12 import relaxed_point
    from checks.c09 import Judge
    rng = random.Random(case['seed'])
    # memory cases: the same few subsets again and again, with other violated
    # scenarios each time, and the partitions handed out are merged meanwhile
    memory = case.get('memory', False)
    N = rng.randint(6, 13)
    k = rng.randint(1, max(1, N // 3))
    if memory:
        N, k = rng.randint(5, 8), rng.randint(1, 2)
    inst = gen.make(case['seed'], nmax=7, mmax=3, N=N,
                    eps=round((k + 0.5) / N, 4))
    rel = Relax(inst)
    t = oracle.truth(inst)
    ci = adaptive.load(inst)
    done = 0
    with quiet(), Steps(5000000, boot.REPO):
        r = CostRefiner(ci, use_acc_obj=True)
        pool = []
        part_ci = PartitionChanceKnapInstance(ci)
        merger = Merger(ci, part_ci)
        for _ in range(60 if memory else 40):
            if done >= (12 if memory else 6):
                break
            if pool and rng.random() < (0.85 if memory else 0.6):
                part, x = rng.choice(pool)     # same subsets: reused values
                if rng.random() < (0.7 if memory else 0.4):
                    x = relaxed_point(rng, inst, t)
            elif memory:
                part = random_partition(rng, N, rng.randint(1, min(k + 1, 3)))
                x = relaxed_point(rng, inst, t)
            else:
                part = random_partition(rng, N, rng.randint(k + 1,
                                                            min(N, k + 4)))
                x = relaxed_point(rng, inst, t)
            j = Judge(inst, x)
            ninf = sum(any(j.bad[s] for s in sub) for sub in part)
            if not j.sure or j.nbad <= k or ninf > k:
                continue
            pool.append((part, x))
            costs = [t.subset_opt(s) for s in part]
            vals = [rel.best(s, [q for q in s if j.bad[q]])[0] for s in part
                    if sum(j.bad[q] for q in s) >= 2 and len(s) <= 8]
            base = rng.choice(vals + costs)
            r.vUB = base * rng.choice([0.9, 1.0, 1.02, 1.2]) + \
                rng.choice([-0.5, 0.5])
            r.subset_costs = costs
            ci.check_feasibility(np.array(x))
            nb, new = r.refine([list(s) for s in part], np.array(x))
            done += 1
            rec.state(case['seed'], part, j.bad)
            rec.event('refinements')
            judge_choice(rec, inst, rel, part, [list(s) for s in new], j.bad,
                         r.vUB, dict(step=done))
            if memory and rng.random() < 0.6 and len(new) >= 3:
                # the solver merges subsets of the partition it was given
                cand = rng.sample(range(len(new)), 2)
                part_ci.load_partition(
                    len(new), [list(s) for s in new])
                merger.merge_all(new, cand)
                rec.event('merged_in_between')
    rec.sample = dict(instance=inst.describe(), refinements=done)


def run(case, rec):
    if case['kind'] == 'split':
        return direct(case, rec)
    if case['kind'] == 'refine':
        return refine(case, rec)
    from checks.c09 import Judge

    def judge(r, t, opt):
        rel = rels.setdefault(0, Relax(r.inst))
        for e in r.of('split'):
            j = Judge(r.inst, e['x'])
            if j.sure and e['vUB'] is not None:
                judge_choice(rec, r.inst, rel, [list(s) for s in e['old']],
                             [list(s) for s in e['new']], j.bad, e['vUB'],
                             dict(config=adaptive.cfg_name(r.cfg)))
    rels = {}
    runs.drive(case, rec, judge)
