"""C11: deterministic models are exact under any sequence of changes."""
import random

import numpy as np

import adaptive
import gen
import oracle
from hooks import quiet, Steps
import boot

RULE = ('A case is one generated instance: every scenario and random sets are '
        'evaluated and compared with an independent optimum, then one '
        'deterministic model lives through a random history of additions and '
        'removals (single and list) with a solve after every few changes. '
        'Non-trivial: a removal raised the optimum and an addition lowered '
        'it.')
NEED = {'subset_costs': 2000, 'history_solves': 2000, 'removals_that_matter':
        100, 'empty_models': 20, 'large_instances': 30,
        'wide_instances': 40}
ASSUMPTIONS = ['a scenario is only added while absent and removed while '
               'present', 'binary optima up to the default relative gap']


def cases(tier, seed):
    n = 700 if tier == 'quick' else 8000
    rng = random.Random(seed * 431 + 11)
    out = [dict(seed=rng.randrange(10**8)) for _ in range(n)]
    # many scenarios: sets of up to 200
    return out + [dict(seed=rng.randrange(10**8), large=True)
                  for _ in range(40 if tier == 'quick' else 500)] + [
        # many items, large coefficients
        dict(seed=rng.randrange(10**8), wide=True)
        for _ in range(60 if tier == 'quick' else 800)]


def judge(rec, inst, t, scen, v, x, what, **more):
    best = t.subset_opt(scen) if len(scen) else float(inst.c.sum())
    ctx = dict(inst=inst.describe(), scenarios=sorted(scen), value=v,
               optimum=best, **more)
    slack = adaptive.tol(best) if inst.cont else adaptive.gap_tol(best)
    if abs(v - best) > slack:
        rec.fail(what + ' is not the optimum', **ctx)
    x = np.asarray(x, float)
    if x.shape != (inst.n,) or (x < -1e-6).any() or (x > 1 + 1e-6).any() or \
            (not inst.cont and np.abs(x - np.round(x)).max() > 1e-5):
        rec.fail(what + ' comes with a malformed point', x=x, **ctx)
        return best
    if abs(float(inst.c @ x) - v) > adaptive.tol(v):
        rec.fail(what + ' is not attained by its point', x=x, **ctx)
    for s in scen:
        if (inst.A[s] @ x - inst.b).max() > 2e-5:
            rec.fail(what + ' comes with a point violating a scenario',
                     scenario=s, x=x, **ctx)
            break
    return best


def run(case, rec):
    from src.Evaluator import Evaluator
    from src.optim.DeterModel import DeterModel
    rng = random.Random(case['seed'])
    large = case.get('large')
    kw = dict(nmax=9, Nmax=12, mmax=5)
    if large:
        kw = dict(nmax=8, N=rng.randint(30, 200), mmax=4)
    elif case.get('wide'):
        rec.event('wide_instances')
        kw = dict(family=rng.choice(['wide', 'wide', 'orlib', 'bigcoef']),
                  n=rng.randint(15, 40), Nmax=8, mmax=3)
    inst = gen.make(case['seed'], **kw)
    t = oracle.truth(inst)
    ci = adaptive.load(inst)
    ev = Evaluator(ci)
    rec.state(inst.family, inst.cont, inst.N, inst.n)
    with quiet(), Steps(3000000, boot.REPO):
        for s, v in enumerate(ev.get_all_single_scenario_costs()):
            rec.event('subset_costs')
            if large:
                rec.event('large_instances', int(s == 0))
            best = t.subset_opt([s])
            if abs(v - best) > adaptive.gap_tol(best):
                rec.fail('single-scenario cost is not the optimum',
                         inst=inst.describe(), scenario=s, value=v,
                         optimum=best)
        sets = [sorted(rng.sample(range(inst.N),
                                  rng.randint(1, inst.N)))
                for _ in range(4)] + [[rng.randrange(inst.N)]]
        for s in sets:
            arg = rng.sample(s, len(s))
            v, x = ev.subset_cost(arg)
            rec.event('subset_costs')
            judge(rec, inst, t, s, v, x, 'subset cost')
        s = rng.randrange(inst.N)
        v, x = ev.subset_cost(s)
        judge(rec, inst, t, [s], v, x, 'scenario cost')
        cs, xs = ev.partition_cost(sets)
        if len(cs) != len(sets) or len(xs) != len(sets):
            rec.fail('partition cost has the wrong length',
                     inst=inst.describe())
        for s, v, x in zip(sets, cs, xs):
            rec.event('subset_costs')
            judge(rec, inst, t, s, v, x, 'partition cost')
        # one model through a history
        cur = set(rng.sample(range(inst.N), rng.randint(1, inst.N)))
        model = DeterModel(ci)
        start = sorted(cur)
        model.build(start if rng.random() < 0.7 or len(start) > 1
                    else start[0])
        hist = [['build', start]]
        last = None
        up = down = False
        for _ in range(5 if large else 12):
            model.solve()
            best = judge(rec, inst, t, cur, model.get_obj_val(),
                         model.get_var_x_val(),
                         'cost after a history of changes',
                         history=hist[-8:])
            rec.event('history_solves')
            rec.state(case['seed'], sorted(cur))
            if last is not None and hist[-1][0] == 'remove' and \
                    best > last + 1e-6:
                rec.event('removals_that_matter')
                up = True
            if last is not None and hist[-1][0] == 'add' and \
                    best < last - 1e-6:
                down = True
            last = best
            if not cur:
                rec.event('empty_models')
            # several changes may come between two solves
            many = rng.choice([1, 1, 2, 4])
            if many > 1:
                rec.event('changes_between_solves', many)
            for _ in range(many):
                absent = [s for s in range(inst.N) if s not in cur]
                do = rng.choice(['add', 'remove', 'remove', 'swap'])
                if do in ('remove', 'swap') and cur:
                    out = rng.sample(sorted(cur),
                                     len(cur) if rng.random() < 0.3
                                     else rng.randint(1, len(cur)))
                    if len(out) == 1 and rng.random() < 0.5:
                        model.remove(out[0])
                    else:
                        model.remove(list(out))
                    cur -= set(out)
                    hist.append(['remove', out])
                if do in ('add', 'swap') and absent:
                    new = rng.sample(absent, rng.randint(1, len(absent)))
                    if len(new) == 1 and rng.random() < 0.5:
                        model.add(new[0])
                    else:
                        model.add(list(new))
                    cur |= set(new)
                    hist.append(['add', new])
    rec.nontrivial = up and down
    rec.sample = dict(instance=inst.describe(), history=hist[:6])
