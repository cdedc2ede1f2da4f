"""Offline checkers over the event log of a monitored adaptive run."""
import numpy as np

import adaptive
import oracle
from adaptive import gap_tol, judge_point, tol


def bounds(rec, run, truth, opt):
    """C03."""
    inst = run.inst
    name = adaptive.cfg_name(run.cfg)
    t = gap_tol(opt)
    pl, pu = -np.inf, np.inf
    rl, ru, rt = -np.inf, np.inf, -1.0
    for e in run.of('info'):
        rec.event('bound_pairs_checked')
        lb, ub = e['vLB'], e['vUB']
        ctx = dict(config=name, inst=inst.describe(), vLB=lb, vUB=ub, opt=opt,
                   iteration=e['iteration'])
        if lb > opt + t:
            rec.fail('lower bound above the optimum', **ctx)
        if ub < opt - t:
            rec.fail('upper bound below the optimum', **ctx)
        if lb < pl - 1e-9 * max(1, abs(pl)):
            rec.fail('lower bound decreased', before=pl, **ctx)
        if ub > pu + 1e-7 * max(1, abs(pu)):
            rec.fail('upper bound increased', before=pu, **ctx)
        pl, pu = lb, ub
        if np.isfinite(lb):
            rec.event('incumbents_checked')
            judge_point(rec, inst, e['xLB'], lb, name, 'incumbent')
        if e['row']:
            rec.event('log_rows_checked')
            row = [float(v) for v in e['row']]
            vals = sorted([-row[2], -row[3]])
            want = sorted([lb, ub])
            if any(abs(a - b) > 6e-4 for a, b in zip(vals, want)
                   if np.isfinite(b)):
                rec.fail('iteration log disagrees with the bounds',
                         row=e['row'], **ctx)
            if -row[2] < rl - 2e-3 or -row[3] > ru + 2e-3 or row[1] < rt:
                rec.fail('iteration log is not monotone', row=e['row'], **ctx)
            rl, ru, rt = -row[2], -row[3], row[1]
    for e in run.of('incumbent'):
        if e['found']:
            rec.event('heuristic_improvements')
            judge_point(rec, inst, e['x'], e['v'], name, 'candidate')
    s = run.solver
    if run.budget:
        return
    lb, ub = float(s.vLB), float(s.vUB)
    ctx = dict(config=name, inst=inst.describe(), vLB=lb, vUB=ub, opt=opt)
    if lb < pl - 1e-9 * max(1, abs(pl)) - 1e-7:
        rec.fail('final lower bound decreased', before=pl, **ctx)
    if ub > pu + 1e-7 * max(1, abs(pu)):
        rec.fail('final upper bound increased', before=pu, **ctx)
    if lb > opt + t or ub < opt - t:
        rec.fail('final bounds do not bracket the optimum', **ctx)
    if np.isfinite(lb):
        judge_point(rec, inst, s.xLB, lb, name, 'final incumbent')


def cover(rec, inst, part, nb, first, name):
    flat = [s for sub in part for s in sub]
    ctx = dict(config=name, inst=inst.describe(), partition=part)
    if nb != len(part):
        rec.fail('number of subsets differs from the partition', nb=nb, **ctx)
    if any(len(sub) == 0 for sub in part):
        rec.fail('empty subset', **ctx)
    if sorted(flat) != list(range(inst.N)):
        rec.fail('partition is not an exact cover of the scenarios', **ctx)
    if len(part) < inst.k + 1:
        rec.fail('fewer subsets than tolerated scenarios + 1', **ctx)
    if first:
        if len(part) != inst.k + 1:
            rec.fail('initial partition has the wrong number of subsets',
                     **ctx)
        sizes = [len(sub) for sub in part]
        if max(sizes) - min(sizes) > 1:
            rec.fail('initial partition is not balanced', **ctx)


def view(rec, inst, part, v, name):
    """The partitioned instance shows its partition."""
    ctx = dict(config=name, inst=inst.describe(), partition=part)
    if v['nb'] != len(part) or len(v['proba']) != len(part):
        rec.fail('partition view has the wrong number of subsets',
                 view=v['nb'], **ctx)
        return
    for c, sub in enumerate(part):
        A = inst.A[list(sub)].reshape(-1, inst.n)
        b = np.tile(inst.b, len(sub))
        rec.event('subset_views_checked')
        if v['rows'][c] != len(b) or v['A'][c].shape != A.shape or \
                v['b'][c].shape != b.shape:
            rec.fail('subset view has the wrong size', subset=c, **ctx)
            continue
        mine = np.column_stack([A, b])
        got = np.column_stack([v['A'][c], v['b'][c]])
        mine = mine[np.lexsort(mine.T)]
        got = got[np.lexsort(got.T)]
        if not np.allclose(mine, got, atol=1e-9):
            rec.fail('subset view shows other constraints than its '
                     'scenarios', subset=c, **ctx)
    p = np.sort(np.array(v['proba']))
    if abs(p.sum() - 1) > 1e-9:
        rec.fail('subset probabilities do not sum to one', proba=p, **ctx)
    k = inst.k
    if p[::-1][:k].sum() > v['eps'] + 1e-9:
        rec.fail('partition chance constraint forbids %s subsets'
                 % 'tolerated', proba=p, eps=v['eps'], k=k, **ctx)
    if k + 1 <= len(p) and p[:k + 1].sum() <= v['eps'] + 1e-7:
        rec.fail('partition chance constraint allows too many violated '
                 'subsets', proba=p, eps=v['eps'], k=k, **ctx)


def structure(rec, run, truth):
    """C04."""
    inst = run.inst
    name = adaptive.cfg_name(run.cfg)
    for j, e in enumerate(run.of('load')):
        rec.event('partitions_checked')
        rec.state(inst.ident, sorted(map(sorted, e['partition'])))
        cover(rec, inst, e['partition'], e['nb'], j == 0, name)
        view(rec, inst, e['partition'], e['view'], name)
    last = None
    for e in run.trace:
        if e['ev'] == 'load':
            last = e['partition']
        if e['ev'] != 'info':
            continue
        ctx = dict(config=name, inst=inst.describe(),
                   partition=e['partition'], iteration=e['iteration'])
        if last is not None and e['partition'] != last:
            rec.fail('solver partition differs from the loaded partition',
                     loaded=last, **ctx)
        if len(e['costs']) != len(e['partition']) or \
                e['nb'] != len(e['partition']):
            rec.fail('cost list is not aligned with the partition',
                     costs=e['costs'], **ctx)
            continue
        for sub, cst in zip(e['partition'], e['costs']):
            rec.event('subset_costs_checked')
            true = truth.subset_opt(sub)
            if abs(true - cst) > gap_tol(true):
                rec.fail('stored subset cost is not the cost of the subset',
                         subset=sub, stored=cst, true=true, **ctx)


def _violated(inst, x, chk):
    """Scenarios violated by x; the code's own classification decides inside
    the numerical tolerance band only."""
    v = (inst.A @ np.asarray(x) - inst.b[None, :]).max(axis=1)
    sure = set(np.where(v > 1e-5)[0].tolist())
    band = set(np.where((v > 1e-7) & (v <= 1e-5))[0].tolist())
    return sure | (band & set(chk or []))


def excluded(part, viol):
    return sum(1 for sub in part if viol & set(sub))


def progress(rec, run):
    """C05."""
    inst = run.inst
    name = adaptive.cfg_name(run.cfg)
    chk = None
    viol = None
    seen = {}
    for e in run.trace:
        ctx = dict(config=name, inst=inst.describe())
        if e['ev'] == 'check':
            chk = e['infeasible']
        elif e['ev'] == 'split':
            rec.event('splits_checked')
            viol = _violated(inst, e['x'], chk)
            old, new = e['old'], e['new']
            if excluded(new, viol) < inst.k + 1:
                rec.fail('refinement does not exclude the last relaxed '
                         'solution', old=old, new=new, violated=viol, x=e['x'],
                         **ctx)
            olds = [set(s) for s in old]
            if any(not any(set(s) <= o for o in olds) for s in new):
                rec.fail('refinement moves scenarios between subsets',
                         old=old, new=new, **ctx)
            if len(new) <= len(old):
                rec.fail('refinement does not increase the number of subsets',
                         old=old, new=new, **ctx)
        elif e['ev'] == 'merge':
            rec.event('merges_checked')
            old, new = e['old'], e['new']
            news = [set(s) for s in new]
            if any(not any(set(s) <= w for w in news) for s in old):
                rec.fail('merge does not unite whole subsets', old=old,
                         new=new, **ctx)
            if len(new) >= len(old):
                rec.fail('merge does not reduce the number of subsets',
                         old=old, new=new, **ctx)
            if viol is not None and excluded(new, viol) < inst.k + 1:
                rec.fail('merge readmits the last relaxed solution', old=old,
                         new=new, violated=viol, **ctx)
        elif e['ev'] == 'ub':
            if e['partition'] is None:
                continue
            key = frozenset(frozenset(s) for s in e['partition'])
            rec.event('partitions_visited')
            rec.state(inst.ident, sorted(map(sorted, e['partition'])))
            if key in seen and not (
                    e['vUB'] < seen[key] - 1e-9 * max(1, abs(e['vUB']))) \
                    and e['kind'] == 'partition':
                rec.fail('partition revisited without a decrease of the '
                         'upper bound', partition=e['partition'],
                         vUB=e['vUB'], **ctx)
            seen[key] = min(e['vUB'], seen.get(key, np.inf))
    if run.budget:
        rec.fail('the run does not terminate', config=name,
                 inst=inst.describe(), budget=run.budget)


def relaxed(rec, run, truth):
    """C08."""
    inst = run.inst
    name = adaptive.cfg_name(run.cfg)
    for e in run.of('ub'):
        if e['x'] is None:
            continue
        rec.event('relaxed_' + e['kind'])
        opt = oracle.group_opt(truth, e['partition'], inst.k)
        ctx = dict(config=name, inst=inst.describe(),
                   partition=e['partition'], obj=e['obj'], bnd=e['bnd'],
                   optimum=opt, vLB=e['vLB'], vUB=e['vUB'])
        t = tol(opt) if e['kind'] == 'partition' else gap_tol(opt)
        if e['kind'] == 'first' or (e['vLB'] - tol(opt) <= opt
                                    <= e['vUB'] + tol(opt)):
            rec.event('relaxed_optima_compared')
            if abs(e['obj'] - opt) > t or abs(e['bnd'] - opt) > t:
                rec.fail('relaxed problem not solved to its optimum', **ctx)
        relaxed_point(rec, inst, e['partition'], e['x'], e['z'], e['obj'],
                      ctx, first=e['kind'] == 'first')


def relaxed_point(rec, inst, part, x, z, obj, ctx, first=False):
    x = np.asarray(x)
    if abs(float(inst.c @ x) - obj) > tol(obj):
        rec.fail('relaxed solution does not attain its value', **ctx)
    if (x < -1e-6).any() or (x > 1 + 1e-6).any():
        rec.fail('relaxed solution outside its box', x=x, **ctx)
    if not inst.cont and np.abs(x - np.round(x)).max() > 1e-5:
        rec.fail('relaxed solution is not binary', x=x, **ctx)
    v = (inst.A @ x - inst.b[None, :]).max(axis=1)
    on = 0
    for c, sub in enumerate(part):
        if z[c] > 0.5:
            on += 1
            if v[list(sub)].max() > 2e-5:
                rec.fail('relaxed solution violates a subset it declares '
                         'satisfied', subset=sub, **ctx)
    if on < len(part) - inst.k:
        rec.fail('relaxed solution declares too few subsets satisfied', on=on,
                 **ctx)
