"""C19: warm starts and discarded subsets refer to the right subsets."""
import numpy as np

import adaptive
import merging
import oracle
from adaptive import gap_tol
from checks import runs
from hooks import arg

RULE = ('A case is one generated instance run with six strategy combinations '
        '(merging favoured); each warm start is judged from the partition and '
        'indicators of the previous relaxed solve and the current partition, '
        'each discarded subset from its independent optimum and the current '
        'lower bound. Non-trivial: a warm start after a merge or a discarded '
        'subset was judged.')
NEED = {'warm_starts': 200, 'warm_starts_after_merge': 15,
        'discarded_subsets': 30, 'merges_of_three_or_more': 100,
        'direct_hints': 300}


def cases(tier, seed):
    return runs.make_cases(tier, seed, 19, 380, 4500, merge_bias=0.75,
                           sloppy=0.15) \
        + merging.cases(tier, seed, 19)


class Run(adaptive.Run):
    def _hooks(self, H):
        super()._hooks(H)
        run = self

        def cclp(s, a, k, t, r):
            prune = arg(a, k, 3, 'prune_indices')
            if prune is None or s is not run.solver:
                return
            run.log('prune', idx=[int(i) for i in prune],
                    partition=adaptive.snap(s.partition), vLB=float(s.vLB))
        H.attach('src.solver.Solver:Solver.solve_cclp_model', after=cclp)


def judge(rec, run, truth):
    inst = run.inst
    name = adaptive.cfg_name(run.cfg)
    prev = None
    merged = False
    cost = {}
    for e in run.trace:
        if e['ev'] == 'cost':
            cost[frozenset(e['subset'])] = e['cost']
        elif e['ev'] == 'merge':
            merged = True
        elif e['ev'] == 'warm':
            rec.event('warm_starts')
            if merged:
                rec.event('warm_starts_after_merge')
                rec.nontrivial = True
            part = e['partition']
            ctx = dict(config=name, inst=inst.describe(), partition=part,
                       hint=e['z'], previous=prev)
            if any(i < 0 or i >= len(part) for i in e['z']):
                rec.fail('warm start outside the partition', **ctx)
            elif prev is not None:
                sel = [set(s) for s, z in zip(*prev) if z > 0.5]
                ties = [z for z in prev[1] if 1e-9 < abs(z - 1) < 0.5]
                for i, v in e['z'].items():
                    if v > 0.5 and not any(set(part[i]) & s for s in sel):
                        rec.fail('warm start proposes a subset that does not '
                                 'descend from a satisfied one', index=i,
                                 **ctx)
                    if v <= 0.5 and set(part[i]) in sel:
                        rec.fail('warm start refuses a satisfied subset',
                                 index=i, **ctx)
                for i, s in enumerate(part):
                    if not ties and set(s) in sel and \
                            e['z'].get(i, 0) <= 0.5:
                        rec.fail('warm start omits an untouched satisfied '
                                 'subset', index=i, **ctx)
            rec.state(case_sig(e))
        elif e['ev'] == 'prune':
            for i in e['idx']:
                rec.event('discarded_subsets')
                rec.nontrivial = True
                ctx = dict(config=name, inst=inst.describe(), index=i,
                           partition=e['partition'], vLB=e['vLB'])
                if not 0 <= i < len(e['partition']):
                    rec.fail('discarded index outside the partition', **ctx)
                    continue
                best = truth.subset_opt(e['partition'][i])
                # the cost the code itself computed decides how strictly the
                # comparison with the bound can be made
                mine = cost.get(frozenset(e['partition'][i]), best)
                slack = gap_tol(best) if abs(mine - best) > 1e-6 else \
                    -1e-7 * max(1, abs(best))
                if best > e['vLB'] + slack:
                    rec.fail('discarded subset could improve the lower bound',
                             best=best, **ctx)
        elif e['ev'] == 'ub':
            prev = (e['partition'], e['z']) if e['z'] is not None else None
            merged = False


def case_sig(e):
    return [e['partition'], sorted(e['z'])]


def direct(case, rec):
    """Warm start after one merge of a random partition, the indicators known
    for all old subsets or (a split added some) only for the first ones."""
    from src.Warmstarter import Warmstarter
    ws = Warmstarter()
    for h in merging.histories(case, rec):
        rng = h['rng']
        known = rng.randint(1, len(h['old']))
        if rng.random() < 0.5:
            known = len(h['old'])
        z = np.array([float(rng.random() < 0.6) for _ in range(known)])
        hint = ws.get_z_start(z, h['merger'].deleted_subsets)
        rec.event('direct_hints')
        groups = merging.survivors(h)
        c = dict(merging.ctx(h), z=z, hint=hint)
        if any(g is None for g in groups):
            continue
        if any(i < 0 or i >= len(groups) for i in hint):
            rec.fail('warm start outside the partition', **c)
            continue
        sel = {i for i in range(known) if z[i] > 0.5}
        for i, v in hint.items():
            if v > 0.5 and not sel & set(groups[i]):
                rec.fail('warm start proposes a subset that does not '
                         'descend from a satisfied one', index=i, **c)
        for i, g in enumerate(groups):
            if len(g) == 1 and g[0] in sel and not hint.get(i, 0) > 0.5:
                rec.fail('warm start omits an untouched satisfied subset',
                         index=i, **c)


def run(case, rec):
    if case.get('merging'):
        return direct(case, rec)
    import gen
    inst = gen.make(case['seed'], **case['kw'])
    truth = oracle.truth(inst)
    ci = adaptive.load(inst)
    done = []
    for j, cfg in enumerate(case['configs']):
        r = Run(inst, cfg, case['seed'] + j, ci=ci).go()
        rec.event('runs')
        judge(rec, r, truth)
        done.append([adaptive.cfg_name(cfg), len(r.of('warm')),
                     len(r.of('merge'))])
    rec.sample = dict(instance=inst.describe(), runs_warm_merges=done)
