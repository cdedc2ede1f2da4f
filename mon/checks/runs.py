"""Shared case generation for the checks that judge adaptive runs."""
import random

import adaptive
import gen
import oracle
from checks.c02 import case_kw, huge_kw


def make_cases(tier, seed, salt, quick, thorough, per=6, merge_bias=0.6,
               wide=True, sloppy=0.0):
    n = quick if tier == 'quick' else thorough
    rng = random.Random(seed * 1000 + salt)
    awk = gen.awkward_pairs(100)
    out = []
    for _ in range(n):
        cfgs = [dict(c) for c in rng.sample(adaptive.CONFIGS, per)]
        for c in cfgs:
            if rng.random() < merge_bias:
                c['merge'] = True
        out.append(dict(seed=rng.randrange(10**8), kw=case_kw(rng, awk),
                        configs=cfgs))
    for c in out[:int(n * sloppy)]:
        c['sloppy'] = True
    for _ in range(n // 30):
        cfgs = [dict(c) for c in rng.sample(adaptive.CONFIGS, 2)]
        for c in cfgs:
            c['split'] = 'random'
        out.insert(0, dict(seed=rng.randrange(10**8), kw=huge_kw(rng),
                           configs=cfgs))
    if not wide:
        out = [c for c in out if c['kw'].get('n', 0) < 15]
    return out


def drive(case, rec, judge, **kw):
    inst = gen.make(case['seed'], **case['kw'])
    truth = oracle.truth(inst)
    opt = truth.opt()
    ci = adaptive.load(inst)
    done = []
    for j, cfg in enumerate(case['configs']):
        r = adaptive.Run(inst, cfg, case['seed'] + j, ci=ci,
                         sloppy=case.get('sloppy', False), **kw).go()
        if case.get('sloppy'):
            rec.event('answers_within_the_gap',
                      r.sloppy.moved + r.sloppy.raised)
        rec.event('runs')
        ns, nm = len(r.of('split')), len(r.of('merge'))
        rec.event('splits', ns)
        rec.event('merges', nm)
        rec.event('run_merges_of_three_or_more', sum(
            1 for e in r.of('merge') if len(e['old']) - len(e['new']) > 1))
        rec.event('run_splits_of_two_or_more', sum(
            1 for e in r.of('split') if len(e['new']) - len(e['old']) > 1))
        if ns:
            rec.nontrivial = True
        judge(r, truth, opt)
        done.append([adaptive.cfg_name(cfg), ns, nm])
    rec.sample = dict(instance=inst.describe(), optimum=opt,
                      runs_splits_merges=done)
    return inst, truth, opt
