"""C12: the lower-bound step returns feasible points from the right
scenarios."""
import contextlib
import itertools
import math
import random

import numpy as np

import adaptive
import gen
import oracle
from hooks import quiet, Steps
import boot
from checks import runs
from checks.c09 import Judge

RULE = ('History cases: one LowerBounder object lives through a sequence of '
        'relaxed solutions (real optima of random partitions, scaled and '
        'random points) with a rising lower bound; every projection is '
        'compared with the optima of all scenario sets that the selection '
        'rule admits, every heuristic call with a search over the candidates. '
        'Run cases: the same judgement on the calls of real adaptive runs. '
        'Non-trivial: a projection where the admissible sets exclude a '
        'scenario, or a heuristic call that had to skip a better candidate.')
NEED = {'projections': 1200, 'projections_counter': 300,
        'no_better_bound': 60, 'candidate_calls': 900,
        'candidates_skipped': 150, 'projections_using_the_gap': 20,
        'histories_of_many_scenarios': 20,
        'selection_matters': 300}
ASSUMPTIONS = ['violations between 1e-5 and 2e-3 (the rounding zone of the '
               'method) are not judged', 'the lower bound passed to the '
               'object never decreases, as in the solver']


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 613 + 12)
    out = [dict(kind='hist', seed=rng.randrange(10**8))
           for _ in range(320 if q else 5000)]
    out += [dict(kind='hist', large=True, seed=rng.randrange(10**8))
            for _ in range(24 if q else 300)]
    out += [dict(c, kind='run') for c in
            runs.make_cases(tier, seed, 12, 120, 1500, per=4)]
    return out


class Model:
    """What the projection step may enforce after a given history."""

    def __init__(self, inst, method):
        self.inst, self.method = inst, method
        self.count = np.zeros(inst.N)
        self.sure = True

    def saw(self, flags):
        self.count += np.asarray(flags, float)

    def index(self, x):
        """Selection index per scenario, or None when undecidable."""
        i = self.inst
        if self.method == 'counter':
            return -self.count
        v = (i.A @ np.asarray(x, float)) - i.b[None, :]
        if ((v > 1e-5) & (v < 2e-3)).any():
            return None
        norm = np.linalg.norm(i.A, axis=2)
        norm[norm == 0] = 1.0
        return (np.where(v < 1e-3, 0.0, v) / norm).max(axis=1)

    def sets(self, x):
        """(must, ties, how many of the ties) or None."""
        idx = self.index(x)
        if idx is None:
            return None
        need = self.inst.N - self.inst.k
        cut = np.sort(idx)[need - 1]
        eps = 1e-9 * max(1.0, abs(cut))
        must = [s for s in range(self.inst.N) if idx[s] < cut - eps]
        ties = [s for s in range(self.inst.N) if abs(idx[s] - cut) <= eps]
        return must, ties, need - len(must)

    def values(self, t, x):
        """Range of optima over the admissible sets, and whether exact."""
        st = self.sets(x)
        if st is None:
            return None
        must, ties, r = st
        if math.comb(len(ties), r) <= 130:
            vals = [t.subset_opt(must + list(c))
                    for c in itertools.combinations(ties, r)]
            return vals, st
        return [t.subset_opt(must + ties),
                t.subset_opt(must) if must else float(self.inst.c.sum())], st


def judge_projection(rec, inst, t, model, xUB, vLB, x, v, ctx):
    got = model.values(t, xUB)
    rec.event('projections')
    rec.event('projections_counter' if model.method == 'counter'
              else 'projections_violation')
    if got is None:
        rec.event('projections_not_judged')
        return
    vals, (must, ties, r) = got
    ctx = dict(ctx, inst=inst.describe(), xUB=xUB, vLB=vLB, value=v,
               admissible=sorted(set(np.round(vals, 6)))[:8], must=must,
               ties=ties, choose=r)
    if len(must) + len(ties) < inst.N:
        rec.event('selection_matters')
        rec.nontrivial = True
    lo, hi = min(vals), max(vals)
    many = math.comb(len(ties), r) > 130
    slack = adaptive.gap_tol(hi)
    if x is None or v is None or v < -1e5:
        rec.event('no_better_bound')
        if lo > vLB + slack:
            rec.fail('projection claims no bound although its problem can '
                     'improve the lower bound', **ctx)
        return
    if many:
        good = lo - slack <= v <= hi + slack
    else:
        good = any(abs(v - a) <= slack for a in vals)
    if not good:
        rec.fail('projection is not the optimum over the right scenarios',
                 **ctx)
    if abs(float(inst.c @ np.asarray(x)) - v) > adaptive.tol(v):
        rec.fail('projection value is not attained by its point', x=x, **ctx)
    nv = oracle.count_violated(inst, x, 2e-5)
    if nv > inst.k:
        rec.fail('projection returns a point violating too many scenarios',
                 x=x, violated=nv, **ctx)
    sat = (inst.A @ np.asarray(x, float) - inst.b[None, :]).max(axis=1) <= \
        2e-5
    if any(not sat[s] for s in must) or sum(sat[s] for s in ties) < r:
        rec.fail('projection does not enforce the least violated scenarios',
                 x=x, satisfied=[s for s in range(inst.N) if sat[s]], **ctx)


def judge_candidates(rec, inst, cands, vUB, vLB, found, x, v, ctx):
    rec.event('candidate_calls')
    best, skipped = None, 0
    for c in cands:
        c = np.asarray(c, float)
        obj = float(inst.c @ c)
        near = 1e-7 * (1 + abs(obj))
        j = Judge(inst, c)
        if not j.sure:
            rec.event('candidate_calls_not_judged')
            return
        if not j.ok:
            skipped += 1
            continue
        # exact: integral objective and point, no rounding to allow for
        exact = (inst.c == np.round(inst.c)).all() and \
            (c == np.round(c)).all()
        if obj <= vUB - (0 if exact else near) and obj >= vLB + near:
            if best is None or obj > best:
                best = obj
        elif obj > vUB + near:
            skipped += 1
    if skipped:
        rec.event('candidates_skipped')
        if best is not None:
            rec.nontrivial = True
    ctx = dict(ctx, inst=inst.describe(), vUB=vUB, vLB=vLB, found=found,
               value=v, want=best, num=len(cands))
    if not found:
        if best is not None:
            rec.fail('candidate heuristic misses an improving feasible '
                     'candidate', **ctx)
        return
    rec.event('candidates_accepted')
    x = np.asarray(x, float)
    near = 1e-7 * (1 + abs(v))
    if not any(np.array_equal(x, np.asarray(c, float)) for c in cands):
        rec.fail('candidate heuristic returns a point it was not given', x=x,
                 **ctx)
    if abs(float(inst.c @ x) - v) > near:
        rec.fail('candidate heuristic reports a value its point does not '
                 'attain', x=x, **ctx)
    if not Judge(inst, x).ok:
        rec.fail('candidate heuristic returns an infeasible point', x=x,
                 **ctx)
    if v > vUB + near or v < vLB - near:
        rec.fail('candidate heuristic returns a value outside the bounds',
                 **ctx)
    if best is not None and v < best - near:
        rec.fail('candidate heuristic does not return the best candidate',
                 **ctx)


def relaxed_point(rng, inst, t):
    """A point as a relaxed problem would return it."""
    rs = np.random.RandomState(rng.randrange(2**31))
    kind = rng.choice(['sub', 'sub', 'sub', 'ones', 'rand', 'scen', 'near',
                       'near'])
    if kind == 'ones':
        return np.ones(inst.n)
    if kind == 'rand':
        return rs.rand(inst.n) if inst.cont else \
            (rs.rand(inst.n) < 0.6).astype(float)
    sub = rng.sample(range(inst.N), 1 if kind == 'scen' else
                     rng.randint(1, inst.N))
    if inst.cont:
        A = inst.A[sub].reshape(-1, inst.n)
        x = oracle.lp(inst.c, A, np.tile(inst.b, len(sub)), inst.n)[1]
        if kind == 'near':
            # small violations of several scenarios
            d = 10 ** rng.uniform(-2.6, 0.3)
            x = np.clip(x * (1 + d / max(1.0, float(inst.b.max()))), 0, 1)
        return x
    if kind == 'near':
        v = t.V[:, sub].max(axis=1)
        small = np.where((v > 0.01) & (v < 1.5))[0]
        if len(small):
            return t.X[rng.choice(list(small))].copy()
    ok = t.sat[:, sub].all(axis=1)
    return t.X[ok][int(np.argmax(t.obj[ok]))].copy()


def history(case, rec):
    from src.LowerBounder import LowerBounder
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=8, Nmax=13, mmax=4)
    # an optimizer that uses the freedom of its gap, on an objective that
    # leaves it some
    sloppy = rng.random() < 0.3
    if sloppy:
        inst = gen.make(case['seed'], nmax=12, Nmax=13, mmax=4, cont=False,
                        n=rng.randint(7, 11))
        c = 5000 + np.array([rng.randint(0, 30) / 10
                             for _ in range(inst.n)])
        inst = gen.Inst(inst.A, inst.b, c, inst.eps, inst.family, False,
                        inst.ident)
    if case.get('large'):
        sloppy = False
        N = rng.choice([180, 400, 640, 900])
        inst = gen.make(case['seed'], cont=False, n=rng.randint(4, 7), N=N,
                        m=1 if N > 600 else rng.randint(1, 2),
                        eps=rng.choice([0.02, 0.1, 0.25]))
    t = oracle.truth(inst)
    opt = t.opt()
    ci = adaptive.load(inst)
    method = rng.choice(['counter', 'rescaled_max_violation'])
    model = Model(inst, method)
    vLB = -np.inf
    trail, past = [], []
    free_opt = adaptive.Sloppy(case['seed'], 'DeterModel')
    with quiet(), free_opt if sloppy else contextlib.nullcontext(), Steps(5000000, boot.REPO):
        lb = LowerBounder(ci, method)
        # in some histories few points come back again and again
        back = rng.choice([0.0, 0.3, 0.75])
        free = rng.random() < 0.4
        for step in range(12 if back > 0.5 else 8):
            if past and rng.random() < back:
                x = past[-1 if rng.random() < 0.5 else
                         rng.randrange(len(past))].copy()
            else:
                x = relaxed_point(rng, inst, t)
            past.append(x)
            ci.check_feasibility(x)
            flags = ci.get_feasible_scenarios()
            lb.save_feasible_scenarios(flags)
            j = Judge(inst, x)
            if not j.sure:
                return rec.event('histories_cut_short')
            model.saw([not b for b in j.bad])
            lb.vLB = vLB
            rec.state(case['seed'], j.bad)
            xl, v = lb.deterministic_bound(x)
            trail.append([method, step, round(float(v), 4)])
            judge_projection(rec, inst, t, model, x, vLB, xl, v,
                             dict(step=step, method=method))
            if xl is not None and v > vLB and rng.random() < 0.7 and not free:
                vLB = float(v)
            if rng.random() < 0.4 and not free:
                # an incumbent found elsewhere
                vLB = max(vLB, opt - rng.choice([0.0, 0.01, 0.1, 0.3])
                          * abs(opt))
            cands = [relaxed_point(rng, inst, t)
                     for _ in range(rng.randint(0, 6))]
            if cands and rng.random() < 0.3:
                cands.append(cands[0].copy())
            vu = opt + rng.choice([0.0, 0.02, 0.2]) * abs(opt) + 1e-4
            if rng.random() < 0.2:
                vu = np.inf
            elif cands and rng.random() < 0.3:
                vu = max(vLB, float(inst.c @ np.asarray(rng.choice(cands))))
            bound = rng.choice([-np.inf, vLB, opt * rng.random()])
            bound = min(bound, vu)
            f, xc, vc = lb.incumbent_bound(cands, vu, bound, verbose=False)
            judge_candidates(rec, inst, cands, vu, bound, bool(f), xc, vc,
                             dict(step=step))
    if case.get('large'):
        rec.event('histories_of_many_scenarios')
    rec.event('projections_using_the_gap', free_opt.moved)
    rec.sample = dict(instance=inst.describe(), optimum=opt, steps=trail)


def run(case, rec):
    if case['kind'] == 'hist':
        return history(case, rec)

    def judge(r, t, opt):
        name = adaptive.cfg_name(r.cfg)
        model = Model(r.inst, r.cfg['proj'])
        pend = None
        ok = True
        for e in r.trace:
            if e['ev'] == 'check':
                j = Judge(r.inst, e['x'])
                ok = ok and j.sure
                pend = [not b for b in j.bad]
            elif e['ev'] == 'lb' and ok:
                if pend is not None:
                    model.saw(pend)
                pend = None
                judge_projection(rec, r.inst, t, model, e['xUB'], e['vLB'],
                                 e['x'], e['v'], dict(config=name))
            elif e['ev'] == 'incumbent':
                judge_candidates(rec, r.inst, e['cands'], e['vUB'], e['vLB'],
                                 e['found'], e['x'], e['v'],
                                 dict(config=name))
    runs.drive(case, rec, judge)
