"""Monitored runs of the two solution methods on a generated instance."""
import importlib
import itertools
import contextlib
import os
import random
import tempfile

import numpy as np

import boot
import gen
import oracle
from hooks import Hooks, Inconclusive, StepBudget, Steps, arg, quiet

CONFIGS = [dict(init=i, split=s, big_m=b, merge=mg, lazy=lz, proj=p)
           for i, s, b, mg, lz, p in itertools.product(
               ['random', 'cost'], ['random', 'cost'],
               [None, 'naive', 'belotti', 'song'], [False, True],
               [False, True], ['rescaled_max_violation', 'counter'])
           if not (b is None and lz)]


def cfg_name(c):
    return '%s/%s/%s%s%s/%s' % (c['init'], c['split'], c['big_m'] or 'ind',
                                '+merge' if c['merge'] else '',
                                '+lazy' if c['lazy'] else '', c['proj'][:4])


def load(inst, where=None, name=None):
    """Write the instance in the repository's format and read it back with the
    repository's reader. All instances of a process come from one place, as
    they do for a user who edits a file and reads it again."""
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    d = where or os.path.join(tempfile.gettempdir(),
                              'mon-inst-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, (name or 'inst') + '.csv')
    inst.write(path)
    try:
        return ChanceKnapInstance(path, inst.cont, inst.eps)
    finally:
        os.unlink(path)
        if where is None:
            os.rmdir(d)


def snap(partition):
    return tuple(tuple(int(s) for s in sub) for sub in partition)


def fl(v):
    return None if v is None else float(v)


def vec(x):
    return None if x is None else [float(v) for v in x]


class Sloppy:
    """An optimizer that uses the freedom its MIP gap gives it.

    After a model (chance-constrained by default) was solved, sometimes
    another of its solutions within the gap is taken, and the bound it reports
    is raised within the gap: answers that the real optimizer may give as
    well."""

    def __init__(self, seed, model='CCLPModel'):
        self.model = model
        self.rng = random.Random(seed * 31 + 5)
        self.raised = self.moved = 0

    def _solved(self, model, m):
        rng = self.rng
        model._mon_bound = None
        if not m.IsMIP or m.Status != 2:
            return
        gap, v, top = m.Params.MIPGap, m.ObjVal, m.ObjBound
        if not 0 < v <= top <= v * (1 + gap / 2):
            return
        if rng.random() < 0.6:
            cut = m.addConstr(m.getObjective()
                              <= v * (1 - 0.4 * gap * rng.random()))
            seed = m.Params.Seed
            m.Params.Seed = rng.randrange(1000)
            m.optimize()
            m.Params.Seed = seed
            if m.SolCount == 0 or m.Status != 2 or m.ObjVal < v * (
                    1 - 0.45 * gap):
                m.remove(cut)
                m.optimize()
            else:
                model._mon_cut = cut
                self.moved += 1
            model._mon_bound = max(top, m.ObjBound)
        if rng.random() < 0.5:
            model._mon_bound = max(top, m.ObjBound) + 0.4 * gap * v \
                * rng.random()
            self.raised += 1

    def __enter__(self):
        self.cls = cls = getattr(importlib.import_module(
            'src.optim.' + self.model), self.model)
        self.old = (cls.__dict__.get('solve'), cls.__dict__.get('get_obj_bnd'))
        solve, bound = cls.solve, getattr(cls, 'get_obj_bnd', None)

        def solved(s, *a, **k):
            m = s.grb_model
            if getattr(s, '_mon_cut', None) is not None:
                m.remove(s._mon_cut)
                s._mon_cut = None
            out = solve(s, *a, **k)
            self._solved(s, m)
            return out

        def bounded(s):
            b = getattr(s, '_mon_bound', None)
            return bound(s) if b is None else b
        cls.solve = solved
        if bound:
            cls.get_obj_bnd = bounded
        return self

    def __exit__(self, *a):
        for name, f in zip(('solve', 'get_obj_bnd'), self.old):
            if f is not None:
                setattr(self.cls, name, f)
            elif name in self.cls.__dict__:
                delattr(self.cls, name)


class Run:
    """One monitored adaptive run; .trace is the recorded event log."""

    def __init__(self, inst, cfg, seed, ci=None, gap=1e-4, time_limit=100000,
                 steps=None, big_m_events=False, seed_numpy=True,
                 sloppy=False):
        self.sloppy = Sloppy(seed) if sloppy else contextlib.nullcontext()
        self.seed_numpy = seed_numpy
        self.inst, self.cfg, self.seed = inst, cfg, seed
        self.gap = gap
        self.ci = ci
        self.time_limit = time_limit
        self.trace = []
        self.solver = None
        self.error = None
        self.budget = False
        self.max_steps = steps or 3000000
        self.big_m_events = big_m_events
        self.max_iterations = 40 + 12 * inst.N

    def log(self, ev, **kw):
        kw['ev'] = ev
        self.trace.append(kw)

    # - monitors -
    def _hooks(self, H):
        run = self
        c = 'src.instance.PartitionChanceKnapInstance:' \
            'PartitionChanceKnapInstance.'

        def loaded(s, a, k, t, r):
            part = arg(a, k, 1, 'partition')
            run.log('load', nb=int(arg(a, k, 0, 'nb_subsets')),
                    partition=snap(part), view=run.view(s, part))
        H.attach(c + 'load_partition', after=loaded)

        def ref_before(s, a, k):
            part = arg(a, k, 0, 'partition')
            return snap(part), vec(arg(a, k, 1, 'x_UB'))

        def ref_after(s, a, k, t, r):
            nb, part = r
            run.log('split', old=t[0], x=t[1], new=snap(part), nb=int(nb),
                    vUB=fl(run.solver.vUB) if run.solver else None)
            if sum(e['ev'] == 'split' for e in run.trace) > \
                    run.max_iterations:
                raise StepBudget('more than %d refinements'
                                 % run.max_iterations)
        H.attach('src.refiner.Refiner:Refiner.refine', ref_before, ref_after)

        depth = [0]

        def mrg(kind):
            def before(s, a, k):
                depth[0] += 1
                return snap(arg(a, k, 0, 'partition'))

            def after(s, a, k, t, r):
                depth[0] -= 1
                if depth[0]:
                    return
                part, nb = r
                run.log('merge', kind=kind, old=t, new=snap(part),
                        nb=int(nb), deleted=[int(d) for d in
                                             s.deleted_subsets],
                        vUB=fl(run.solver.vUB) if run.solver else None)
            return before, after
        for kind in ('merge_all', 'merge_feasible'):
            b, a = mrg(kind)
            H.attach('src.Merger:Merger.' + kind, b, a)

        def part_now():
            s = run.solver
            return snap(s.partition) if s is not None else None

        def first(s, a, k, t, r):
            run.log('ub', kind='first', partition=part_now(), x=vec(r[0]),
                    z=vec(r[1]), obj=fl(r[2]), bnd=fl(r[3]),
                    vUB=fl(run.solver.vUB), vLB=fl(run.solver.vLB))
        H.attach('src.UpperBounder:UpperBounder.first_iteration_bound',
                 after=first)

        def pb_before(s, a, k):
            return (part_now(), fl(run.solver.vUB), fl(run.solver.vLB))

        def pb_after(s, a, k, t, r):
            run.log('ub', kind='partition', partition=t[0], x=vec(r[0]),
                    z=vec(r[1]), obj=fl(r[2]), bnd=fl(r[3]), vUB=t[1],
                    vLB=t[2])
        H.attach('src.UpperBounder:UpperBounder.partition_bound', pb_before,
                 pb_after)

        def ab(s, a, k, t, r):
            run.log('quantile', costs=vec(arg(a, k, 0, 'scenario_costs')),
                    bound=fl(r))
        H.attach('src.UpperBounder:UpperBounder.ahmed_et_al_bound', after=ab)

        def lb(s, a, k, t, r):
            run.log('lb', xUB=vec(arg(a, k, 0, 'xUB')), x=vec(r[0]),
                    v=fl(r[1]), vLB=fl(run.solver.vLB),
                    vUB=fl(run.solver.vUB))
        H.attach('src.LowerBounder:LowerBounder.deterministic_bound',
                 after=lb)

        def inc(s, a, k, t, r):
            cand = arg(a, k, 0, 'candidate_sols')
            run.log('incumbent', cands=[vec(x) for x in cand],
                    vUB=fl(arg(a, k, 1, 'vUB')), vLB=fl(arg(a, k, 2, 'vLB')),
                    found=bool(r[0]), x=vec(r[1]), v=fl(r[2]))
        H.attach('src.LowerBounder:LowerBounder.incumbent_bound', after=inc)

        def info(s, a, k, t, r):
            sv = run.solver
            run.log('info', iteration=int(arg(a, k, 0, 'iteration')),
                    nb=int(arg(a, k, 1, 'nb_subsets')),
                    vLB=fl(arg(a, k, 2, 'vLB')), vUB=fl(arg(a, k, 3, 'vUB')),
                    gap=fl(arg(a, k, 4, 'gap')),
                    xLB=vec(getattr(sv, 'xLB', None)),
                    costs=vec(sv.subset_costs), partition=part_now(),
                    row=list(map(str, s.iteration_info[-1]))
                    if getattr(s, 'iteration_info', None) else None)
        H.attach('src.Informer:Informer.store_iteration_info', after=info)

        def cost(s, a, k, t, r):
            sub = arg(a, k, 0, 'subset')
            sub = [int(v) for v in sub] if isinstance(sub, (list, tuple)) \
                else [int(sub)]
            run.log('cost', subset=sub, cost=fl(r[0]), sol=vec(r[1]))
        H.attach('src.Evaluator:Evaluator.subset_cost', after=cost)

        def warm(s, a, k, t, r):
            run.log('warm', z={int(i): float(v) for i, v in r.items()},
                    partition=part_now())
        H.attach('src.Warmstarter:Warmstarter.get_z_start', after=warm)

        def chk(s, a, k, t, r):
            run.log('check', x=vec(arg(a, k, 0, 'var_x_val')), ok=bool(r),
                    infeasible=[int(v) for v in s.infeasible_scenarios],
                    feasible=[bool(v) for v in s.get_feasible_scenarios()])
        H.attach('src.instance.ChanceKnapInstance:'
                 'ChanceKnapInstance.check_feasibility', after=chk)

        def bm(s, a, k, t, r):
            run.log('bigm', partition=part_now(), vUB=fl(arg(a, k, 1, 'vUB')),
                    M=[vec(s.get_vector_big_M(c))
                       for c in range(int(arg(a, k, 0, 'nb_scenarios')))])
        if self.big_m_events:
            H.attach('src.BigMFinder:BigMFinder.update_big_M', after=bm)

    def view(self, p, part):
        """What the partitioned instance shows for its partition, read through
        its getters."""
        nb = int(p.get_nb_scenarios())
        return dict(nb=nb,
                    rows=[int(p.get_nb_constraints(c)) for c in range(nb)],
                    A=[np.array(p.get_matrix_A(c)) for c in range(nb)],
                    b=[np.array(p.get_vector_b(c)) for c in range(nb)],
                    proba=vec(p.get_proba()), eps=float(p.get_epsilon()))

    def go(self):
        from src.BigMFinder import BigMFinder
        from src.solver.AdaptivePartitioner import AdaptivePartitioner
        cfg = self.cfg
        random.seed(self.seed)
        if self.seed_numpy:
            np.random.seed(self.seed % 2**31)
        if self.ci is None:
            self.ci = load(self.inst)
        with Hooks() as H:
            self._hooks(H)
            if H.missing:
                raise Inconclusive('methods not found: %s' % H.missing)
            try:
                with quiet(), self.sloppy, \
                        Steps(self.max_steps, boot.REPO) as st:
                    self.steps = st
                    self.solver = AdaptivePartitioner(
                        self.ci, split_method=cfg['split'],
                        initial_partition_type=cfg['init'],
                        projection_method=cfg['proj'],
                        use_acc_obj=(cfg['split'] == 'cost'),
                        time_limit=self.time_limit, gap=self.gap)
                    self.solver.solve(
                        BigMFinder(self.solver.chance_instance_part),
                        use_big_M=cfg['big_m'] is not None,
                        big_m_method=cfg['big_m'] or 'belotti',
                        use_merger=cfg['merge'], use_lazy=cfg['lazy'])
            except StepBudget as e:
                self.budget = str(e)
        H.check()
        return self

    def of(self, *kinds):
        return [e for e in self.trace if e['ev'] in kinds]


def tol(v):
    return 1e-5 + 1e-6 * abs(v)


def gap_tol(v, gap=1e-4):
    """Slack that a solver run with relative gap `gap` may leave."""
    return gap * abs(v) * 1.01 + 1e-5


def milp_run(inst, method, ci=None, gap=1e-4, steps=3000000):
    from src.solver.MilpSolver import MilpSolver
    ci = ci or load(inst)
    with quiet(), Steps(steps, boot.REPO):
        s = MilpSolver(ci, time_limit=100000, gap=gap)
        s.solve(use_big_m=method is not None, big_m_method=method or 'naive')
    return s


def judge_final(rec, inst, opt, vLB, vUB, x, gap, label):
    """The claims every finished solve makes."""
    t = gap_tol(opt, gap)
    if not (np.isfinite(vLB) and np.isfinite(vUB)):
        rec.fail('finished without finite bounds', label=label,
                 inst=inst.describe(), vLB=vLB, vUB=vUB, opt=opt)
        return
    if abs(vUB - opt) > t:
        rec.fail('final upper bound is not the optimum', label=label,
                 inst=inst.describe(), vLB=vLB, vUB=vUB, opt=opt)
    if abs(vLB - opt) > t:
        rec.fail('final lower bound is not the optimum', label=label,
                 inst=inst.describe(), vLB=vLB, vUB=vUB, opt=opt)
    judge_point(rec, inst, x, vLB, label)


def judge_point(rec, inst, x, v, label, what='returned solution'):
    if x is None:
        rec.fail(what + ' is missing', label=label, inst=inst.describe())
        return
    x = np.asarray(x, float)
    if x.shape != (inst.n,) or not np.all(np.isfinite(x)):
        rec.fail(what + ' is malformed', label=label, x=x,
                 inst=inst.describe())
        return
    if (x < -1e-6).any() or (x > 1 + 1e-6).any():
        rec.fail(what + ' is outside its box', label=label, x=x,
                 inst=inst.describe())
    if not inst.cont and np.abs(x - np.round(x)).max() > 1e-5:
        rec.fail(what + ' is not binary', label=label, x=x,
                 inst=inst.describe())
    nv = oracle.count_violated(inst, x, 2e-5)
    if nv > inst.k:
        rec.fail(what + ' violates too many scenarios', label=label, x=x,
                 violated=nv, allowed=inst.k, inst=inst.describe())
    if abs(float(inst.c @ x) - v) > tol(v) + 1e-4 * (not inst.cont) * 0.1:
        rec.fail(what + ' does not attain the reported value', label=label,
                 x=x, value=float(inst.c @ x), reported=v,
                 inst=inst.describe())
