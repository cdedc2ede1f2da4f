"""C14: running out of time or being interrupted leaves valid results."""
import contextlib
import csv
import os
import random
import signal
import tempfile
import time

import numpy as np

import adaptive
import boot
import gen
import oracle
from hooks import Hooks, Inconclusive, StepBudget, Steps, quiet
import sys

RULE = ('A case is one generated instance and strategy combination. The run '
        'is first made with a frozen clock and its clock reads, solver calls '
        'and execution steps are counted; it is then repeated once per fault: '
        'the budget expires at clock read i (every i), relaxed solve j is cut '
        'short by the solver (no solution, first solution, root node only) '
        'while the budget expires, building model j takes part or all of '
        'the budget, the solver is interrupted inside its '
        'optimization j, an interrupt arrives before optimization j or at a '
        'sampled execution step. After each, state and written files are '
        'judged. Non-trivial: a fault left a gap between the bounds.')
NEED = {'clock_faults': 1500, 'cut_solves': 200, 'step_interrupts': 300,
        'solver_interrupts': 150, 'left_with_gap': 500,
        'files_written': 2000, 'unlimited_equals_limited': 100,
        'milp_faults': 100, 'zero_budget': 100, 'slow_clocks': 300,
        'solver_limits': 1000, 'solves_after_expiry': 50,
        'long_builds': 100, 'interrupts_with_a_solution': 100, 'expired_in_projection': 40, 'expired_in_refinement': 60}
ASSUMPTIONS = ['the solver may be cut short only while the budget expires',
               'interrupts are injected after the constructor returned, '
               'where the program catches them']
LEVEL = 'fault_enumeration'
WATCHDOG = 240
STEPS = [('bounding', 'src.BigMFinder:BigMFinder.update_big_M'),
         ('bounding', 'src.UpperBounder:UpperBounder.first_iteration_bound'),
         ('bounding', 'src.UpperBounder:UpperBounder.partition_bound'),
         ('projection', 'src.LowerBounder:LowerBounder.deterministic_bound'),
         ('refinement', 'src.refiner.Refiner:Refiner.refine'),
         ('refinement', 'src.Merger:Merger.merge_all'),
         ('refinement', 'src.Merger:Merger.merge_feasible')]
BACK = 8     # clock reads that may lie between reading and using the time


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 1213 + 14)
    out = []
    for i in range(220 if q else 1600):
        cfg = dict(rng.choice(adaptive.CONFIGS))
        if rng.random() < 0.5:
            cfg['merge'] = True
        out.append(dict(kind='adaptive', seed=rng.randrange(10**8), cfg=cfg,
                        cap=None if not q else 60))
    for i in range(60 if q else 500):
        out.append(dict(kind='milp', seed=rng.randrange(10**8)))
    return out


class Clock:
    """Virtual time: frozen until the chosen read, past the limit after; or
    advancing by `tick` seconds with each read."""

    def __init__(self, expire_at=None, limit=1000.0, tick=1e-6):
        self.reads = 0
        self.tick = tick
        self.first = None        # first read that showed an expired budget
        self.base = 1.0e9
        self.expired = False
        self.started = False     # the jump came after the start for sure
        self.expire_at = expire_at
        self.limit = limit
        self.moved = 0.0         # time that passed in a known step

    def __call__(self):
        self.reads += 1
        if self.expire_at is not None and self.reads >= self.expire_at:
            self.expired = True
        v = self.at(self.reads) + self.moved
        if self.expired and self.first is None:
            self.first = self.reads
        return v + (10 * self.limit if self.expired else 0.0)

    def at(self, reads):
        return self.base + self.tick * reads

    def elapsed(self, back, early=2):
        """Time passed up to `back` reads ago; a jump at one of the `early`
        first reads counts as before the start."""
        r = self.reads - back
        jump = self.first is not None and \
            (self.started or early < self.first) and self.first <= r
        return self.moved + max(0.0, self.tick * (r - 1)) + \
            (10 * self.limit if jump else 0.0)


@contextlib.contextmanager
def patched(clock):
    names = ('time', 'monotonic', 'perf_counter')
    undo = [(time, n, getattr(time, n)) for n in names]
    real = [f for _, _, f in undo]
    for mod in [m for k, m in sys.modules.items()
                if k.split('.')[0] in ('src', 'main')]:
        # clocks imported by name
        undo += [(mod, n, f) for n, f in vars(mod).items()
                 if any(f is g for g in real)]
    for m, n, _ in undo:
        setattr(m, n, clock)
    try:
        yield
    finally:
        for m, n, f in undo:
            setattr(m, n, f)


class StepInterrupt(Steps):
    """KeyboardInterrupt at execution step `at` of the repository's code."""

    def __init__(self, at, root, limit):
        super().__init__(limit, root)
        self.at = at
        self.armed = False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'mon-steps')
        src = os.path.join(self.root, 'src') + os.sep
        off = m.DISABLE

        def tick(code, *a):
            if not code.co_filename.startswith(src):
                return off
            if not self.armed:
                return
            self.count += 1
            if self.count == self.at:
                raise KeyboardInterrupt
            if self.count > self.limit:
                raise StepBudget('more than %d steps' % self.limit)
        m.register_callback(self.TOOL, m.events.JUMP, tick)
        m.register_callback(self.TOOL, m.events.PY_START, tick)
        m.set_events(self.TOOL, m.events.JUMP | m.events.PY_START)
        m.restart_events()
        return self


class Proxy:
    """Stands in for the solver model during one optimize call, which is
    really interrupted from inside (model.terminate in a callback)."""

    def __init__(self, model, late):
        object.__setattr__(self, '_m', model)
        object.__setattr__(self, '_late', late)

    def __getattr__(self, k):
        return getattr(self._m, k)

    def __setattr__(self, k, v):
        setattr(self._m, k, v)

    def optimize(self, *a):
        # at the first opportunity, or once there is a solution
        self._m.optimize(lambda m, w: m.terminate()
                         if not self._late or w == 4 or
                         (w == 3 and m.cbGet(3003) > 0) else None)


class Fault:
    def __init__(self, kind=None, at=None, mode=None, clock=None):
        self.kind, self.at, self.mode = kind, at, mode
        self.solves = 0
        self.limited = 0
        self.builds = 0
        self.had = False         # ... and had a solution
        self.stopped = False     # the solver reports it was interrupted
        self.fired = False
        self.handed = []         # (solver time limit, budget left for sure)
        self.step = 'costs'      # the step the run is in
        self.step_of = []        # the step of each optimization
        self.last_step = None    # the step in which the budget expired
        self.later = []          # steps begun after it

    def early(self, s):
        """The clock jumped while the run was starting."""
        return self.kind == 'expiry at clock read' and self.at <= 3

    def describe(self):
        return dict(kind=self.kind, at=self.at, mode=self.mode)


def attach(H, fault, clock, state):
    def around(orig, self, a, k):
        if not state['armed']:
            return orig(self, *a, **k)
        fault.solves += 1
        fault.step_of.append(fault.step)
        is_cclp = type(self).__name__ == 'CCLPModel'
        if is_cclp:
            fault.limited += 1
            fault.handed.append(
                (float(self.grb_model.Params.TimeLimit),
                 max(0.0, state['budget'] - clock.elapsed(BACK)),
                 max(0.0, state['budget'] - clock.elapsed(-1, 0)),
                 max(0.0, state['budget'] - clock.elapsed(0)) <= 0))
        if fault.kind == 'before' and fault.solves == fault.at:
            fault.fired = True
            raise KeyboardInterrupt
        if fault.kind == 'inside' and fault.solves == fault.at:
            fault.fired = True
            real = self.grb_model
            self.grb_model = Proxy(real, fault.mode == 'with a solution')
            try:
                return orig(self, *a, **k)
            finally:
                fault.stopped = real.Status == 11
                fault.had = fault.stopped and real.SolCount > 0
                self.grb_model = real
        if fault.kind == 'cut' and is_cclp and fault.limited == fault.at:
            fault.fired = True
            m = self.grb_model
            if fault.mode == 'none':
                m.setParam('TimeLimit', 0)
            elif fault.mode == 'first':
                m.setParam('SolutionLimit', 1)
                m.setParam('Presolve', 0)
            else:
                m.setParam('NodeLimit', 0)
                m.setParam('Cuts', 0)
                m.setParam('Heuristics', 0)
                m.setParam('Presolve', 0)
            try:
                return orig(self, *a, **k)
            finally:
                clock.expired = clock.started = True
                fault.last_step = fault.step
        if fault.kind == 'during' and fault.solves == fault.at:
            fault.fired = True
            try:
                return orig(self, *a, **k)
            finally:
                clock.expired = clock.started = True
                fault.last_step = fault.step
        return orig(self, *a, **k)

    def entry(step):
        def before(self, a, k):
            if not state['armed']:
                return
            fault.step = step
            if fault.last_step is not None and step != fault.last_step:
                fault.later.append(step)
        return before
    for step, path in STEPS:
        H.attach(path, before=entry(step), required=False)
    H.attach('src.optim.OptiModel:OptiModel.solve', around=around)

    def built(self, a, k, t, r):
        if state['armed']:
            fault.builds += 1
            if fault.kind == 'long build' and fault.builds == fault.at:
                fault.fired = True
                clock.moved += fault.mode
    H.attach('src.optim.CCLPModel:CCLPModel.build', after=built,
             required=False)
    if H.missing:
        raise Inconclusive('methods not found: %s' % H.missing)


def one(case, ci, fault, clock, step_at=None, budget=1000.0):
    """Runs the solver once under a fault; returns (solver, outcome)."""
    from src.BigMFinder import BigMFinder
    from src.TimeManager import TimeManager
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    from src.solver.MilpSolver import MilpSolver
    random.seed(case['seed'])
    state = dict(armed=False, budget=budget)
    steps = StepInterrupt(step_at or -1, boot.REPO, 3000000)
    outcome = 'returned'
    s = None
    with Hooks() as H, quiet(), patched(clock):
        attach(H, fault, clock, state)
        with steps:
            # (the budget of the run that follows is not the one before)
            if case['kind'] == 'milp':
                s = MilpSolver(ci, time_limit=budget, gap=1e-4)
                call = dict(use_big_m=case['method'] is not None,
                            big_m_method=case['method'] or 'naive')
                args = ()
            else:
                cfg = case['cfg']
                s = AdaptivePartitioner(
                    ci, split_method=cfg['split'],
                    initial_partition_type=cfg['init'],
                    projection_method=cfg['proj'],
                    use_acc_obj=cfg['split'] == 'cost', time_limit=budget,
                    gap=1e-4)
                args = (BigMFinder(s.chance_instance_part),)
                call = dict(use_big_M=cfg['big_m'] is not None,
                            big_m_method=cfg['big_m'] or 'belotti',
                            use_merger=cfg['merge'], use_lazy=cfg['lazy'])
            state['armed'] = steps.armed = True
            try:
                s.solve(*args, **call)
            except KeyboardInterrupt:
                outcome = 'interrupted'
            except StepBudget:
                outcome = 'endless'
            steps.armed = state['armed'] = False
            before = clock.elapsed(-1)
            TimeManager.set_final_time()
            s.mon_span = (before - BACK * clock.tick, clock.elapsed(0))
    H.check()
    return s, outcome, steps.count


def num(v):
    return float(v)


def judge(rec, inst, opt, case, s, outcome, fault, where):
    ctx = dict(inst=inst.describe(), fault=fault.describe()
               if fault else where, outcome=outcome,
               config=case.get('cfg') and adaptive.cfg_name(case['cfg']),
               method=case.get('method'))
    interrupt = fault is not None and fault.kind in ('before', 'inside',
                                                     'step')
    if outcome == 'endless':
        rec.fail('solving does not return after the fault', **ctx)
        return
    if outcome == 'returned' and fault is not None and (
            fault.stopped or fault.kind == 'before' and fault.fired):
        rec.fail('an external interrupt is lost', **ctx)
    if outcome == 'interrupted' and not interrupt:
        rec.fail('running out of time raised an interrupt', **ctx)
    vLB, vUB = float(s.vLB), float(s.vUB)
    ctx.update(vLB=vLB, vUB=vUB, optimum=opt)
    t = adaptive.gap_tol(opt)
    if np.isnan(vLB) or np.isnan(vUB):
        rec.fail('bounds are not numbers', **ctx)
        return
    if vLB > opt + t:
        rec.fail('lower bound above the optimum after a fault', **ctx)
    if vUB < opt - t:
        rec.fail('upper bound below the optimum after a fault', **ctx)
    if vUB - vLB > t:
        rec.event('left_with_gap')
        rec.nontrivial = True
    for h, left, now, _ in fault.handed if fault else ():
        rec.event('solver_limits')
        if h < now - 100:
            # (a repeated solve is granted what the first one left over)
            rec.fail('an optimization gets less time than is left of the '
                     'budget', limit=h, left=now, **ctx)
            break
        if h > left + 1e-3:
            rec.fail('an optimization may run longer than what is left of '
                     'the time budget', limit=h, left=left, **ctx)
            break
    if fault is not None and fault.last_step is not None:
        rec.event('expired_in_' + fault.last_step)
        if fault.later:
            rec.fail('another step is begun after the time budget expired',
                     expired_in=fault.last_step, begun=fault.later, **ctx)
    late = sum(h[3] for h in fault.handed) if fault else 0
    rec.event('solves_after_expiry', late)
    if late > 2:
        rec.fail('solving goes on after the time budget expired',
                 solves=late, **ctx)
    x = getattr(s, 'xLB', None)
    if np.isfinite(vLB):
        if x is None:
            rec.fail('finite lower bound without an incumbent', **ctx)
        else:
            adaptive.judge_point(rec, inst, x, vLB, str(ctx['fault']),
                                 'incumbent after a fault')
    rec.event('states_judged')
    # the files
    d = tempfile.mkdtemp(prefix='mon-c14-')
    try:
        p = os.path.join(d, 'row.csv')
        try:
            with quiet():
                s.write_all_computation_details(p)
            row = next(csv.reader(open(p)))
        except Exception as e:
            if case['kind'] == 'milp' and outcome == 'interrupted':
                # the program does not write files after interrupting the
                # extended formulation
                return
            if fault is not None and fault.kind == 'step' and \
                    fault.solves == 0:
                # interrupted while solve was still storing its arguments:
                # like the constructor, outside what the program can record
                rec.event('interrupted_at_entry')
                return
            rec.fail('result row cannot be written after a fault',
                     error='%s: %s' % (type(e).__name__, e), **ctx)
            return
        rec.event('files_written')
        lo, hi = s.mon_span
        if not fault.early(s) and not lo - 1e-2 <= num(row[-4]) <= hi + 1e-2:
            rec.fail('result row does not show the time of the run',
                     row=row, want=[lo, hi], **ctx)
        got = [num(v) for v in row[-3:]]
        for g, w in zip(got, (vLB, vUB)):
            if not (g == w or abs(g - w) <= 6e-4):
                rec.fail('result row does not show the bounds', row=row,
                         **ctx)
        if case['kind'] == 'adaptive':
            p = os.path.join(d, 'iter.csv')
            with quiet():
                s.write_iteration_details(p)
            rows = list(csv.reader(open(p)))
            for r in rows:
                if -num(r[2]) > opt + t + 1e-3 or -num(r[3]) < opt - t - 1e-3:
                    rec.fail('iteration log shows invalid bounds', row=r,
                             **ctx)
                    break
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def final(s):
    x = getattr(s, 'xLB', None)
    return (float(s.vLB), float(s.vUB),
            None if x is None else [float(v) for v in x],
            getattr(s, 'iteration', None))


def run(case, rec):
    rng = random.Random(case['seed'] + 3)
    milp = case['kind'] == 'milp'
    inst = gen.make(case['seed'], nmax=8, Nmax=13, mmax=4)
    opt = oracle.truth(inst).opt()
    ci = adaptive.load(inst)
    if milp:
        case = dict(case, method=rng.choice([None, 'naive', 'belotti',
                                             'song']))
    cap = case.get('cap') or 10**9
    # reference run: frozen clock, no fault
    c0, f0 = Clock(), Fault()
    s0, out0, n0 = one(case, ci, f0, c0)
    judge(rec, inst, opt, case, s0, out0, f0, 'none')
    adaptive.judge_final(rec, inst, opt, float(s0.vLB), float(s0.vUB),
                         s0.xLB, 1e-4, 'frozen clock')
    # the same with an enormous budget
    s1, out1, _ = one(case, ci, Fault(), Clock(limit=1e9), budget=1e9)
    rec.event('unlimited_equals_limited')
    if final(s0) != final(s1):
        rec.fail('the budget changes the result although it does not expire',
                 inst=inst.describe(), limited=final(s0), huge=final(s1))
    f2 = Fault('zero budget')
    s2, out2, _ = one(case, ci, f2, Clock(), budget=0)
    rec.event('zero_budget')
    judge(rec, inst, opt, case, s2, out2, f2, None)
    reads, solves, cclp = c0.reads, f0.solves, f0.limited
    rec.state(case['seed'], reads, solves, cclp)

    def pick(seq):
        seq = list(seq)
        return seq if len(seq) <= cap else sorted(rng.sample(seq, cap))
    for i in pick(range(1, reads + 1)):
        f = Fault('expiry at clock read', i)
        s, out, _ = one(case, ci, f, Clock(expire_at=i))
        rec.event('clock_faults')
        judge(rec, inst, opt, case, s, out, f, None)
    for u in (0.3, 0.9, 1.6):
        # a slow machine: every clock read costs a share of the budget
        f = Fault('slow clock', u)
        limit = rng.choice([500.0, 1000.0, 4000.0])
        s, out, _ = one(case, ci, f, Clock(tick=limit * u / reads),
                        budget=limit)
        rec.event('slow_clocks')
        judge(rec, inst, opt, case, s, out, f, None)
    for j in range(1, cclp + 1):
        for mode in ('none', 'first', 'root'):
            c, f = Clock(), Fault('cut', j, mode)
            s, out, _ = one(case, ci, f, c)
            rec.event('cut_solves', int(f.fired))
            judge(rec, inst, opt, case, s, out, f, None)
    for j in rng.sample(range(1, f0.builds + 1), min(f0.builds, 2)):
        for amount in (rng.choice([200.0, 600.0, 990.0]), 3000.0):
            f = Fault('long build', j, amount)
            s, out, _ = one(case, ci, f, Clock())
            rec.event('long_builds', int(f.fired))
            judge(rec, inst, opt, case, s, out, f, None)
    for step in ('costs', 'bounding', 'projection', 'refinement'):
        # the budget expires while optimization j runs
        js = [j + 1 for j, w in enumerate(f0.step_of) if w == step]
        for j in rng.sample(js, min(len(js), 3 if case.get('cap') else 12)):
            f = Fault('during', j)
            s, out, _ = one(case, ci, f, Clock())
            rec.event('expiries_during_solves', int(f.fired))
            judge(rec, inst, opt, case, s, out, f, None)
    for j in pick(range(1, solves + 1))[:12]:
        for kind, mode in (('before', None), ('inside', None),
                           ('inside', 'with a solution')):
            f = Fault(kind, j, mode)
            s, out, _ = one(case, ci, f, Clock())
            rec.event('interrupts_with_a_solution', int(f.had))
            if out == 'interrupted':
                rec.event('solver_interrupts')
            judge(rec, inst, opt, case, s, out, f, None)
    for _ in range(10):
        at = rng.randint(2, max(2, n0))
        f = Fault('step', at)
        s, out, _ = one(case, ci, f, Clock(), step_at=at)
        if out == 'interrupted':
            rec.event('step_interrupts')
        judge(rec, inst, opt, case, s, out, f, None)
    if milp:
        rec.event('milp_faults', reads + 3 * cclp + 2 * solves)
    rec.sample = dict(instance=inst.describe(), kind=case['kind'],
                      clock_reads=reads, optimizations=solves,
                      relaxed_solves=cclp, steps=n0)
