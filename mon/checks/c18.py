"""C18: solves are independent of history and leave their inputs unchanged."""
import contextlib
import csv
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

import numpy as np

import adaptive
import boot
import gen
import hooks
from checks import c14
from rec import clean

RULE = ('A case is one generated instance with several solves (adaptive '
        'strategies and extended formulations). Each solve is first made on '
        'its own fresh instance object; then all are repeated in another '
        'order (and up to hours later) on one shared instance object, interleaved with solves of '
        'problems read from a file of the same name (same size and other '
        'data; same data with the other variable type and epsilon) and with solves with a wide gap, '
        'without time or broken off, and some in fresh processes with '
        'other hash seeds. Partitions, bounds and points of the runs '
        'and the files they write (times aside) are compared, and every getter of the instance before and after. '
        'Non-trivial: a compared run had at least one split.')
NEED = {'runs': 1000, 'history_comparisons': 400, 'input_comparisons': 400,
        'process_comparisons': 60, 'runs_with_splits': 120,
        'milp_comparisons': 100, 'program_comparisons': 40,
        'disturbed_by_gap': 100, 'disturbed_by_time': 100,
        'disturbed_by_broken': 100}
ASSUMPTIONS = ['same machine, one solver thread where the code sets it']
WATCHDOG = 300
where = None


def setup(w, tier, seed):
    global where
    where = w


def cases(tier, seed):
    rng = random.Random(seed * 811 + 18)
    out = []
    for i in range(110 if tier == 'quick' else 1500):
        what = []
        for _ in range(4):
            c = dict(rng.choice(adaptive.CONFIGS))
            if rng.random() < 0.5:
                c['split'] = 'cost'
            what.append(dict(cfg=c))
        what.append(dict(milp=rng.choice([None, 'naive', 'belotti',
                                          'song'])))
        N = rng.randint(6, 13)
        k = rng.randint(1, max(1, N // 3))
        kw = dict(N=N, eps=round((k + 0.3) / N, 4), nmax=8, mmax=4)
        out.append(dict(seed=rng.randrange(10**8), kw=kw, what=what,
                        fresh=i % 2 == 0))
    return out


def data(ci):
    """Everything the instance shows through its getters."""
    N = int(ci.get_nb_scenarios())
    return dict(
        name=ci.get_file_name(), n=int(ci.get_nb_vars()), N=N,
        rows=[int(ci.get_nb_constraints(s)) for s in range(N)],
        c=np.array(ci.get_vector_c()), A=np.array(ci.get_matrices_A()),
        A1=[np.array(ci.get_matrix_A(s)) for s in range(N)],
        b=np.array(ci.get_vectors_b()),
        b1=[np.array(ci.get_vector_b(s)) for s in range(N)],
        p=np.array(ci.get_proba()), eps=float(ci.get_epsilon()),
        ty=[bool(v) for v in ci.get_var_type()],
        lb=np.array(ci.get_var_lb(), float),
        ub=np.array(ci.get_var_ub(), float))


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and \
            np.array_equal(a, b)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Shift:
    """The real clock, moved ahead of what it was in earlier solves."""

    def __init__(self, f):
        self.f = f
        self.ahead = 0.0

    def __call__(self):
        return self.f() + self.ahead


@contextlib.contextmanager
def later(seconds):
    """The solve inside is made `seconds` later than the one before."""
    clock = Shift(time.time)
    clock.ahead = seconds
    with c14.patched(clock):
        yield


def files(s, milp):
    """The files of a finished solve, without the times in them."""
    from src.TimeManager import TimeManager
    d = tempfile.mkdtemp(prefix='mon-c18f-')
    try:
        with hooks.quiet():
            TimeManager.set_final_time()
            s.write_all_computation_details(d + '/row.csv')
            if not milp:
                s.write_iteration_details(d + '/iter.csv')
        with open(d + '/row.csv') as f:
            row = list(csv.reader(f))
        row = [[v for i, v in enumerate(r) if i != len(r) - 4
                and not (milp and i == 10)][1:] for r in row]
        if milp:
            return row
        with open(d + '/iter.csv') as f:
            return row + [[v for i, v in enumerate(r) if i != 1]
                          for r in csv.reader(f)]
    finally:
        shutil.rmtree(d)


def solve(inst, ci, what, seed, wait=0.0):
    with later(wait):
        return solve_now(inst, ci, what, seed)


def solve_now(inst, ci, what, seed):
    if 'milp' in what:
        random.seed(seed)
        s = adaptive.milp_run(inst, what['milp'], ci=ci)
        x = None if s.xLB is None else [float(v) for v in s.xLB]
        return clean(dict(vLB=float(s.vLB), vUB=float(s.vUB), x=x,
                          parts=[], files=files(s, True)))
    # the program seeds Python's generator only; numpy's keeps its history
    r = adaptive.Run(inst, what['cfg'], seed, ci=ci, seed_numpy=False).go()
    s = r.solver
    x = getattr(s, 'xLB', None)
    parts = [[[int(v) for v in c] for c in e['partition']]
             for e in r.trace if e['ev'] == 'load']
    return clean(dict(
        vLB=float(s.vLB), vUB=float(s.vUB),
        x=None if x is None else [float(v) for v in x], parts=parts,
        it=s.iteration, files=files(s, False), log=[[e['vLB'], e['vUB'], e['nb']]
                             for e in r.trace if e['ev'] == 'info']))


def disturb(rng, inst, ci, cfg):
    """A solve with a wide gap, without time, or broken off in between."""
    from src.BigMFinder import BigMFinder
    from src.solver.AdaptivePartitioner import AdaptivePartitioner
    from src.solver.MilpSolver import MilpSolver
    kind = rng.choice(['gap', 'time', 'broken'])
    limits = dict(gap=0.4 if kind == 'gap' else 1e-4,
                  time_limit=0 if kind == 'time' else 5000)
    stop = rng.randint(1, 12) if kind == 'broken' else 0
    count = [0]

    def around(orig, self, a, k):
        count[0] += 1
        if count[0] == stop:
            raise KeyboardInterrupt
        return orig(self, *a, **k)
    with hooks.Hooks() as H, hooks.quiet():
        H.attach('src.optim.OptiModel:OptiModel.solve', around=around)
        try:
            if rng.random() < 0.5:
                MilpSolver(ci, **limits).solve(big_m_method=rng.choice(
                    ['naive', 'belotti', 'song']))
            else:
                s = AdaptivePartitioner(
                    ci, split_method=cfg['split'],
                    initial_partition_type=cfg['init'],
                    projection_method=cfg['proj'],
                    use_acc_obj=cfg['split'] == 'cost', **limits)
                s.solve(BigMFinder(s.chance_instance_part),
                        use_big_M=cfg['big_m'] is not None,
                        big_m_method=cfg['big_m'] or 'belotti',
                        use_merger=cfg['merge'], use_lazy=cfg['lazy'])
        except KeyboardInterrupt:
            pass
    return kind


def outcome(seed, kw, what):
    inst = gen.make(seed, **kw)
    return solve(inst, adaptive.load(inst), what, seed)


def differs(a, b):
    return [k for k in a if a[k] != b.get(k)]


def program_twice(rec, rng, inst):
    """main.py, run twice in fresh processes with other hash seeds."""
    d = tempfile.mkdtemp(prefix='mon-c18-')
    method = rng.choice([3, 4, 4])
    got = []
    try:
        path = inst.write(os.path.join(d, 'inst.csv'))
        for j, hs in enumerate(rng.sample(['0', '5', '123', '999'], 2)):
            side = os.path.join(d, 'side%d.json' % j)
            out = os.path.join(d, 'out%d' % j) + '/'
            r = subprocess.run(
                [boot.PY, '-B', os.path.join(boot.VERIF,
                                             'mon/child_main.py'),
                 where, boot.REPO, side, '-', path, str(int(inst.cont)),
                 repr(inst.eps), str(method), out], cwd=d,
                capture_output=True, text=True, timeout=200,
                env=dict(os.environ, PYTHONHASHSEED=hs))
            if not os.path.exists(side):
                rec.unsure('program died: %s' % r.stderr[-200:])
                return
            seen = json.load(open(side))
            if seen['missing'] or seen['exit'] != 'ok':
                rec.unsure('program: %s %s' % (seen['missing'],
                                               seen['exit']))
                return
            got.append(dict(partitions=seen['parts'], vLB=seen['vLB'],
                            vUB=seen['vUB'], x=seen['xLB']))
    finally:
        shutil.rmtree(d)
    rec.event('program_comparisons')
    d = differs(got[0], got[1])
    if d:
        rec.fail('the program takes another course when run again', keys=d,
                 inst=inst.describe(), method=method,
                 differs={k: [g[k] for g in got] for k in d
                          if k != 'partitions'})


def run(case, rec):
    rng = random.Random(case['seed'] + 1)
    inst = gen.make(case['seed'], **case['kw'])
    # a problem of the same shape with other data, and the same data with the
    # other variable type and another epsilon; all three are read from files
    # of the same name and place
    other = gen.make(case['seed'] + 1, cont=inst.cont, **dict(
        case['kw'], n=inst.n, m=inst.m))
    twin = gen.Inst(inst.A, inst.b, inst.c, max(0.0, round(
        inst.eps - 1.0 / inst.N, 4)), inst.family, not inst.cont, inst.ident)
    problems = [inst, other, twin]
    rec.state(inst.family, inst.N, inst.n, inst.m, inst.k)
    place = tempfile.mkdtemp(prefix='mon-same-')
    try:
        objs = [adaptive.load(p, where=place, name='same') for p in problems]
    finally:
        os.rmdir(place)
    before = [data(o) for o in objs]
    ref = []
    refs = {}
    for w in case['what']:
        ref.append(solve(inst, adaptive.load(
            inst, name='ref-%d' % inst.ident), w, case['seed']))
        rec.event('runs')
        if len(ref[-1]['parts']) > 1:
            rec.event('runs_with_splits')
            rec.nontrivial = True
    order = list(range(len(case['what']))) * 2
    rng.shuffle(order)
    trail = []
    todo = []
    for i in order:
        if rng.random() < 0.5:
            todo.append((rng.choice([1, 2]), rng.randrange(
                len(case['what']))))
        todo.append((0, i))
    wait = 0.0
    for p, i in todo:
        w = case['what'][i]
        if p and (p, i) not in refs:
            refs[p, i] = solve(problems[p], adaptive.load(
                problems[p], name='ref-%d-%d' % (inst.ident, p)), w,
                case['seed'])
            rec.event('runs')
        want = refs[p, i] if p else ref[i]
        if rng.random() < 0.4:
            q = rng.choice([p, p, 0, 1, 2])
            kind = disturb(rng, problems[q], objs[q], rng.choice(
                case['what'][:-1])['cfg'])
            rec.event('disturbed_by_' + kind)
            trail.append('%d %s' % (q, kind))
        # hours may pass between two solves
        wait += rng.choice([0.0, 0.0, 3e3, 2e5])
        got = solve(problems[p], objs[p], w, case['seed'], wait)
        rec.event('runs')
        rec.event('milp_comparisons' if 'milp' in w
                  else 'history_comparisons')
        if p:
            rec.event('same_file_name_comparisons')
        rec.state(case['seed'], p, i, trail[-2:])
        d = differs(want, got)
        ctx = dict(inst=problems[p].describe(), what=w, history=trail[-6:])
        if d:
            rec.fail('a solve depends on what was solved before',
                     differs={k: [want[k], got.get(k)] for k in d
                              if k != 'parts'}, keys=d, **ctx)
        trail.append('%d %s' % (p, str(w)[:60]))
        rec.event('input_comparisons')
        after = data(objs[p])
        for k in before[p]:
            if not same(before[p][k], after[k]):
                rec.fail('a solve changes its instance', field=k,
                         before=before[p][k], after=after[k], **ctx)
        if rec.violations:
            break
    if case['fresh'] and not rec.violations:
        for hs in rng.sample(['0', '1', '77', '4242'], 2):
            i = rng.randrange(len(case['what']) - 1)
            w = case['what'][i]
            env = dict(os.environ, PYTHONHASHSEED=hs)
            r = subprocess.run(
                [boot.PY, '-B', os.path.join(boot.VERIF,
                                             'mon/child_run.py'),
                 where, boot.REPO, json.dumps(dict(
                     seed=case['seed'], kw=case['kw'], what=w))],
                capture_output=True, text=True, env=env, timeout=200)
            line = [q for q in r.stdout.splitlines()
                    if q.startswith('RESULT ')]
            if not line:
                rec.unsure('fresh process failed: %s' % r.stderr[-200:])
                continue
            got = json.loads(line[-1][len('RESULT '):])
            rec.event('process_comparisons')
            d = differs(ref[i], got)
            if d:
                rec.fail('a solve differs in a fresh process', keys=d,
                         inst=inst.describe(), what=w, hashseed=hs,
                         differs={k: [ref[i][k], got.get(k)] for k in d
                                  if k != 'parts'})
    if case['fresh'] and not rec.violations:
        program_twice(rec, rng, inst)
    rec.sample = dict(instance=inst.describe(), bounds=[
        [r['vLB'], r['vUB'], len(r['parts'])] for r in ref])
