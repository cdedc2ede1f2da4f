"""C16: the command line solves what it is asked and records it faithfully."""
import csv
import json
import os
import random
import shutil
import subprocess
import tempfile

import numpy as np

import adaptive
import boot
import gen
import oracle

RULE = ('A case is one generated instance file on which main.py is run as a '
        'program, with all four methods and two (type, epsilon) requests '
        'into one results folder (or whose rows are written by '
        'the solvers directly for other strategies), some with the time limit signal arriving '
        'during the solve. The files are compared with an independent '
        'optimum, with what observers saw in the run, and with each other. '
        'Non-trivial: an adaptive run with at least two iterations.')
NEED = {'program_runs': 150, 'result_rows': 150, 'iteration_rows': 200,
        'method_1': 30, 'method_2': 30, 'method_3': 30, 'method_4': 30,
        'interrupted_runs': 8, 'alarms_watched': 60, 'direct_rows': 120}
ASSUMPTIONS = ['epsilon in whole percents for the file names', 'the time '
               'limit signal arrives after the solver object was built']
WATCHDOG = 400
LIMIT, GAP = 3600.0, 1e-4
WORK = 2.0       # deterministic effort per solve whose bounds are watched
where = None


def setup(w, tier, seed):
    global where
    where = w


def cases(tier, seed):
    rng = random.Random(seed * 313 + 16)
    out = [dict(seed=rng.randrange(10**8))
           for _ in range(36 if tier == 'quick' else 400)]
    out += [dict(bounds=True, seed=rng.randrange(10**8))
            for _ in range(24 if tier == 'quick' else 200)]
    out += [dict(rows=True, seed=rng.randrange(10**8))
            for _ in range(96 if tier == 'quick' else 600)]
    return out


def rows_of(path):
    with open(path, newline='') as f:
        return [r for r in csv.reader(f)]


def near(a, b, tol=6e-4):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol + 1e-9 * abs(b)


def judge_row(rec, row, inst, req, seen, opt, ctx, interrupted):
    adapt = req['method'] in (3, 4)
    want_len = 6 + 3 + 3 + 2 + 4 if adapt else 6 + 4 + 1 + 4
    ctx = dict(ctx, row=row)
    if len(row) != want_len:
        rec.fail('result row has the wrong number of fields', want=want_len,
                 **ctx)
        return
    head = [req['name'], inst.n, inst.m, inst.N, int(inst.cont)]
    if row[0] != head[0] or [int(float(v)) for v in row[1:5]] != head[1:] \
            or not near(row[5], inst.eps):
        rec.fail('instance fields of the result row are wrong',
                 want=head + [inst.eps], **ctx)
    if not near(row[6], LIMIT) or not near(row[7], GAP * 100):
        rec.fail('limits in the result row are wrong', **ctx)
    if int(float(row[8])) != 1:
        rec.fail('big-M use in the result row is wrong', **ctx)
    if adapt:
        codes = [2, 2, 5] if req['method'] == 3 else [3, 3, 5]
        if [int(float(v)) for v in row[9:12]] != codes:
            rec.fail('strategy codes in the result row are wrong',
                     want=codes, **ctx)
        it = seen['first'] + seen['partition']
        if not interrupted and int(float(row[12])) != it:
            rec.fail('iterations in the result row are not those of the run',
                     want=it, **ctx)
        if int(float(row[13])) != seen['loads'][-1]:
            rec.fail('final number of subsets in the result row is wrong',
                     want=seen['loads'][-1], **ctx)
    else:
        code = 3 if req['method'] == 1 else 2
        if int(float(row[9])) != code:
            rec.fail('big-M code in the result row is wrong', want=code,
                     **ctx)
        bt = float(row[10])
        span = seen['solve_end'] - seen['solve_start'] + 0.5
        if not 0 <= bt <= float(row[-4]) + 2e-3 or bt > span:
            rec.fail('big-M time in the result row is impossible', **ctx)
    t, lb, ub, gap = map(float, row[-4:])
    if not 0 <= t <= seen['wall'] + 0.05 or \
            t + 0.05 < seen['solve_end'] - seen['solve_start']:
        rec.fail('total time in the result row is wrong',
                 wall=seen['wall'], solve=[seen['solve_start'],
                                           seen['solve_end']], **ctx)
    if not near(lb, seen['vLB']) or not near(ub, seen['vUB']):
        rec.fail('bounds in the result row are not those of the run',
                 run=[seen['vLB'], seen['vUB']], **ctx)
    tol = adaptive.gap_tol(opt) + 1e-3
    if lb > opt + tol or ub < opt - tol:
        rec.fail('bounds in the result row do not bracket the optimum',
                 optimum=opt, **ctx)
    if not interrupted and (abs(lb - opt) > tol or abs(ub - opt) > tol):
        rec.fail('bounds in the result row are not the optimum', optimum=opt,
                 **ctx)
    if np.isfinite(seen['vLB']) and abs(seen['vLB']) > 1e-9 and \
            np.isfinite(seen['vUB']):
        g = (seen['vUB'] - seen['vLB']) / seen['vLB'] * 100
        if abs(gap - g) > 6e-4 + 1e-6 * abs(g):
            rec.fail('gap in the result row is wrong', want=g, **ctx)
    if not interrupted and gap > GAP * 100 + 1e-3 and opt > 0:
        rec.fail('gap of a finished run exceeds the requested one', **ctx)


def judge_adaptive_log(rec, rows, row, inst, seen, opt, ctx, interrupted):
    prev = None
    tol = adaptive.gap_tol(opt) + 1e-3
    ctx = dict(ctx, log=rows[:12])
    for r in rows:
        rec.event('iteration_rows')
        if len(r) != 6:
            rec.fail('iteration row has the wrong number of fields', **ctx)
            return
        it, t, lb, ub, gap, nb = (int(r[0]), float(r[1]), -float(r[2]),
                                  -float(r[3]), float(r[4]), int(r[5]))
        if lb > opt + tol or ub < opt - tol:
            rec.fail('iteration log shows invalid bounds', optimum=opt,
                     bad=r, **ctx)
        if nb not in seen['loads']:
            rec.fail('iteration log shows a number of subsets that never '
                     'was', bad=r, **ctx)
        if prev is None:
            if it != 1:
                rec.fail('iteration log does not start at iteration 1',
                         **ctx)
        else:
            if it - prev[0] not in (0, 1):
                rec.fail('iteration log skips or repeats iterations', bad=r,
                         **ctx)
            if t < prev[1]:
                rec.fail('times of the iteration log decrease', bad=r, **ctx)
            if lb < prev[2] - 2e-3 or ub > prev[3] + 2e-3:
                rec.fail('bounds of the iteration log get worse', bad=r,
                         **ctx)
        if lb == -np.inf and np.isfinite(gap):
            rec.fail('gap in the iteration log is finite without a lower '
                     'bound', bad=r, **ctx)
        if np.isfinite(lb) and np.isfinite(ub) and abs(lb) > 1:
            g = (ub - lb) / lb * 100
            if abs(gap - g) > 2e-3 + 0.2 / abs(lb):
                rec.fail('gap in the iteration log is wrong', bad=r, want=g,
                         **ctx)
        prev = (it, t, lb, ub)
    if prev is None:
        if not interrupted:
            rec.fail('iteration log of a finished run is empty', **ctx)
        return
    if prev[0] > int(float(row[12])) or (
            not interrupted and prev[0] != int(float(row[12]))):
        rec.fail('iteration log and result row disagree on the iterations',
                 row=row, **ctx)
    if prev[1] > float(row[-4]) + 2e-3:
        rec.fail('iteration log is later than the total time', row=row,
                 **ctx)
    if not interrupted and abs(prev[3] - float(row[-2])) > 2e-3:
        rec.fail('iteration log does not end with the final upper bound',
                 row=row, **ctx)
    if prev[2] > float(row[-3]) + 2e-3:
        rec.fail('iteration log ends with a better lower bound than the '
                 'result', row=row, **ctx)
    if interrupted:
        return
    if abs(prev[2] - float(row[-3])) > 2e-3:
        rec.fail('iteration log does not end with the final lower bound',
                 row=row, **ctx)
    for v in seen.get('uppers', []):
        if not any(abs(v + float(r[3])) < 2e-3 for r in rows):
            rec.fail('iteration log leaves out an upper bound', left_out=v,
                     **ctx)


def judge_milp_log(rec, rows, row, inst, opt, ctx):
    tol = adaptive.gap_tol(opt) + 1e-3
    prev = None
    ctx = dict(ctx, log=rows[:8])
    for r in rows:
        rec.event('iteration_rows')
        if len(r) != 3:
            rec.fail('bound log row has the wrong number of fields', **ctx)
            return
        t, lb, ub = float(r[0]), -float(r[1]), -float(r[2])
        if lb > opt + tol or ub < opt - tol:
            rec.fail('bound log shows invalid bounds', optimum=opt, bad=r,
                     **ctx)
        if t < 0 or t > float(row[-4]) + 5e-3:
            rec.fail('bound log shows impossible times', bad=r, row=row,
                     **ctx)
        if t < float(row[10]) - 1e-3:
            rec.fail('bound log ignores the time spent before the solve',
                     bad=r, row=row, **ctx)
        if prev and (t < prev[0] - 1e-9 or lb < prev[1] - 1e-3):
            rec.fail('bound log is out of order', bad=r, **ctx)
        prev = (t, lb)


def direct_rows(case, rec):
    """Rows written by the solvers for strategies main.py does not use."""
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=7, Nmax=14, mmax=3, eps=rng.choice(
        [0.0, 0.05, 0.1, 0.125, 0.2, 0.333, 0.4]))
    opt = oracle.truth(inst).opt()
    d = tempfile.mkdtemp(prefix='mon-c16r-')
    try:
        name = rng.choice(['inst-%d' % inst.ident, 'a.b', 'x y', 'in_st.v1'])
        ci = adaptive.load(inst, d, name)
        for _ in range(4):
            limit = rng.choice([60.0, 1234.5, 7200.0, 100000.0])
            gap = rng.choice([1e-4, 1e-2, 5e-3])
            path = os.path.join(d, 'row.csv')
            if rng.random() < 0.75:
                cfg = rng.choice(adaptive.CONFIGS)
                r = adaptive.Run(inst, cfg, case['seed'], ci=ci, gap=gap,
                                 time_limit=limit).go()
                sv = r.solver
                from src.TimeManager import TimeManager
                TimeManager.set_final_time()
                with adaptive.quiet():
                    sv.write_all_computation_details(path)
                    sv.write_iteration_details(path + '.it')
                codes = dict(counter=1, random=2, cost=3,
                             rescaled_max_violation=5)
                ubs = r.of('ub')
                own = [int(cfg['big_m'] is not None), codes[cfg['split']],
                       codes[cfg['init']], codes[cfg['proj']], len(ubs),
                       len(r.of('load')[-1]['partition'])]
                label = adaptive.cfg_name(cfg)
                it = rows_of(path + '.it')
                rec.event('iteration_rows', len(it))
                if not it or it[-1][0] != str(len(ubs)):
                    rec.fail('iteration log and run disagree on the '
                             'iterations', label=label, log=it[-3:],
                             want=len(ubs), inst=inst.describe())
                logged = [e['row'] for e in r.of('info')]
                judge_log = lambda row: judge_adaptive_log(
                    rec, it, row, inst, dict(loads=[
                        len(e['partition']) for e in r.of('load')],
                        uppers=[e['vUB'] for e in r.of('lb')]), opt,
                    dict(label=label, inst=inst.describe()), False)
                if [list(map(str, q)) for q in it] != logged:
                    rec.fail('iteration log is not what the run stored',
                             label=label, log=it[:6], stored=logged[:6],
                             inst=inst.describe())
            else:
                meth = rng.choice([None, 'naive', 'belotti', 'song'])
                from src.TimeManager import TimeManager
                from src.solver.MilpSolver import MilpSolver
                with adaptive.quiet():
                    sv = MilpSolver(ci, time_limit=limit, gap=gap)
                    sv.solve(use_big_m=meth is not None,
                             big_m_method=meth or 'naive')
                    TimeManager.set_final_time()
                    sv.write_all_computation_details(path)
                own = [int(meth is not None)]
                if meth:
                    own.append(dict(naive=1, belotti=2, song=3)[meth])
                label = 'milp ' + str(meth)
                judge_log = None
            rows = rows_of(path)
            ctx = dict(inst=inst.describe(), label=label, rows=rows)
            rec.event('direct_rows')
            rec.state('rows', label)
            if len(rows) != 1 or len(rows[0]) < 15:
                rec.fail('result file does not hold one full row', **ctx)
                continue
            row = rows[0]
            if judge_log:
                judge_log(row)
            head = [inst.n, inst.m, inst.N, int(inst.cont)]
            if row[0] != name or [int(float(v)) for v in row[1:5]] != head \
                    or not near(row[5], inst.eps):
                rec.fail('instance fields of the result row are wrong',
                         want=[name] + head + [inst.eps], **ctx)
            if not near(row[6], limit) or not near(row[7], gap * 100):
                rec.fail('limits in the result row are wrong', **ctx)
            if [int(float(v)) for v in row[8:8 + len(own)]] != own:
                rec.fail('strategy fields of the result row are wrong',
                         want=own, **ctx)
            t, lb, ub, g = map(float, row[-4:])
            if not near(lb, float(sv.vLB)) or not near(ub, float(sv.vUB)):
                rec.fail('bounds in the result row are not those of the run',
                         run=[float(sv.vLB), float(sv.vUB)], **ctx)
            tol = adaptive.gap_tol(opt, gap) + 1e-3
            if abs(lb - opt) > tol or abs(ub - opt) > tol:
                rec.fail('bounds in the result row are not the optimum',
                         optimum=opt, **ctx)
            if opt > 1 and abs(g - (ub - lb) / lb * 100) > \
                    2e-3 + 0.2 / abs(lb):
                rec.fail('gap in the result row is wrong', **ctx)
            if not 0 <= t <= limit:
                rec.fail('total time in the result row is wrong', **ctx)
    finally:
        shutil.rmtree(d)
    rec.nontrivial = True


def watched_model(log):
    """gurobipy's Model, with an observer beside the callback it is given."""
    import gurobipy as gp

    class Watched(gp.Model):
        def optimize(self, callback=None):
            if callback is None:
                return super().optimize()

            def both(model, where):
                if where == gp.GRB.Callback.MIP:
                    log.append((model.cbGet(gp.GRB.Callback.MIP_OBJBST),
                                model.cbGet(gp.GRB.Callback.MIP_OBJBND)))
                callback(model, where)
            self.Params.WorkLimit = WORK
            return super().optimize(both)
    return Watched


def bound_logs(case, rec):
    """Every change of the bounds the optimizer reports is in the log."""
    import gurobipy as gp
    from src.solver.MilpSolver import MilpSolver
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], n=rng.randint(20, 30), N=rng.randint(30, 55),
                    m=rng.randint(2, 5), cont=False)
    d = tempfile.mkdtemp(prefix='mon-c16b-')
    real = gp.Model
    try:
        ci = adaptive.load(inst, d)
        for meth in rng.sample([None, 'naive', 'belotti', 'song'], 2):
            path = os.path.join(d, 'bounds.csv')
            seen = []
            gp.Model = watched_model(seen)
            try:
                with adaptive.quiet():
                    sv = MilpSolver(ci, time_limit=600, gap=1e-4)
                    sv.solve(use_big_m=meth is not None,
                             big_m_method=meth or 'naive', save_bounds=True,
                             path=path)
            finally:
                gp.Model = real
            if not seen:
                continue
            moves = [q for i, q in enumerate(seen) if not i
                     or q != seen[i - 1]]
            rec.event('bound_changes', len(moves))
            rows = rows_of(path)
            got = [(float(r[1]), float(r[2])) for r in rows]
            ctx = dict(inst=inst.describe(), method=meth, log=rows[:10],
                       seen=moves[:10])
            it = iter(got)
            for o, b in moves:
                if not any(near(-o, g, 1e-6) and near(-b, h, 1e-6)
                           for g, h in it):
                    rec.fail('bound log misses a change of the bounds',
                             missing=[-o, -b], **ctx)
                    break
            times = [float(r[0]) for r in rows]
            if times != sorted(times) or times and times[0] < 0:
                rec.fail('bound log is out of order', times=times[:20], **ctx)
            if got and (-got[-1][0] > float(sv.vLB) + 1e-3
                        or -got[-1][1] < float(sv.vUB) - 1e-3):
                rec.fail('bound log ends with better bounds than the run',
                         last=got[-1], run=[float(sv.vLB), float(sv.vUB)],
                         **ctx)
            rec.state('bounds', meth, len(moves))
    finally:
        shutil.rmtree(d)
    rec.nontrivial = True


def run(case, rec):
    if case.get('rows'):
        return direct_rows(case, rec)
    if case.get('bounds'):
        return bound_logs(case, rec)
    rng = random.Random(case['seed'])
    base = gen.make(case['seed'], nmax=8, Nmax=16, mmax=4)
    d = tempfile.mkdtemp(prefix='mon-c16-')
    log = []
    try:
        name = 'ccmknap-%d-%d-%d-%d' % (base.n, base.m, base.N,
                                        rng.randint(1, 5))
        # the generator's own names, and names with dots, spaces, underscores
        name += rng.choice(['', '', '', '.v2', '.orig.1', '_b x', '.csv'])
        path = os.path.join(d, name + '.csv')
        base.write(path)
        out = os.path.join(d, rng.choice(['out', 'a/b/tables']))
        if rng.random() < 0.3:
            os.makedirs(out)
        out += '/'
        e1 = rng.choice([0.05, 0.1, 0.2, 0.29, 0.3, 0.57, 0.07, 0.14])
        e2 = rng.choice([0.0, 0.1, 0.15, 0.25, 0.4, 0.58])
        reqs = [(rng.random() < 0.5, e1)]
        reqs.append((not reqs[0][0], e1) if rng.random() < 0.5
                    else (reqs[0][0], e2 if e2 != e1 else 0.35))
        files = {}
        for cont, eps in reqs:
            if gen.k_of(eps, base.N) >= base.N:
                continue
            inst = gen.Inst(base.A, base.b, base.c, eps, base.family, cont,
                            base.ident)
            opt = oracle.truth(inst).opt()
            order = [1, 2, 3, 4]
            rng.shuffle(order)
            for method in order:
                alarm = '-'
                if method in (3, 4) and rng.random() < 0.35:
                    alarm = rng.choice(['@1', '@1', '@2', '@2', '@3', '@4',
                                        '@6', '@9', '0.002', '0.01'])
                side = os.path.join(d, 'side.json')
                cmd = [boot.PY, '-B', os.path.join(
                    boot.VERIF, 'mon/child_main.py'), where, boot.REPO, side,
                    alarm, path, str(int(cont)), repr(eps), str(method), out]
                r = subprocess.run(cmd, cwd=d, capture_output=True, text=True,
                                   timeout=200)
                rec.event('program_runs')
                rec.event('method_%d' % method)
                ctx = dict(inst=inst.describe(), method=method, alarm=alarm)
                if not os.path.exists(side):
                    rec.fail('the program died', stderr=r.stderr[-300:],
                             code=r.returncode, **ctx)
                    continue
                seen = json.load(open(side))
                os.unlink(side)
                if seen['missing'] or seen['error']:
                    rec.unsure('observers: %s %s' % (seen['missing'],
                                                     seen['error']))
                    continue
                if seen['exit'] != 'ok':
                    rec.fail('the program failed', exit=seen['exit'],
                             where=seen.get('where'), **ctx)
                    continue
                interrupted = 'Reached time limit' in r.stdout
                if interrupted:
                    rec.event('interrupted_runs')
                stem = '%s-%d-%d-%d' % (name, round(eps * 100), int(cont),
                                        method)
                new = {}
                for root, _, fs in os.walk(out):
                    for f in fs:
                        p = os.path.join(root, f)
                        new[os.path.relpath(p, out)] = open(p).read()
                added = sorted(set(new) - set(files))
                if added != sorted([stem + '.csv', stem + '-iter.csv']):
                    rec.fail('the program writes other files than those of '
                             'the request', added=added, want=stem, **ctx)
                    files = new
                    continue
                if any(files[k] != new.get(k) for k in files):
                    rec.fail('the program changes the files of another run',
                             **ctx)
                files = new
                rows = rows_of(out + stem + '.csv')
                if len(rows) != 1:
                    rec.fail('result file does not hold one row', rows=rows,
                             **ctx)
                    continue
                rec.event('result_rows')
                if method in (3, 4) and 'timer' in seen:
                    # a step that takes too long is ended by the alarm
                    rec.event('alarms_watched')
                    left, ran = seen['timer']
                    if not 3600 - ran - 1.5 <= left <= 3600.5:
                        rec.fail('no alarm ends the program at the time '
                                 'limit', seconds_left=left, ran=ran, **ctx)
                judge_row(rec, rows[0], inst, dict(method=method, name=name),
                          seen, opt, ctx, interrupted)
                if not interrupted:
                    adaptive.judge_point(rec, inst, seen['xLB'], seen['vLB'],
                                         'main.py method %d' % method)
                it = rows_of(out + stem + '-iter.csv')
                if method in (3, 4):
                    judge_adaptive_log(rec, it, rows[0], inst, seen, opt,
                                       ctx, interrupted)
                    if seen['first'] + seen['partition'] > 1:
                        rec.nontrivial = True
                else:
                    judge_milp_log(rec, it, rows[0], inst, opt, ctx)
                kw = seen.get('kwargs', {})
                want_m = {1: 'song', 2: 'belotti', 3: 'belotti',
                          4: 'belotti'}[method]
                if kw.get('big_m_method', want_m) != want_m:
                    rec.fail('the program solves with another method than '
                             'asked', kwargs=kw, **ctx)
                log.append([method, int(cont), eps, rows[0][-3:]])
                rec.state(case['seed'], method, cont, eps, len(it))
    finally:
        shutil.rmtree(d)
    rec.sample = dict(instance=base.describe(), runs=log[:8])
