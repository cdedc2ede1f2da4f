"""C17: summary tables report exactly the stored results."""
import csv
import os
import random
import re
import shutil
import subprocess
import tempfile

import numpy as np

import boot

RULE = ('A case writes a synthetic set of result rows (all runs, some runs '
        'missing, unsolved runs, gaps on the threshold, tied and infinite '
        'values) for every experiment of the paper, runs export_results.py '
        'as a program on a scratch copy and recomputes every entry of every '
        'table. Non-trivial: solved and unsolved cells, missing runs and '
        'bold entries by time and by gap all occur.')
NEED = {'exports': 12, 'cells': 3000, 'cells_solved': 500,
        'cells_unsolved': 500, 'cells_missing': 100, 'bold_by_time': 200,
        'bold_by_gap': 50, 'big_m_cells': 300, 'big_m_missing': 10,
        'experiment_script': 1}
ASSUMPTIONS = ['the experiments are those of the paper (three instance '
               'classes, four scenario counts, two epsilons, five instances '
               'of each, four methods)']
NATIVE = False
WATCHDOG = 300
CLASSES = ['ccmknap-10-10', 'ccmknap-20-10', 'ccmknap-40-30']
SCEN = [500, 1000, 3000, 5000]
EPS = [0.1, 0.2]
NUM = 5
MILP, PART = (1, 2), (3, 4)
REQUIRED = 1e-4 * 100


def cases(tier, seed):
    n = 40 if tier == 'quick' else 500
    rng = random.Random(seed * 37 + 17)
    modes = ['full', 'mixed', 'mixed', 'sparse', 'ties', 'solved', 'inf']
    return [dict(kind='script', seed=seed)] + \
        [dict(kind='export', seed=rng.randrange(10**8),
              mode=modes[i % len(modes)]) for i in range(n)]


def name(i, s, j, e, t, m):
    return '%s-%d-%d-%d-%d-%d.csv' % (i, s, j, round(e * 100), t, m)


def make_row(rng, i, s, e, t, m, mode, solved):
    n, mm = i.split('-')[1:3]
    time = rng.choice([0.5, 1.25, 3.0]) if mode == 'ties' else \
        round(rng.uniform(0.001, 3600), 3)
    if solved:
        gap = rng.choice([0.0, 0.004, 0.01, 0.009])
    else:
        gap = rng.choice([0.011, 0.02, 5.0]) if mode == 'ties' else \
            round(rng.uniform(0.011, 40), 3)
        if mode == 'inf' and rng.random() < 0.1:
            gap = float('inf')
    v = round(rng.uniform(100, 9000), 3)
    head = [i, n, mm, s, t, '%.3f' % e, '3600.000', '0.010', 1]
    tail = ['%.3f' % time, '%.3f' % v, '%.3f' % (v * (1 + min(gap, 99) / 100)),
            '%.3f' % gap]
    if m in MILP:
        big = round(rng.uniform(0.01, 500), rng.choice([3, 9]))
        row = head + [3 if m == 1 else 2, big] + tail
        return row, dict(time=time, gap=gap, big=big)
    it = rng.randint(1, 60)
    code = [2, 2, 5] if m == 3 else [3, 3, 5]
    return head + code + [it, rng.randint(51, 900)] + tail, \
        dict(time=time, gap=gap, it=it)


def strip(v):
    m = re.fullmatch(r'\\textbf\{(.*)\}', v)
    return (m.group(1), True) if m else (v, False)


def close(text, value):
    try:
        g = float(text)
    except ValueError:
        return False
    if not np.isfinite(value):
        return g == value
    return abs(g - value) <= 0.005 + 1e-6 * abs(value)


def judge_cell(rec, runs, m, cell, ctx):
    """cell: the printed columns (bold removed)."""
    rec.event('cells')
    if any(r is None for r in runs):
        rec.event('cells_missing')
        if any(re.search(r'\d', c) for c in cell):
            rec.fail('a missing run is averaged over', cell=cell, **ctx)
        return None
    nb = sum(r['gap'] <= REQUIRED + 1e-7 for r in runs)
    if nb == len(runs):
        rec.event('cells_solved')
        mean = sum(r['time'] for r in runs) / len(runs)
        if not cell[0].endswith('s') or not close(cell[0][:-1], mean):
            rec.fail('average time is wrong', cell=cell, want=mean, **ctx)
    else:
        rec.event('cells_unsolved')
        mean = sum(r['gap'] for r in runs) / len(runs)
        g = re.fullmatch(r'(.*)\\%\((\d+)\)', cell[0])
        if not g or not close(g.group(1), mean) or int(g.group(2)) != nb:
            rec.fail('average gap or number solved is wrong', cell=cell,
                     want=[mean, nb], **ctx)
    if m in PART:
        it = sum(r['it'] for r in runs) / len(runs)
        try:
            good = abs(float(cell[1]) - it) <= 0.005 + 1e-9
        except ValueError:
            good = False
        if not good:
            rec.fail('average number of iterations is wrong', cell=cell,
                     want=it, **ctx)
    return nb, mean


def judge_row(rec, row, data, i, s, e, t, first, ctx):
    ctx = dict(ctx, row=row, where=[i, s, e, t])
    if len(row) != 3 + 1 + 1 + 2 + 2:
        rec.fail('table row has the wrong number of columns', **ctx)
        return
    plain, bold = zip(*[strip(v) for v in row])
    label = '\\textsf{%s}' % i.replace('ccmknap', 'mk')
    if plain[0] != (label if first[0] else '') or \
            plain[1] != (str(e) if first[1] else '') or plain[2] != str(s):
        rec.fail('table row is labelled wrongly', **ctx)
    spans = {1: (3, 4), 2: (4, 5), 3: (5, 7), 4: (7, 9)}
    info = {}
    for m, (a, b) in spans.items():
        runs = [data.get((i, s, j, e, t, m)) for j in range(1, NUM + 1)]
        info[m] = judge_cell(rec, runs, m, plain[a:b], dict(ctx, method=m))
    have = {m: v for m, v in info.items() if v}
    marked = [m for m, (a, b) in spans.items() if any(bold[a:b])]
    if not have:
        return
    done = {m: v[1] for m, v in have.items() if v[0] == NUM}
    if done:
        rec.event('bold_by_time')
        best = [m for m in done if done[m] <= min(done.values()) + 1e-9]
    else:
        rec.event('bold_by_gap')
        top = max(v[0] for v in have.values())
        # a method without its runs counts as having solved none
        pool = {m: v[1] for m, v in have.items() if v[0] == top}
        best = [m for m in pool if not pool[m] > min(pool.values()) + 1e-9]
        if not np.isfinite(min(pool.values())):
            return
    if len(marked) != 1 or marked[0] not in best:
        rec.fail('the method set in bold is not the best one', marked=marked,
                 best=best, **ctx)


def mean_text(values):
    return None if any(v is None for v in values) else \
        sum(values) / len(values)


def export(case, rec):
    rng = random.Random(case['seed'])
    mode = case['mode']
    d = tempfile.mkdtemp(prefix='mon-c17-')
    try:
        shutil.copy(os.path.join(boot.REPO, 'export_results.py'), d)
        tables = os.path.join(d, 'results', 'tables')
        os.makedirs(tables)
        data = {}
        miss = dict(full=0.0, mixed=0.01, sparse=0.12, ties=0.004,
                    solved=0.0, inf=0.005)[mode]
        for i in CLASSES:
            for s in SCEN:
                for e in EPS:
                    for t in (0, 1):
                        for m in (1, 2, 3, 4):
                            p = rng.choice([1.0, 1.0, 0.6, 0.0, 0.95]) if \
                                mode != 'solved' else 1.0
                            for j in range(1, NUM + 1):
                                if rng.random() < miss:
                                    continue
                                row, info = make_row(
                                    rng, '%s-%d-%d' % (i, s, j), s, e, t, m,
                                    mode, rng.random() < p)
                                data[i, s, j, e, t, m] = info
                                with open(os.path.join(tables, name(
                                        i, s, j, e, t, m)), 'w',
                                        newline='\n') as f:
                                    csv.writer(f).writerow(row)
        env = dict(os.environ, PYTHONPATH=boot.REPO)
        r = subprocess.run([boot.PY, '-B', os.path.join(
            d, 'export_results.py')], cwd=d, env=env, capture_output=True,
            text=True, timeout=120)
        ctx = dict(mode=mode, seed=case['seed'])
        rec.event('exports')
        if r.returncode:
            rec.fail('export fails', stderr=r.stderr[-400:], **ctx)
            return
        res = os.path.join(d, 'results')
        for i in CLASSES:
            for t in (0, 1):
                p = os.path.join(res, '%s-%d-result-table.csv' % (i, t))
                if not os.path.exists(p):
                    rec.fail('result table is missing', table=p[len(d):],
                             **ctx)
                    continue
                rows = list(csv.reader(open(p, newline='')))
                if len(rows) != len(EPS) * len(SCEN):
                    rec.fail('result table has the wrong number of rows',
                             **ctx)
                    continue
                it = iter(rows)
                for a, e in enumerate(EPS):
                    for b, s in enumerate(SCEN):
                        judge_row(rec, next(it), data, i, s, e, t,
                                  (a == b == 0, b == 0), ctx)
            p = os.path.join(res, i + '-big-m-times.csv')
            if not os.path.exists(p):
                rec.fail('big-M table is missing', **ctx)
                continue
            rows = list(csv.reader(open(p, newline='')))
            if len(rows) != len(SCEN) or any(len(q) != 5 for q in rows):
                rec.fail('big-M table has the wrong shape', rows=rows, **ctx)
                continue
            for b, (s, row) in enumerate(zip(SCEN, rows)):
                label = '\\textsf{%s}' % i.replace('ccmknap', 'mk')
                if row[0] != (label if b == 0 else '') or row[1] != str(s):
                    rec.fail('big-M table row is labelled wrongly', row=row,
                             **ctx)

                def vals(types, m):
                    return [data.get((i, s, j, e, t, m), {}).get('big')
                            for t in types for j in range(1, NUM + 1)
                            for e in EPS]
                want = [mean_text(vals((0, 1), 1)),
                        mean_text(vals((1,), 2)), mean_text(vals((0,), 2))]
                for cell, w in zip(row[2:], want):
                    rec.event('big_m_cells')
                    if w is None:
                        rec.event('big_m_missing')
                        if re.search(r'\d', cell):
                            rec.fail('a missing big-M time is averaged over',
                                     row=row, **ctx)
                    elif not cell.endswith('s') or not close(cell[:-1], w):
                        rec.fail('average big-M time is wrong', row=row,
                                 want=want, **ctx)
        rec.nontrivial = mode not in ('solved',)
        rec.state(mode, case['seed'])
        rec.sample = dict(ctx, stored_rows=len(data))
    finally:
        shutil.rmtree(d)


def script(case, rec):
    """The experiment script asks for exactly the runs that are exported: it
    is run with stand-ins that only record the commands."""
    path = os.path.join(boot.REPO, 'run_all_experiments.sh')
    rec.event('experiment_script')
    d = tempfile.mkdtemp(prefix='mon-c17-')
    try:
        for tool in ('python', 'python3', 'sleep'):
            p = os.path.join(d, tool)
            with open(p, 'w') as f:
                f.write('#!/bin/bash\n')
                if tool != 'sleep':
                    f.write('echo "$@" >> %s/log\n' % d)
            os.chmod(p, 0o755)
        env = dict(os.environ, PATH=d + ':/usr/bin:/bin')
        r = subprocess.run(['/bin/bash', path], cwd=d, env=env,
                           capture_output=True, text=True, timeout=250)
        log = open(os.path.join(d, 'log')).read().splitlines() \
            if os.path.exists(os.path.join(d, 'log')) else []
        got = {}
        for line in log:
            w = line.split()
            inst = os.path.basename(w[1])[:-len('.csv')]
            f = '%s-%d-%s-%s.csv' % (inst, round(float(w[3]) * 100), w[2],
                                     w[4])
            got[f] = got.get(f, 0) + 1
        want = {name(i, s, j, e, t, m) for i in CLASSES for s in SCEN
                for j in range(1, NUM + 1) for e in EPS for t in (0, 1)
                for m in (1, 2, 3, 4)}
        if set(got) != want:
            rec.fail('the experiment script does not request the exported '
                     'runs', missing=sorted(want - set(got))[:5],
                     extra=sorted(set(got) - want)[:5], code=r.returncode)
    finally:
        shutil.rmtree(d)


def run(case, rec):
    (export if case['kind'] == 'export' else script)(case, rec)
