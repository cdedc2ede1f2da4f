"""C15: instance files are generated and read faithfully."""
import csv
import os
import random
import shutil
import subprocess
import tempfile

import numpy as np

import adaptive
import boot
import gen

RULE = ('Generator cases: the instance generator runs as a program on a base '
        'file (the repository\'s own and random ones) in a scratch folder; '
        'every file it writes is parsed independently, compared with the '
        'base data and read back with the reader for both types. Reader '
        'cases: files written by the harness (several number formats, names '
        'and sizes). Non-trivial: a file with both failed and kept items, or '
        'a reader case whose data need rounding.')
NEED = {'generated_files': 60, 'generated_scenarios': 1000,
        'kept_items': 3000, 'failed_items': 300, 'files_read': 400,
        'entries_rounded': 2000, 'base_files_of_repo': 8, 'scripted_runs': 100}
ASSUMPTIONS = ['generated weights stay within 8 standard deviations (10% of '
               'the base weight, as in the generator)']
NATIVE = False
ORLIB = 'data/orlib'
GENERATOR = 'data/cc-instances/knapsack/instance-generator.py'


def cases(tier, seed):
    q = tier == 'quick'
    rng = random.Random(seed * 71 + 15)
    out = [dict(kind='gen', base='instance%d.txt' % i,
                N=rng.choice([1, 3, 20, 40]), num=rng.choice([1, 2, 3]),
                seed=rng.randrange(10**8)) for i in range(1, 9)]
    out += [dict(kind='gen', base=None, N=rng.choice([1, 2, 5, 17, 60]),
                 num=rng.choice([1, 1, 2, 4]), seed=rng.randrange(10**8))
            for _ in range(200 if q else 1500)]
    out += [dict(kind='read', seed=rng.randrange(10**8))
            for _ in range(600 if q else 8000)]
    out.append(dict(kind='script', seed=0))
    return out


def parse(path):
    with open(path, newline='') as f:
        return [[float(v) for v in r] for r in csv.reader(f)]


def base_file(rng, rs, path):
    n, m = rng.choice([1, 2, 5, 8, 12]), rng.choice([1, 1, 3, 6])
    c = rs.randint(1, 900, n)
    A = rs.randint(0, 200, size=(m, n)).astype(float)
    A[rs.rand(m, n) < 0.2] = 0.0
    if rng.random() < 0.3:
        A = np.round(A / 7.0, 1)
    b = rs.randint(1, 50 * n + 2, m)
    if rng.random() < 0.4:
        b = np.round(b / 7.0, rng.choice([1, 2, 3]))
    if rng.random() < 0.4:
        c = np.round(c / 7.0, rng.choice([1, 2, 3]))

    def fmt(v):
        return repr(round(float(v), 6)) if v != int(v) else '%d' % v
    with open(path, 'w') as f:
        f.write('%d %d %s\n' % (n, m, fmt(rs.randint(1, 10**4) / 10.0)))
        f.write(' '.join(map(fmt, c)) + '\n')
        for r in A:
            f.write(' '.join(map(fmt, r)) + '\n')
        f.write(' '.join(map(fmt, b)) + '\n')


def parse_base(path):
    rows = [r.split() for r in open(path).read().splitlines() if r.strip()]
    n, m = int(rows[0][0]), int(rows[0][1])
    return (n, m, np.array(rows[1], float),
            np.array(rows[2:2 + m], float), np.array(rows[2 + m], float))


def close_decimal(read, raw):
    """read is raw rounded to one decimal (either way on a tie)."""
    read, raw = np.asarray(read, float), np.asarray(raw, float)
    return read.shape == raw.shape and \
        bool((np.abs(read - raw) <= 0.05 + 1e-9 * (1 + np.abs(raw))).all()
             and (np.abs(read * 10 - np.round(read * 10)) <= 1e-6).all())


def judge_reader(rec, path, n, m, N, c, A, b, ctx):
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    rs = random.Random(path)
    for cont in (False, True):
        eps = rs.choice([0.0, 0.05, 0.1, 0.29, 0.3333])
        ci = ChanceKnapInstance(path, cont, eps)
        rec.event('files_read')
        kw = dict(ctx, continuous=cont)
        if (int(ci.get_nb_vars()), int(ci.get_nb_scenarios())) != (n, N):
            rec.fail('sizes read wrongly', want=[n, m, N], **kw)
            return
        if [int(ci.get_nb_constraints(s)) for s in range(N)] != [m] * N:
            rec.fail('numbers of constraints read wrongly', **kw)
            return
        if not close_decimal(ci.get_vector_c(), c):
            rec.fail('objective read wrongly', got=ci.get_vector_c(), want=c,
                     **kw)
        for s in range(N):
            if not close_decimal(ci.get_matrix_A(s), A[s]):
                rec.fail('constraint matrix read wrongly', scenario=s,
                         got=ci.get_matrix_A(s), want=A[s], **kw)
                break
            if not close_decimal(ci.get_vector_b(s), b):
                rec.fail('right-hand side read wrongly', scenario=s,
                         got=ci.get_vector_b(s), want=b, **kw)
                break
        if not (np.array_equal(np.asarray(ci.get_matrices_A()),
                               np.array([ci.get_matrix_A(s)
                                         for s in range(N)]))
                and np.array_equal(np.asarray(ci.get_vectors_b()),
                                   np.array([ci.get_vector_b(s)
                                             for s in range(N)]))):
            rec.fail('views of the data disagree', **kw)
        p = np.asarray(ci.get_proba(), float)
        if p.shape != (N,) or np.abs(p - 1.0 / N).max() > 1e-12 or \
                abs(p.sum() - 1) > 1e-9:
            rec.fail('probabilities are not uniform', got=p, **kw)
        if float(ci.get_epsilon()) != eps:
            rec.fail('epsilon changed by the reader', got=ci.get_epsilon(),
                     want=eps, **kw)
        ty = [bool(v) for v in ci.get_var_type()]
        lb = np.asarray(ci.get_var_lb(), float)
        ub = np.asarray(ci.get_var_ub(), float)
        good = ty == [cont] * n and lb.shape == ub.shape == (n,) and (
            (lb == 0).all() and (ub == 1).all() if cont
            else (lb <= 0).all() and (ub >= 1).all())
        if not good:
            rec.fail('variables are not typed or bounded as requested',
                     types=ty, lb=lb, ub=ub, **kw)
        name = os.path.basename(path)
        if ci.get_file_name() != name[:name.rfind('.')]:
            rec.fail('instance name read wrongly', got=ci.get_file_name(),
                     **kw)
        rec.event('entries_rounded',
                  int((np.abs(np.asarray(A) * 10 - np.round(
                      np.asarray(A) * 10)) > 1e-6).sum()))


def generate(case, rec):
    rng = random.Random(case['seed'])
    rs = np.random.RandomState(case['seed'] % 2**32)
    d = tempfile.mkdtemp(prefix='mon-c15-')
    try:
        if case['base']:
            base = os.path.join(boot.REPO, ORLIB, case['base'])
            rec.event('base_files_of_repo')
        else:
            base = os.path.join(d, 'base.txt')
            base_file(rng, rs, base)
        n, m, c, A0, b = parse_base(base)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        script = os.path.join(boot.REPO, GENERATOR)
        r = subprocess.run([boot.PY, '-B', script, base, str(case['N']),
                            str(case['num'])], cwd=out, capture_output=True,
                           text=True, timeout=120)
        ctx = dict(n=n, m=m, N=case['N'], base=case['base'])
        if r.returncode:
            rec.fail('instance generator fails', stderr=r.stderr[-300:],
                     **ctx)
            return
        want = ['ccmknap-%d-%d-%d-%d.csv' % (n, m, case['N'], i)
                for i in range(1, case['num'] + 1)]
        if sorted(os.listdir(out)) != sorted(want):
            rec.fail('generator writes other files than announced',
                     got=sorted(os.listdir(out)), want=want, **ctx)
            return
        seen = []
        z = []
        for name in want:
            rec.event('generated_files')
            rows = parse(os.path.join(out, name))
            N = case['N']
            if [int(v) for v in rows[0]] != [n, m, N] or \
                    len(rows) != 3 + N * m or \
                    any(len(r) != n for r in rows[1:-1]) or \
                    len(rows[-1]) != m:
                rec.fail('generated file is malformed', header=rows[0],
                         nrows=len(rows), **ctx)
                continue
            if not np.array_equal(rows[1], c) or \
                    not np.array_equal(rows[-1], b):
                rec.fail('generated file changes the objective or the '
                         'right-hand sides', got=[rows[1], rows[-1]],
                         want=[c, b], **ctx)
            A = np.array(rows[2:-1]).reshape(N, m, n)
            rec.event('generated_scenarios', N)
            if (A < 0).any():
                rec.fail('generated weights are negative', **ctx)
            if (A[:, A0 == 0] != 0).any():
                rec.fail('an item got weight where the base has none', **ctx)
            use = A0.max(axis=0) > 0          # items with any weight
            zero = (A == 0)
            for j in np.where(use)[0]:
                pos = A0[:, j] > 0.01
                if not pos.any():
                    continue
                failed = zero[:, pos, j].all(axis=1)
                mixed = zero[:, pos, j].any(axis=1) & ~failed
                rec.event('failed_items', int(failed.sum()))
                rec.event('kept_items', int((~failed).sum()))
                if mixed.any():
                    rec.fail('an item fails in some constraints of a '
                             'scenario only', item=int(j), **ctx)
                kept = A[~failed][:, pos, j]
                dev = (kept - A0[pos, j]) / A0[pos, j]
                if (np.abs(dev) > 0.8 + 1e-3).any():
                    rec.fail('a kept weight is not a perturbation of its '
                             'base weight', item=int(j),
                             worst=float(np.abs(dev).max()), **ctx)
                big = A0[pos, j] >= 1
                z.extend(dev[:, big].ravel().tolist())
            fz = zero.all(axis=1)[:, use].mean() if use.any() else 0
            if 0 < fz < 1:
                rec.nontrivial = True
            seen.append(A)
            rec.state(name, N, n, m)
            judge_reader(rec, os.path.join(out, name), n, m, N, c, A, b, ctx)
        if len(z) >= 400:
            sd = float(np.std(z))
            if not 0.05 < sd < 0.2:
                rec.fail('kept weights do not carry the announced noise',
                         deviation=sd, **ctx)
        if len(seen) > 1 and A0.max() > 1 and case['N'] * n * m > 20 and \
                any(np.array_equal(seen[0], o) for o in seen[1:]):
            rec.fail('two generated instances are identical', **ctx)
        rec.sample = dict(ctx, files=want, items_failed_share=float(fz))
    finally:
        shutil.rmtree(d)


def recorded(path, cwd):
    """The commands a shell script gives to python, with stand-ins that only
    record them."""
    d = tempfile.mkdtemp(prefix='mon-c15-')
    try:
        for tool in ('python', 'python3', 'sleep'):
            p = os.path.join(d, tool)
            with open(p, 'w') as f:
                f.write('#!/bin/bash\n')
                if tool != 'sleep':
                    f.write('printf "%%s\\t" "$@" >> %s/log\n'
                            'echo >> %s/log\n' % (d, d))
            os.chmod(p, 0o755)
        work = os.path.join(d, cwd)
        os.makedirs(work, exist_ok=True)
        subprocess.run(['/bin/bash', path], cwd=work, timeout=250,
                       env=dict(os.environ, PATH=d + ':/usr/bin:/bin'),
                       capture_output=True)
        if not os.path.exists(d + '/log'):
            return []
        with open(d + '/log') as f:
            return [line.rstrip('\n').split('\t')[:-1] for line in f]
    finally:
        shutil.rmtree(d)


def script(case, rec):
    """The generation script asks for all files the experiments solve."""
    where = os.path.dirname(GENERATOR)
    made = set()
    for w in recorded(os.path.join(boot.REPO, where,
                                   'generate-all-instances.sh'), where):
        base = os.path.normpath(os.path.join(boot.REPO, where, w[1]))
        if os.path.basename(w[0]) != os.path.basename(GENERATOR) or \
                not os.path.exists(base) or len(w) != 4:
            rec.fail('the generation script calls the generator wrongly',
                     command=w)
            continue
        n, m = parse_base(base)[:2]
        made |= {'ccmknap-%d-%d-%d-%d.csv' % (n, m, int(w[2]), j)
                 for j in range(1, int(w[3]) + 1)}
    asked = recorded(os.path.join(boot.REPO, 'run_all_experiments.sh'), '.')
    for w in asked:
        if os.path.normpath(os.path.dirname(w[1])) != where or \
                os.path.basename(w[1]) not in made:
            rec.fail('the experiments solve a file that is not generated',
                     command=w)
            break
    rec.event('scripted_runs', len(asked))
    rec.state(len(made), len(asked))
    rec.nontrivial = True


def read(case, rec):
    rng = random.Random(case['seed'])
    inst = gen.make(case['seed'], nmax=9, Nmax=25, mmax=6)
    rs = np.random.RandomState(case['seed'] % 2**32)
    dec = rng.choice([0, 1, 2, 3, 4, 4])
    A = np.round(inst.A + rs.uniform(0, 1, inst.A.shape) * (dec > 1), dec)
    c = np.round(inst.c + rs.uniform(0, 1, inst.n) * (dec > 1), dec)
    b = np.round(inst.b + rs.uniform(0, 1, inst.m) * (dec > 1), dec)
    style = rng.choice(['repr', 'int', 'exp', 'crlf'])

    def fmt(v):
        v = float(v)
        if style == 'int' and v == int(v):
            return str(int(v))
        if style == 'exp':
            return '%.10e' % v
        return repr(v)
    d = tempfile.mkdtemp(prefix='mon-c15-')
    try:
        name = rng.choice(['ccmknap-%d-%d-%d-1.csv' % (inst.n, inst.m,
                                                       inst.N),
                           'a.b-c.csv', 'x.csv', 'inst_7.data.txt'])
        path = os.path.join(d, name)
        rows = [[inst.n, inst.m, inst.N], c] + \
            [r for s in range(inst.N) for r in A[s]] + [b]
        end = '\r\n' if style == 'crlf' else '\n'
        with open(path, 'w', newline='') as f:
            for i, r in enumerate(rows):
                f.write(','.join(str(v) if i == 0 else fmt(v) for v in r)
                        + end)
        rec.state(name, style, dec, inst.N, inst.n, inst.m)
        rec.nontrivial = dec > 1
        judge_reader(rec, path, inst.n, inst.m, inst.N, c, A, b,
                     dict(style=style, decimals=dec, name=name,
                          seed=case['seed']))
    finally:
        shutil.rmtree(d)


def run(case, rec):
    {'gen': generate, 'read': read, 'script': script}[case['kind']](case, rec)
