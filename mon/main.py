"""Entry point of every check:  main.py <property> [--replay file]

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 3:
inconclusive (the deciding monitor was not reached, or the build failed)."""
import collections
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import boot      # noqa: E402
import pool      # noqa: E402
import rec as rec_mod   # noqa: E402

QUICK_DEADLINE = 420.0
THOROUGH_DEADLINE = 3000.0


def run_one(mod, case):
    r = rec_mod.Rec()
    try:
        mod.run(case, r)
    except mod_errors() as e:
        r.unsure('harness: %s' % e)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any(boot.REPO + '/' in (f.filename or '') or
                      'violations' in (f.filename or '') for f in tb)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                            for f in reversed(tb[-4:]))
        if in_repo:
            r.fail('the code under test raised %s' % type(e).__name__,
                   error=str(e)[:300], where=where)
        else:
            r.unsure('harness error %s: %s at %s'
                     % (type(e).__name__, str(e)[:200], where))
    return r.pack()


def mod_errors():
    from hooks import Inconclusive
    return Inconclusive


def load_known(prop):
    out = []
    path = os.path.join(boot.VERIF, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith(('#', 'fixed:')):
                continue
            d = json.loads(line)
            if d['property'] == prop:
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mono = time.monotonic()
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        where = boot.prepare(native=getattr(mod, 'NATIVE', True))
    except boot.BuildError as e:
        print('INCONCLUSIVE property=%s build failed: %s' % (prop, e))
        return 3
    os.chdir(where)
    if hasattr(mod, 'setup'):
        mod.setup(where, tier, seed)
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        out = run_one(mod, d['case'])
        print(json.dumps(out, indent=1))
        return 1 if out['violations'] else 0
    cases = mod.cases(tier, seed)
    only = os.environ.get('MON_LIMIT')
    if only:
        import random
        cases = random.Random(1).sample(cases, min(len(cases), int(only)))
    events = collections.Counter()
    states = set()
    viol = []
    unsure = []
    samples = []
    nontrivial = set()
    times = []

    def on_result(job, kind, res):
        if kind == 'died':
            sig = res
            if sig in (-11, -6, -7, -8, -4):
                viol.append((job, dict(
                    what='process killed by signal %d' % -sig, detail={})))
            else:
                unsure.append((job, 'worker exited with %s' % sig))
            return
        if kind == 'hang':
            unsure.append((job, 'no answer after %.0f s' % res))
            return
        for k, v in res['events'].items():
            events[k] += v
        states.update(res['states'])
        for v in res['violations']:
            viol.append((job, v))
        for u in res['inconclusive']:
            unsure.append((job, u))
        if res['nontrivial']:
            nontrivial.add(rec_mod.digest(job))
        if res['sample'] is not None and len(samples) < 4:
            samples.append(res['sample'])

    dl = mono + (THOROUGH_DEADLINE if tier == 'thorough' else QUICK_DEADLINE)
    left = pool.run_cases(lambda c: run_one(mod, c), cases,
                          nproc=getattr(mod, 'NPROC', 8),
                          watchdog=getattr(mod, 'WATCHDOG', 150),
                          deadline=dl, on_result=on_result,
                          stop=(lambda: bool(viol)) if os.environ.get(
                              'MON_FAILFAST') else None)
    known = load_known(prop)
    fresh, seen_known = [], {}
    for job, v in viol:
        k = next((k for k in known if k['mechanism'] in v['what']), None)
        if k:
            seen_known[k['mechanism']] = k
        else:
            fresh.append((job, v))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    done = len(cases) - left
    cov = dict(evaluations=done, distinct_nontrivial=len(nontrivial),
               rule=mod.RULE, samples=samples or [rec_mod.clean(cases[0])],
               events=dict(sorted(events.items())),
               distinct_states=len(states), not_started=left,
               inconclusive_cases=len(unsure))
    if getattr(mod, 'EXHAUSTIVE', None):
        cov['exhaustive_part'] = mod.EXHAUSTIVE
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough')
              else 'quick', seed=seed,
              level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    evdir = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property %s: %d cases, %d non-trivial, %d distinct states, '
          '%.1f s' % (prop, done, len(nontrivial), len(states),
                      ev['wall_s']))
    print('events: ' + ', '.join('%s=%d' % kv
                                 for kv in sorted(events.items())))
    for job, u in unsure[:5]:
        print('inconclusive: %s: %s' % (json.dumps(rec_mod.clean(job))[:200],
                                        u))
    if fresh:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        whats = collections.Counter(v['what'] for _, v in fresh)
        for w, n in whats.most_common(10):
            print('  %d x %s' % (n, w))
        for job, v in fresh[:3]:
            path = os.path.join(rdir, '%s-%s.json'
                                % (prop, rec_mod.digest([job, v['what']])))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, case=rec_mod.clean(job),
                               violation=v), f, indent=1)
            print('  %s %s' % (v['what'], json.dumps(v['detail'])[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    need = mod.NEED
    missing = {k: n for k, n in need.items() if events.get(k, 0) < n}
    if missing and not only:
        print('INCONCLUSIVE property=%s monitor not reached: wanted %s'
              % (prop, missing))
        return 3
    if len(unsure) > max(2, 0.05 * done):
        print('INCONCLUSIVE property=%s %d of %d cases gave no verdict'
              % (prop, len(unsure), done))
        return 3
    print('OK property=%s' % prop)
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
