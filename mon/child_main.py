"""Runs the repository's main.py exactly as a user would (same argv), with
observers on the public methods, and writes what it observed to a side file.

usage: child_main.py <native dir> <repo> <side file> <alarm|-> main.py-args"""
import json
import os
import runpy
import signal
import sys
import time

where, repo, side, alarm = sys.argv[1:5]
sys.path[0:1] = [where, repo]
here = os.path.dirname(os.path.abspath(__file__))
sys.path.append(here)
from hooks import Hooks     # noqa: E402

seen = dict(loads=[], parts=[], first=0, partition=0, solves=0, kind=None,
            uppers=[])
H = Hooks()


def wrap_solve(orig, self, a, k):
    seen['kind'] = type(self).__name__
    seen['kwargs'] = {q: v for q, v in k.items() if q != 'path'}
    seen['time_limit'] = float(self.time_limit)
    seen['gap'] = float(self.gap)
    keep.append(self)
    seen['solve_start'] = time.time() - T0
    try:
        seen['armed'] = True
        if alarm != '-' and not alarm.startswith('@'):
            signal.setitimer(signal.ITIMER_REAL, float(alarm))
        return orig(self, *a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        seen['armed'] = False
        seen['solve_end'] = time.time() - T0


def optimize(orig, self, a, k):
    if seen.get('armed'):
        seen['optimize'] = seen.get('optimize', 0) + 1
        if 'timer' not in seen and (alarm == '-' or alarm[0] == '@'):
            # the time until the alarm, and the time it has run already
            seen['timer'] = [signal.getitimer(signal.ITIMER_REAL)[0],
                             time.time() - T0]
        if alarm == '@%d' % seen['optimize']:
            signal.raise_signal(signal.SIGALRM)
    return orig(self, *a, **k)


def count(key):
    def after(s, a, k, t, r):
        seen[key] += 1
    return after


def loaded(s, a, k, t, r):
    nb = k['nb_subsets'] if 'nb_subsets' in k else a[0]
    seen['loads'].append(int(nb))
    part = k['partition'] if 'partition' in k else a[1]
    seen['parts'].append([[int(q) for q in c] for c in part])


def projecting(s, a, k):
    if keep and keep[-1].vUB is not None:
        seen['uppers'].append(float(keep[-1].vUB))


keep = []
H.attach('src.solver.MilpSolver:MilpSolver.solve', around=wrap_solve)
H.attach('src.solver.AdaptivePartitioner:AdaptivePartitioner.solve',
         around=wrap_solve)
H.attach('src.optim.OptiModel:OptiModel.solve', around=optimize)
H.attach('src.UpperBounder:UpperBounder.first_iteration_bound',
         after=count('first'))
H.attach('src.UpperBounder:UpperBounder.partition_bound',
         after=count('partition'))
H.attach('src.instance.PartitionChanceKnapInstance:'
         'PartitionChanceKnapInstance.load_partition', after=loaded)
H.attach('src.LowerBounder:LowerBounder.deterministic_bound',
         before=projecting)
H.attach('src.solver.Solver:Solver.solve_cclp_model', after=count('solves'))
seen['missing'] = H.missing
sys.argv = ['main.py'] + sys.argv[5:]
T0 = time.time()
try:
    runpy.run_path(os.path.join(repo, 'main.py'), run_name='__main__')
    seen['exit'] = 'ok'
except SystemExit as e:
    seen['exit'] = 'exit %s' % e.code
except BaseException as e:
    import traceback
    seen['exit'] = '%s: %s' % (type(e).__name__, e)
    seen['where'] = traceback.format_exc()[-600:]
signal.setitimer(signal.ITIMER_REAL, 0)
signal.alarm(0)
seen['wall'] = time.time() - T0
seen['error'] = H.error
if keep:
    s = keep[-1]
    x = getattr(s, 'xLB', None)
    seen['vLB'] = None if s.vLB is None else float(s.vLB)
    seen['vUB'] = None if s.vUB is None else float(s.vUB)
    seen['xLB'] = None if x is None else [float(v) for v in x]
with open(side, 'w') as f:
    json.dump(seen, f)
