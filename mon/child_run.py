"""One monitored run in a fresh process: prints a digest of its trace.

usage: child_run.py <native dir> <repo> <case json>"""
import json
import os
import sys

where, repo, text = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
sys.path[0:1] = [where, repo, here]
os.environ['MON_REPO'] = repo
import hooks         # noqa: E402
from checks import c18   # noqa: E402

case = json.loads(text)
with hooks.quiet():
    import src.optim.OptiModel   # noqa
out = c18.outcome(case['seed'], case['kw'], case['what'])
print('RESULT ' + json.dumps(out))
