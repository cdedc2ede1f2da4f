"""What one case observed: events, distinct states, violations."""
import collections
import hashlib
import json

import numpy as np


def clean(o, depth=0):
    """JSON-able copy, floats shortened, long lists kept."""
    if isinstance(o, dict):
        return {str(k): clean(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [clean(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return clean(o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if f != f or f in (float('inf'), float('-inf')):
            return str(f)
        return float('%.12g' % f)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    return repr(o)[:300]


def digest(o):
    return hashlib.sha1(
        json.dumps(clean(o), sort_keys=True).encode()).hexdigest()[:12]


class Rec:
    def __init__(self):
        self.events = collections.Counter()
        self.states = set()
        self.violations = []
        self.inconclusive = []
        self.sample = None
        self.nontrivial = False

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *sig):
        self.states.add(digest(sig))

    def fail(self, what, /, **detail):
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, detail=clean(detail)))

    def unsure(self, why):
        self.inconclusive.append(why)

    def pack(self):
        return dict(events=dict(self.events), states=sorted(self.states),
                    violations=self.violations,
                    inconclusive=self.inconclusive,
                    sample=clean(self.sample), nontrivial=self.nontrivial)
