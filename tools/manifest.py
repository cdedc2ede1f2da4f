"""Regenerates MANIFEST.json from the table below and the checks present."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = 'runtime monitoring of the real code against an independent oracle'
TRACE = 'trace monitors on hooked public methods of real runs'
T = {
 'C01': (ORACLE + ' (final bounds and points)', 'exploration'),
 'C02': (ORACLE + ', logical step clock for termination', 'exploration'),
 'C03': (TRACE + ' (bound brackets, monotonicity)', 'exploration'),
 'C04': (TRACE + ' (partition invariants)', 'exploration'),
 'C05': (TRACE + ' (progress of refinements)', 'exploration'),
 'C06': (ORACLE + ' (every coefficient)', 'exploration'),
 'C07': (ORACLE + ' (native kernel entries)', 'exploration'),
 'C08': (TRACE + ' with an independent optimum per relaxed solve',
         'exploration'),
 'C09': (ORACLE + ' (exact rational classification)', 'exploration'),
 'C10': (ORACLE + ' (exact order statistic)', 'exploration'),
 'C11': (ORACLE + ' over monitored add/remove histories', 'exploration'),
 'C12': ('monitors on the lower-bound component over call histories',
         'exploration'),
 'C13': (ORACLE + ' over all bipartitions; monitored choices',
         'exploration'),
 'C14': ('fault injection: virtual clock expiry and interrupts at every '
         'point, with state and file monitors', 'fault_enumeration'),
 'C15': ('offline checkers over generated files and reader state',
         'exploration'),
 'C16': ('end-to-end runs of the command line with offline checkers over '
         'its files', 'exploration'),
 'C17': ('offline checker recomputing every exported table entry',
         'exploration'),
 'C18': ('differential monitoring of repeated, shared-object and '
         'fresh-process runs', 'exploration'),
 'C19': (TRACE + ' (warm starts, discarded subsets)', 'exploration'),
 'C20': ('AddressSanitizer, UBSan and _GLIBCXX_DEBUG on the native kernel, '
         'with a comparator monitor', 'exploration'),
}
NOTE = {
 'C01': 'Sampled instances (11 families, both types, awkward epsilons), each '
        'compared with an exhaustive or independent optimum; Gurobi trusted '
        'as LP/MIP engine.',
}
DEFAULT = ('Holds on the seeded executions observed (counts in the evidence '
           'file), no claim beyond them; trusts Gurobi as LP/MIP engine and '
           'the independent reference in mon/oracle.py.')
checks, na = [], []
for p in sorted(T):
    if not os.path.exists(os.path.join(here, 'mon/checks',
                                       p.lower() + '.py')):
        na.append(dict(property=p, reason='check not built yet'))
        continue
    checks.append(dict(
        property=p, quick_cmd='./check ' + p,
        thorough_cmd='./check %s --tier thorough' % p,
        technique=T[p][0], level=T[p][1],
        level_note=NOTE.get(p, DEFAULT)))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B tools/selfcheck.py',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: monitors wrap public methods of the '
               'imported classes at run time; the native kernel is rebuilt '
               'out of tree by every check.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
