"""Calls the (unsanitized) kernel many times and prints the growth of the
resident memory in bytes.   usage: child_leak.py <native dir> <k> <m> <n>
<calls>"""
import os
import sys

where = sys.argv[1]
k, m, n, calls = map(int, sys.argv[2:6])
sys.path[0:1] = [where]
import numpy as np       # noqa: E402
import violations        # noqa: E402

rs = np.random.RandomState(1)
A = np.ascontiguousarray(rs.randint(0, 9, (k, m, n)).astype(float))
b = np.ascontiguousarray(rs.randint(1, 5 * n, (k, m)).astype(float))


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * os.sysconf('SC_PAGESIZE')


for _ in range(max(20, calls // 5)):
    violations.compute_all_violations(A, b)
r0 = rss()
for _ in range(calls):
    violations.compute_all_violations(A, b)
print('GROWTH', rss() - r0)
