"""tools/refactor_results.md from the log of tools/try_refactor.py"""
import collections
import re
import sys
t = collections.OrderedDict()
for l in open(sys.argv[1]):
    m = re.match(r'(\w+)\s+(C\d\d) rc=(-?\d+)\s+\d+s units (\d+) proved (\d+) failed (\d+) bounded (\d+)', l)
    if m:
        k, p, rc, u, pr, fa, bo = m.groups()
        r = t.setdefault(k, collections.Counter())
        r['n'] += 1
        r['quiet'] += rc == '0'
        r['units'] += int(u)
        r['proved'] += int(pr)
        r['bounded'] += int(bo)
print('| rewrite | properties checked | quiet | units | still proved | bounded only |\n|---|---|---|---|---|---|')
for k, r in t.items():
    print('| %s | %d | %d | %d | %d | %d |' % (k, r['n'], r['quiet'], r['units'], r['proved'], r['bounded']))
