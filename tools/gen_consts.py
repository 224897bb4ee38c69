#!/usr/bin/env python3
"""Writes harness/mv/consts_test.go: the value that each named constant of harness/mv/consts.json has in the build.
It is a file of its own behind a build tag, so that a constant that is gone fails C30's build only."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(root + '/harness/mv/consts.json'))
mod = 'github.com/botlink/go-mavlink2'
imp, body = [], []
for p in c:
    if p == '(root)':
        imp.append('\tmavlink2 "%s"' % mod)
        q = 'mavlink2'
    elif p == 'uAvionix':
        imp.append('\tuavionix "%s/uAvionix"' % mod)
        q = 'uavionix'
    else:
        imp.append('\t"%s/%s"' % (mod, p))
        q = p
    for n in c[p]:
        body.append('\tconsts["%s.%s"] = int64(%s.%s)' % (p, n, q, n))
with open(root + '/harness/mv/consts_test.go', 'w') as f:
    f.write('// Code generated by tools/gen_consts.py; DO NOT EDIT.\n\n//go:build consts\n\npackage mv\n\nimport (\n' + '\n'.join(sorted(imp)) + '\n)\n\nfunc init() {\n' + '\n'.join(body) + '\n}\n')
