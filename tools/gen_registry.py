#!/usr/bin/env python3
"""Writes harness/mv/registry_test.go: one constructor per message type named in the committed schema."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = json.load(open(root + '/harness/ref/schema.json'))
mod = 'github.com/botlink/go-mavlink2'
def body(ds):
    out = []
    for d in ds:
        p = d['Package']
        q = 'uavionix' if p == 'uAvionix' else p
        for m in d['Msgs']:
            out.append('\tregistry["%s.%s"] = func() mavlink2.Message { return &%s.%s{} }' % (p, m['Type'], q, m['Type']))
    return out
main = [d for d in s['Dialects'] if d['Package'] != 'uAvionix']
uav = [d for d in s['Dialects'] if d['Package'] == 'uAvionix']
with open(root + '/harness/mv/registry_test.go', 'w') as f:
    f.write('// Code generated by tools/gen_registry.py; DO NOT EDIT.\n\npackage mv\n\nimport (\n\tmavlink2 "%s"\n' % mod)
    for d in main:
        f.write('\t"%s/%s"\n' % (mod, d['Package']))
    f.write(')\n\nvar registry = map[string]func() mavlink2.Message{}\n\nfunc init() {\n' + '\n'.join(body(main)) + '\n}\n')
with open(root + '/harness/mv/registry_uavionix_test.go', 'w') as f:
    f.write('// Code generated by tools/gen_registry.py; DO NOT EDIT.\n\n//go:build uavionix\n\npackage mv\n\nimport (\n\tmavlink2 "%s"\n\tuavionix "%s/uAvionix"\n)\n\nfunc init() {\n' % (mod, mod) + '\n'.join(body(uav)) + '\n}\n')
