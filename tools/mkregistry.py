#!/usr/bin/env python3
"""harness/registry.go from harness/vocab.txt"""
import os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness')
rows = [l.split() for l in open(os.path.join(d, 'vocab.txt')) if l.strip() and not l.startswith('#')]
with open(os.path.join(d, 'registry.go'), 'w') as f:
    f.write('package main\n\n// made by tools/mkregistry.py\n\nimport (\n\t"reflect"\n\n\tcypher "github.com/manhcuongbk56/cypher-go-dsl"\n)\n\n')
    f.write('var functions = map[string]reflect.Value{\n')
    for r in rows:
        f.write('\t"%s": reflect.ValueOf(cypher.%s),\n' % (r[0], r[0]))
    f.write('}\n\nvar vocabulary = []word{\n')
    for r in rows:
        f.write('\t{"%s", "%s", "%s"},\n' % (r[0], '' if r[1] == '-' else r[1], r[2]))
    f.write('}\n')
