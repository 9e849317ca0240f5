"""Writes /verif/DESIGN.md from design.md.in, the catalog, the checks and the results of tools/seeded.py"""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, 'tools')]
sys.dont_write_bytecode = True
import catalog
from pbt import core


def properties():
    core.setup_paths()
    out = ['## Each property', '',
           'For each: what is specified is its statement in `properties.jsonl`; here the technique and oracle, the domain generated, the cost, what is left out, '
           'and the sub-checks with the cases of quick / thorough.', '']
    for p in catalog.PROPS:
        mod = core.load_check(p['id'])
        subs = []
        for s in mod.SUBS:
            subs.append('`{}` ({})'.format(s.name, 'exhaustive sweep' if s.sweep else '{} / {}'.format(s.count['quick'], s.count['thorough'])))
        out += ['**{}. {}.** {}.'.format(p['id'], p['title'], p['technique'][0].upper() + p['technique'][1:]),
                'Domain: {}'.format(p['text']),
                'Non-trivial: {}.'.format(mod.RULE.rstrip('.')),
                'Beyond the tests: {}'.format(p['why']),
                'Limits: {}'.format(p['note']),
                'Sub-checks: {}.'.format(', '.join(subs)), '']
    return '\n'.join(out).rstrip()


def seeded():
    path = os.path.join(VERIF, 'tools', 'seeded.json')
    res = json.load(open(path)) if os.path.exists(path) else {}
    out = ['## Planted bugs', '', 'Each was written from the text of a property and the code, confirmed in a scratch copy (it builds, the stable tests pass, its demonstration passes '
           'without it and fails with it), and kept whether or not it was caught. "Other checks" were run as well and reported it too.', '',
           '| planted bug | property | needs | caught by its check | other checks |', '|---|---|---|---|---|']
    for k in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', k, 'meta.json')))
        r = res.get(k, {})
        out.append('| {} | {} | {} | {} | {} |'.format(k, m['property'], m['needs'].replace('|', '/'), r.get('own', '?'), ', '.join(r['others']) or '-' if 'others' in r else 'not run'))
    return '\n'.join(out)


def main():
    s = open(os.path.join(VERIF, 'tools', 'design.md.in')).read()
    s = s.replace('@PROPERTIES@', properties()).replace('@SEEDED@', seeded())
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(s.rstrip() + '\n')


main()
