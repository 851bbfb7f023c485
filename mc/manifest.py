"""`python -m mc.manifest` rewrites /verif/MANIFEST.json from the properties and the check modules present."""
import importlib
import json
import os

from .props import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    checks, na = [], []
    for p in P:
        i = p['id']
        if not os.path.exists(os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')):
            na.append(dict(property=i, reason='no check built for it yet'))
            continue
        m = importlib.import_module('mc.checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check.sh {} quick'.format(i), thorough_cmd='./check.sh {} thorough'.format(i),
                           evidence_file='evidence/{}.json'.format(i),
                           technique=getattr(m, 'TECHNIQUE', 'explicit-state bounded-exhaustive model checking of the real code against a reference model'),
                           level=m.LEVEL, level_note='exhaustive within bounds; quick: {}; thorough: {}'.format(m.BOUNDS['quick'], m.BOUNDS['thorough'])))
    doc = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='All checks run the real code of /repo (no build step, no hooks) with /opt/venv/bin/python. Replay a violation with: ./check.sh <ID> --replay <file>. Known findings: KNOWN_FINDINGS.txt.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)


main()
