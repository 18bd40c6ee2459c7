"""writes MANIFEST.json from the check modules (level and technique are stated there)"""
import json, os, sys, importlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
checks = []
for i in range(1, 22):
    p = 'C%02d' % i
    m = importlib.import_module('checks.' + p.lower())
    ev = os.path.join(here, 'evidence', p + '.json')
    proved = False
    if os.path.exists(ev):
        e = json.load(open(ev)); proved = e['coverage']['obligations'] > 0
    checks.append(dict(property=p, quick_cmd='./run.sh ' + p, thorough_cmd='./run.sh %s --tier thorough' % p,
                       technique=getattr(m, 'TECHNIQUE', 'contracts evaluated on the real code (bounded stand-in)') if proved else 'contracts evaluated on the real code (bounded stand-in)',
                       level=m.LEVEL if proved else 'exploration', level_note=m.EXPLANATION + ' Bound of the stand-in layer: ' + getattr(m, 'BOUND', '')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
