"""python -m battery run PROP SEED COUNT BUDGET OUT  |  python -m battery replay FILE"""
import json
import sys

from . import base
from . import precip, temp, other, io_, more  # noqa: F401  (register scenarios)

if sys.argv[1] == 'run':
    prop, seed, count, budget, out = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), sys.argv[6]
    rep = base.run_property(prop, seed, count, budget)
    with open(out, 'w') as f:
        json.dump(rep, f, indent=1, default=repr)
elif sys.argv[1] == 'replay':
    d = json.load(open(sys.argv[2]))
    case = d['case']
    tag, err = base.run_case(d['property'], case['scenario'], case['k'], case['seed'])
    print('replay %s %s: %s' % (d['property'], case['scenario'], err or 'property holds'))
    sys.exit(1 if err else 0)
