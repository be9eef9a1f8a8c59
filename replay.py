"""replay.py <replay file>: runs the recorded input on the compiled code of the current tree again."""
import json, sys
sys.path.insert(0, __file__.rsplit('/', 1)[0] if '/' in __file__ else '.')
from vp import conc, native
d = json.load(open(sys.argv[1]))
if d['kind'] != 'execution':
    print(json.dumps(d, indent=1)); sys.exit(1)
ck = conc.load(d['checker'])()
nat = ck.open()
try:
    ck.check(nat, d['input'])
    print('the property holds on this input'); sys.exit(0)
except conc.Bad as e:
    print('property %s fails: %s' % (d['property'], e)); sys.exit(1)
