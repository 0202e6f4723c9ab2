#!/usr/bin/env python3
"""replay.py EVIDENCE/replay/CNN.json -- rebuild from /repo's current tree and execute the counterexample natively."""
import json, os, shutil, sys
r = json.load(open(sys.argv[1]))
os.environ['VERIF_TIER'] = r['tier']
import check
run = os.path.join(check.WORK, 'replay-%d' % os.getpid())
os.makedirs(run)
try:
    check.build(run)
    got = check.native(run, r['harness'], r['inputs'])
finally:
    shutil.rmtree(run)
print('%s of %s: %s "%s"' % (r['harness'], r['property'], r['kind'], r['check']))
print('native execution: %s %s' % got[:2])
v = {'kind': r['kind'], 'msg': r['check']}
print('reproduced' if check.reproduces(v, got) else 'not reproduced')
sys.exit(1 if check.reproduces(v, got) else 0)
