#!/usr/bin/env python3
"""replay.py FILE: runs the counterexample of a replay file against the code compiled from /repo."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
d = json.load(open(sys.argv[1]))
if 'inputs' not in d:
    print('no failing input; failed obligation:', d.get('obligation'), 'at', d.get('location'))
    sys.exit(1)
u = C.Unit(d['contract'], d['header'])
c = C.Check.__new__(C.Check)
c.dir = tempfile.mkdtemp(prefix='vpreplay')
exe, err = C.Check.native(c, [u], 'r')
if not exe:
    print(err); sys.exit(2)
rc, o, e = C.run([exe, 'replay', u.name] + [f'{k}={v}' for k, v in d['inputs'].items()], timeout=60, asan=True)
print(o + e)
shutil.rmtree(c.dir)
sys.exit(rc)
