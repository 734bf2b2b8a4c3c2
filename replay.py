#!/usr/bin/env python3
"""replay.py FILE : run a recorded counterexample on the compiled code of /repo (plain, sanitised, valgrind or TSan build)."""
import concurrent.futures as cf, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as sx
import check
d = json.load(open(sys.argv[1]))
u = [x for x in check.load_units() if x['prop'] == d['property'] and x['name'] == d['unit']][0]
ok, text = sx.confirm(u, d['params'], {'kind': d['kind'], 'id': d['check'], 'model': d['input']}, cf.ThreadPoolExecutor(8))
print(('REPRODUCED ' if ok else 'not reproduced: ') + text)
os._exit(1 if ok else 0)
