#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness natively from /repo's current tree and rerun a recorded counterexample."""
import sys, json, check, props
r = json.load(open(sys.argv[1])); check.T0 = 0
j = [j for j in props.PROPS[r['property']]['jobs'] if j['name'] == r['job']][0]
exe = check.build_job(j, r['tier'], True)
rc, err = check.replay(exe, r['model'], 30)
print(err); print('native result:', check.classify(rc, err)); sys.exit(0 if rc == 0 else 1)
