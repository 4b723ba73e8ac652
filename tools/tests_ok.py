#!/usr/bin/env python3
"""Compare a test.sh result file with the baseline."""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
t = json.load(open(sys.argv[1]))
missing = [x for x in b['stable'] if x not in t['passed']]
print('stable', len(b['stable']), 'missing', missing)
sys.exit(bool(missing))
