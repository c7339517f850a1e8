#!/usr/bin/env python3
"""Prints MIN_COUNTERS at ~35% of what the last run counted."""
import json, sys
for i in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % i))['coverage']
    c = d['observed']
    print(i, {k: (int(v * .35) if v < 100 else int(float('%.1g' % (v * .38)))) for k, v in c.items() if isinstance(v, int)})
