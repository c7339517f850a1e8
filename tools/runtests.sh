#!/bin/bash
# run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/vt_out.json >/tmp/vt_log.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vt_out.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
bp=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
op=set(o['passed'])
print('baseline', len(bp), 'missing now', sorted(bp-op)[:10], len(bp-op))
P
