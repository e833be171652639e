#!/bin/bash
# builds /repo and runs its stable tests; prints the number of stable tests that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/o.json'));print('missing', len(b-set(o['passed'])), sorted(b-set(o['passed']))[:5])"
