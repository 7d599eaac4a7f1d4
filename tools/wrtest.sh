#!/bin/bash
# wrtest.sh DIR: build and run the stable tests of the work copy DIR, seen as /repo in a mount namespace of its own
W=$(realpath "$1")
unshare -m bash -c "mount --bind $W /repo && bash /opt/vp/build.sh >/tmp/wrtest.build 2>&1 && bash /opt/vp/test.sh /tmp/wrtest.json >/tmp/wrtest.log 2>&1; python3 - <<'P'
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/wrtest.json'))
m=sorted(s-set(t['passed'])); print(len(s), 'stable;', len(m), 'missing', m[:12])
P"
