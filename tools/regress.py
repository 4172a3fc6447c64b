#!/usr/bin/env python3
"""builds /repo, runs its tests and compares them with the list of stable tests"""
import json,subprocess,sys
r=subprocess.run('bash /opt/vp/build.sh >/tmp/b.log 2>&1',shell=True).returncode
if r: print('BUILD FAILED'); sys.exit(1)
subprocess.run('bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1',shell=True)
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=sorted(set(b['stable'])-set(o['passed']))
print(len(b['stable']),'stable',len(miss),'missing',miss[:20]); sys.exit(bool(miss))
