#!/bin/bash
# run all quick checks, show anything not discharged
cd /verif
for p in ${*:-$(seq -f "P%02g" 1 27)}; do
 timeout 900 python3 tools/check.py $p quick > /tmp/all-$p.log 2>&1; rc=$?
 python3 - $p $rc <<'P'
import json,sys
p,rc=sys.argv[1:]
e=json.load(open(f'/verif/evidence/{p}.json'));c=e['coverage']
bad=[f['function']+':'+f['status'] for f in c['functions_under_contract'] if f['status'] not in('discharged','assumed')]
print(p,'rc',rc,len([f for f in c['functions_under_contract'] if f['status']=='discharged']),bad,c['undecided'],c['failed_dependencies'],c.get('verifier_wall_s'),open(f'/tmp/all-{p}.log').read()[:100].replace(chr(10),' '))
P
done
