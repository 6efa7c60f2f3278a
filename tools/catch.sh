#!/bin/bash
# catch.sh [seed…]: apply each planted bug to a copy of /repo, run the check of its property on it, report;
# the verdicts are kept in tools/catches.json (shown in DESIGN.md)
cd /verif; R=/tmp/catchrepo.$$; cp -a /repo $R; export VP_REPO=$R
for s in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
 git -C $R apply --whitespace=nowarn /verif/seeded/$s/patch.diff || { echo "$s APPLY"; continue; }
 t0=$(date +%s); timeout 900 python3 tools/vp.py check $p quick >/tmp/catch.$$.log 2>&1; rc=$?
 git -C $R checkout -q -- .
 echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/catch.$$.log | cut -c1-80)"
 python3 - "$s" "$p" $rc <<'P'
import json,sys,os
f='tools/catches.json'; d=json.load(open(f)) if os.path.exists(f) else {}
s,p,rc=sys.argv[1:]; d[s]={'1':'caught by '+p,'0':'missed by '+p}.get(rc,'no answer from '+p)
json.dump(dict(sorted(d.items())),open(f,'w'),indent=1)
P
done; rm -rf /tmp/catchrepo.$$ /tmp/catch.$$.log
