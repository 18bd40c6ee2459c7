#!/bin/bash
# usage: stable.sh DIR   runs the repository's stable tests on a scratch copy DIR and lists those of the baseline that no longer pass
D=$(realpath "$1"); W=$(mktemp -d /tmp/stable_XXXX)
mkdir $W/reports
sed -e "s#/repo#$D#g" -e "s#export REPORT=.*#export REPORT=$W/reports#" /opt/vp/test.sh > $W/test.sh
grep -rl "/repo" /opt/venv/lib/python3.12/site-packages/*.pth /opt/venv/lib/python3.12/site-packages/*.egg-link 2>/dev/null
PYTHONPATH=$D bash <(sed -e "s#PYTHONPATH=/opt/vp#PYTHONPATH=/opt/vp:$D#" $W/test.sh) $W/out.json > $W/log 2>&1
python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','tests'):
            if k in x: return names(x[k])
        return set(k for k,v in x.items() if v in ('passed','pass',True))
    return set(x)
s,p=names(b),names(o)
print('stable',len(s),'passing',len(s&p)); print('\n'.join(sorted(s-p)[:8]))
P
/bin/rm -rf "$W"
