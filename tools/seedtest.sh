#!/bin/bash
# seedtest.sh ID [TIME]: validates seeded/ID in a scratch copy of /repo and runs its property's check on it.
id=$1; T=${2:-45}; S=/verif/seeded/$id; R=/tmp/sd_$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
mkdir -p $R && cp -a ${BASE:-/repo}/. $R/ && cd $R || exit 9
fin() { cd /; rm -rf "/tmp/sd_$id"; exit $1; }
bash $S/demo.sh > /tmp/sd_$id.demo0 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/sd_$id.demo0; fin 1; }
git apply $S/patch.diff || { echo "$id: patch does not apply"; fin 1; }
# the removed lines must be original
python3 - <<'P' || fin 1
import subprocess
d=subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout
f=None;bad=[];orig=0
for l in d.splitlines():
    if l.startswith('--- a/'): f=l[6:]; b=subprocess.run(['git','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('@@'):
        a=l.split()[1][1:].split(','); n=int(a[0]); c=int(a[1]) if len(a)>1 else 1
        for i in range(n,n+c):
            if '5a56f98' in b[i-1].split()[0]: orig+=1
            else: bad.append((f,i,b[i-1]))
print('original lines changed:',orig,'lines of my own changed:',bad)
P
go build ./... || { echo "$id: does not build"; fin 1; }
go test -vet=off -count=1 ./... > /tmp/sd_$id.tests 2>&1 || { echo "$id: tests fail"; grep -m5 -E -- '--- FAIL|FAIL' /tmp/sd_$id.tests; }
timeout 300 bash $S/demo.sh > /tmp/sd_$id.demo1 2>&1 && { echo "$id: demo PASSES with the patch"; fin 1; }
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for q in ${PROPS:-$p}; do
 cd /verif && VERIF_REPO=$R ./check $q --time $T > /tmp/sd_$id.$q.out 2>&1; rc=$?
 echo "$id $q exit $rc: $(tail -3 /tmp/sd_$id.$q.out | cut -c1-300 | tr '\n' ' ')"
done
fin 0
