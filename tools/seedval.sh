#!/bin/bash
# demo validation only
id=$1; S=/verif/seeded/$id; R=/tmp/sv_$id
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
git clone -q /repo $R && cd $R || exit 9
fin() { cd /; rm -rf "/tmp/sv_$id"; exit $1; }
bash $S/demo.sh > /tmp/sv_$id.demo0 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/sv_$id.demo0; fin 1; }
git apply $S/patch.diff || { echo "$id: patch does not apply"; fin 1; }
python3 - "$id" <<'P'
import subprocess,sys
d=subprocess.run(['git','diff','-U0'],capture_output=True,text=True).stdout
f=None;bad=[];orig=0
for l in d.splitlines():
    if l.startswith('--- a/'): f=l[6:]; b=subprocess.run(['git','blame','-s','HEAD','--',f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('@@'):
        a=l.split()[1][1:].split(','); n=int(a[0]); c=int(a[1]) if len(a)>1 else 1
        for i in range(n,n+c):
            if '5a56f98' in b[i-1].split()[0]: orig+=1
            else: bad.append((f,i,b[i-1]))
print(sys.argv[1],'orig',orig,'own',len(bad),bad[:2])
P
go build ./... || { echo "$id: does not build"; fin 1; }
go test -vet=off -count=1 ./... > /tmp/sv_$id.tests 2>&1 || { echo "$id: tests fail"; grep -m5 -E -- '--- FAIL|FAIL' /tmp/sv_$id.tests; }
timeout 300 bash $S/demo.sh > /tmp/sv_$id.demo1 2>&1 && { echo "$id: demo PASSES with the patch"; fin 1; }
echo "$id ok"
fin 0
