import sys,os,json,subprocess,re
# newseed.py ID PROP PKG: stdin = JSON {"edits":[[file,old,new]...],"demo":gotest,"needs","breaks"}
def make(id,prop,pkg,edits,demo,needs,breaks,demo_sh=None,race=False):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    w='/tmp/ns_'+id; subprocess.run(['rm','-rf',w]); subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,a,b in edits:
        p=w+'/'+f; s=open(p).read()
        assert s.count(a)==1,(f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    subprocess.check_call(['gofmt','-l']+[w+'/'+f for f,_,_ in edits])
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout)
    subprocess.run(['rm','-rf',w])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if demo is not None: open(d+'/demo_test.go','w').write(demo)
    open(d+'/demo.sh','w').write(demo_sh or '''#!/bin/bash
# Runs demo_test.go as a test of ./%s through an overlay. Run in the repository's top directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off TMPDIR="$t"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 %s-timeout 120s -overlay "$t/o.json" -run 'TestDemo' ./%s
''' % (pkg,pkg,'-race ' if race else '',pkg))
