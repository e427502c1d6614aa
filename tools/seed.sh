#!/bin/bash
# Confirms a planted bug in a scratch copy: seed.sh ID...   (development only)
. /opt/vp/env.sh
W=${W:-/tmp/seedwt}
mkdir -p $W
rsync -a --delete --exclude target /repo/ $W/repo/
[ -d $W/repo/target ] || rsync -a /repo/target $W/repo/
for id in "$@"; do
    D=/verif/seeded/$id
    git -C $W/repo checkout -q -- .
    base=34aab66
    git -C $W/repo apply --check $D/patch.diff || { echo "$id: does not apply"; continue; }
    # changed lines must be of the original repository
    python3 - $W/repo $D/patch.diff <<'P' || { echo "$id: touches a line of ours"; continue; }
import sys,re,subprocess
repo,p=sys.argv[1:]
f=None;bad=0
for l in open(p):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
    if m: n=int(m[1]); continue
    if f is None or l.startswith('+++'): continue
    if l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','-C',repo,'blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout
        if not b.startswith('^34aab66') and '34aab66' not in b.split()[0]:
            print('  not original:',f,n,l.rstrip()); bad+=1
        n+=1
    elif l.startswith(' '): n+=1
sys.exit(1 if bad else 0)
P
    cd $W/repo
    timeout 300 bash $D/demo.sh >$W/demo0.log 2>&1; a=$?
    git apply $D/patch.diff
    timeout 300 bash $D/demo.sh >$W/demo1.log 2>&1; b=$?
    if [ $a != 0 ] || [ $b = 0 ]; then echo "$id: demo clean=$a patched=$b"; tail -n5 $W/demo0.log $W/demo1.log; git checkout -q -- .; continue; fi
    sed "s#/repo#$W/repo#;s#/opt/vp/test.log#$W/test.log#" /opt/vp/test.sh >$W/test.sh
    sed -i "s#^LOG=.*#LOG=$W/test.log#" $W/test.sh
    bash $W/test.sh $W/t.json >/dev/null 2>&1
    python3 - $W/t.json $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open(sys.argv[1]))
miss=[x for x in b if x not in t['passed']]
print(sys.argv[2],'OK' if not miss else 'TESTS FAIL %s'%miss[:6])
P
    git checkout -q -- .
done
