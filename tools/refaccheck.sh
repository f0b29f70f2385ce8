#!/bin/bash
# refaccheck.sh [-p "PROPS"] ID...: applies a behaviour preserving edit (tools/refac/specs.py) to a scratch copy of /repo
# and runs the checks of its properties against it in a private mount namespace.
snap=$(mktemp -d /tmp/seedv.XXXX)
cp -a /verif $snap/verif
for id in "$@"; do
  s=$(mktemp -d /tmp/seed.XXXX); cp -a /repo $s/repo
  props=$(python3 - "$id" $s/repo <<'P'
import runpy,sys
id,root=sys.argv[1:]
d=[x for x in runpy.run_path('/verif/tools/refac/specs.py')['REFAC'] if x['id']==id][0]
for f,a,b in d['edits']:
    p=root+'/'+f; s=open(p).read()
    if s.count(a)!=1: print('EDIT',f,s.count(a),a[:60]); sys.exit(1)
    open(p,'w').write(s.replace(a,b))
if d.get('special')=='leaf':
    p=root+'/index/annoyindex.go'; s=open(p).read()
    # move the rest of the split behind the call of the leaf
    i=s.index('@@MID@@'); j=s.index('		return item\n	}\n\n	threadedBuildPolicy.LockSharedNodes()\n',i)
    k=s.index('func (idx *AnnoyIndexImpl[TV, TIX]) splitImbalance(')
    tail=s[j+len('		return item\n	}\n\n	threadedBuildPolicy.LockSharedNodes()\n'):k]
    leaf=s[i+len('@@MID@@\n'):j]+'		return item\n}\n\n'
    s=s[:i]+tail+leaf+s[k:]
    open(p,'w').write(s)
print(d['props'])
P
) || { echo "$id: $props"; rm -rf $s; continue; }
  (cd $s/repo; . /opt/vp/env.sh; gofmt -w $(git diff --name-only); go build ./... && go vet ./... 2>&1 | grep -v unsafe | head -3)  > $s/b 2>&1 || { echo "$id: does not build"; head -5 $s/b; rm -rf $s; continue; }
  for p in $props; do
    unshare -m bash -c "mount --bind $s/repo /repo && mount --bind $snap/verif /verif && cd /verif && timeout 900 ./check.sh $p quick" > $s/out 2>&1; rc=$?
    echo "$id ($p): exit $rc $(grep -E '^VIOLATION' $s/out) $(grep -cE '^failed' $s/out) failed; $(grep -m3 -E '^failed' $s/out | cut -c1-150 | tr '\n' '|')"
  done
  rm -rf $s
done
rm -rf $snap
