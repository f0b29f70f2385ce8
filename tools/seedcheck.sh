#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy of /repo (applies, builds, passes the stable tests,
# demo fails with it and passes without), then runs the property's check in a private mount namespace in which
# /repo is the patched copy and /verif a copy of the current state. NOCHECK=1: confirmation only.
snap=$(mktemp -d /tmp/seedv.XXXX)
cp -a /verif $snap/verif
for id in "$@"; do
  d=/verif/seeded/$id
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  s=$(mktemp -d /tmp/seed.XXXX)
  cp -a /repo $s/repo
  (cd $s/repo && bash $d/demo.sh >$s/demo0 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -5 $s/demo0; rm -rf $s; continue; }
  git -C $s/repo apply $d/patch.diff || { echo "$id: does not apply"; rm -rf $s; continue; }
  if (cd $s/repo && bash $d/demo.sh >$s/demo1 2>&1); then echo "$id: demo passes with the bug"; rm -rf $s; continue; fi
  tests=$(cd $s/repo && . /opt/vp/env.sh && go build ./... 2>&1 | tail -3; go test -count=1 ./... 2>&1 | grep -E "^(FAIL|---)" | grep -vE "^FAIL$|dotproduct|TestGetDotProductDistance" | head -5)
  [ -n "$tests" ] && echo "$id: tests: $tests"
  if [ -z "$NOCHECK" ]; then
    unshare -m bash -c "mount --bind $s/repo /repo && mount --bind $snap/verif /verif && cd /verif && timeout 900 ./check.sh $prop quick" > $s/out 2>&1; rc=$?
    echo "$id ($prop): exit $rc $(grep -E '^VIOLATION' $s/out) $(grep -c . $s/out) lines; $(grep -m2 -E '^failed' $s/out | tr '\n' '|')"
  else echo "$id ($prop): confirmed"; fi
  rm -rf $s
done
rm -rf $snap
