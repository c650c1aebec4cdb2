#!/bin/bash
# seedtest.sh ID...: in a private copy of /repo (mounted over /repo in a private mount namespace), confirm that a planted
# change applies, builds, passes the stable tests, that its demo tells the trees apart, and whether the property's check sees it.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; W=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo $W/r; mkdir $W/v; cp -a $V/sa $V/check.py $V/KNOWN_FINDINGS.txt $W/v/
  unshare -m bash -c "
    mount --bind $W/r /repo && cd /repo
    bash /opt/vp/build.sh > $W/b0.log 2>&1
    timeout 300 bash $V/seeded/$id/demo.sh > $W/d0.log 2>&1; d0=\$?
    git apply $V/seeded/$id/patch.diff || { echo '$id: patch does not apply'; exit; }
    bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo '$id: build fails'; tail -5 $W/b1.log; exit; }
    timeout 300 bash $V/seeded/$id/demo.sh > $W/d1.log 2>&1; d1=\$?
    t=skip
    if [ -z \"\$NOTEST\" ]; then
      OMP_WAIT_POLICY=passive bash /opt/vp/test.sh $W/o.json > $W/t.log 2>&1
      t=\$(python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
o=set(json.load(open('$W/o.json'))['passed'])
print('lost=%s' % [x for x in b if x not in o][:3])\")
    fi
    p=\$(python3 -c \"import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])\")
    (cd $W/v && python3 check.py \$p > $W/c.log 2>&1); c=\$?
    echo \"$id: demo \$d0/\$d1 tests \$t check \$p exit \$c\"
    [ \$d0 -eq 0 ] || tail -3 $W/d0.log
    [ \$c -eq 1 ] && grep -m2 '\\[' $W/c.log | cut -c1-260 || tail -3 $W/c.log | cut -c1-400
  "
  rm -rf "$W"
}
export -f one; export V
printf '%s\n' "$@" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
