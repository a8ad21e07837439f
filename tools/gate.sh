#!/bin/bash
# Development aid: gate.sh ID... tries planted bugs in a private copy (own mount namespace): demo on the clean
# tree (want 0), build and stable tests with the patch, demo with the patch (want not 0), the check of the property.
# CHECKS="C01 C02" gate.sh ID runs other checks instead; NOTEST=1 skips the tests.
V=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; S=/verif/seeded/$id; [ -d $S ] || S=/verif/seeded_other/$id
  W=$(mktemp -d /tmp/gate.XXXXXX); cp -a /repo $W/repo; cp -a /opt/vp $W/vp; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
  unshare -m bash -c "
    mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; cd /repo
    git checkout -q -- . ; bash /opt/vp/build.sh >$W/b0 2>&1 || echo 'build0 FAILS'
    timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; r0=\$?
    if ! git apply $S/patch.diff; then echo '$id: DOES NOT APPLY'; exit; fi
    # every removed line must be an original one
    bash /opt/vp/build.sh >$W/b1 2>&1; rb=\$?
    rt=skipped
    if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh $W/out.json >$W/t 2>&1
      rt=\$(python3 -c \"
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('$W/out.json'))
p=set(o.get('passed') or [k for k,v in o.items() if v in('pass','passed',True)])
print(sorted(set(b)-p)[:5] or 'pass')\"); fi
    timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; r1=\$?
    p=\$(python3 -c \"import json;print(json.load(open('$S/meta.json'))['property'])\")
    res=
    for c in \${CHECKS:-\$p}; do ( cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh \$c >$W/c.\$c 2>&1 ); rc=\$?
      grep -q \"VIOLATION property=\$c \" $W/c.\$c && v=caught || v=quiet; res=\"\$res \$c=\$rc/\$v\"; done
    echo \"$id: demo0=\$r0 build=\$rb tests=\$rt demo1=\$r1 checks:\$res\"
    [ \$r0 = 0 ] || tail -5 $W/d0; [ \$r1 = 0 ] && tail -5 $W/d1; grep -h VIOLATION -A2 $W/c.* | cut -c1-300 | head -4
  "
  rm -rf "$W"
}
export -f one; export V CHECKS NOTEST
if [ $# -gt 1 ]; then printf '%s\n' "$@" | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'; else one "$1"; fi
