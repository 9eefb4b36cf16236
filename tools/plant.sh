#!/bin/bash
# plant.sh ID...: for each seeded change, confirm in a scratch copy that it builds, passes the stable tests, and that
# its demo tells it from the unchanged tree; then run its property's check against it.  The copy is shown at /repo in
# a mount namespace of its own, so that /repo itself is never touched.   OPTS="--flavours rel" is passed to run.py;
# SKIP=1 leaves out build, tests and demo.
V=${V:-/verif}
for id in "$@"; do
  S=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  M=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo "$M/repo"
  out="$id $prop:"
  if [ -z "$SKIP" ]; then
    (cd "$M/repo" && unshare -Urm bash -c "mount --bind $M/repo /repo; cd /repo; bash $S/demo.sh") >/dev/null 2>&1 && out="$out demo-clean-ok" || out="$out DEMO-FAILS-ON-CLEAN"
  fi
  git -C "$M/repo" apply "$S/patch.diff" || out="$out PATCH-FAILS"
  if [ -z "$SKIP" ]; then
    unshare -Urm bash -c "mount --bind $M/repo /repo; cd /repo; bash /opt/vp/build.sh >$M/b.log 2>&1 || exit 7; bash /opt/vp/test.sh $M/t.json >$M/t.log 2>&1; tail -1 $M/t.log | grep -q '88 passed, 0 failed'" && out="$out tests-ok" || { out="$out TESTS-FAIL"; tail -5 $M/b.log $M/t.log; }
    unshare -Urm bash -c "mount --bind $M/repo /repo; cd /repo; bash $S/demo.sh" >$M/d.log 2>&1 && out="$out DEMO-MISSES" || out="$out demo-fails-ok"
    tail -2 $M/d.log
  fi
  t0=$(date +%s)
  VERIF_REPO=$M/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 $V/run.py $prop $OPTS >$M/c.log 2>&1; rc=$?
  grep -h VIOLATION $M/c.log | head -3
  [ $rc = 1 ] && out="$out CAUGHT" || { out="$out MISSED(rc=$rc)"; tail -3 $M/c.log; }
  echo "$out ($(( $(date +%s) - t0 )) s)" | tee -a /tmp/plant.results
  case "$M" in /tmp/plant.??????) rm -rf "$M";; esac
done
