#!/bin/bash
# tryseed.sh ID... : confirm each seed in a private copy of /repo (applies, demo passes without / fails with it, stable tests pass) and run its check
# (or the checks named in CHECKS). NOTEST=1 skips the tests. J=n runs n seeds at once.
V=$(cd "$(dirname "$0")/.." && pwd)
one() { s=$1; W=/tmp/ts_$s; rm -rf "$W"; cp -a /repo "$W"; (cd "$W" && git checkout -q -- .); T=/tmp/tsout_$s; rm -rf $T; mkdir -p $T
  unshare -Urm bash -s "$s" "$W" "$T" "$V" <<'IN'
s=$1; W=$2; T=$3; V=$4; mount --bind "$W" /repo || exit 1; cd /repo; D=$V/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh > $T/b0.log 2>&1 || { echo "$s: clean build fails"; exit 1; }
bash $D/demo.sh > $T/d0.log 2>&1; r0=$?; [ $r0 = 0 ] || { echo "$s: demo fails on clean tree ($r0)"; tail -5 $T/d0.log; exit 1; }
git apply $D/patch.diff || { echo "$s: does not apply"; exit 1; }
bash /opt/vp/build.sh > $T/b.log 2>&1; rb=$?; bash $D/demo.sh > $T/d1.log 2>&1; r1=$?; rt=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $T/t.json > $T/t.log 2>&1; rt=$(python3 -c "import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('missing',sorted(b-set(json.load(open('$T/t.json'))['passed'])))"); fi
cd $V; for c in ${CHECKS:-$P}; do t0=$(date +%s); timeout 900 python3 run.py $c > $T/c_$c.log 2>&1; rc=$?
  echo "$s [$P]: build $rb demo clean $r0 patched $r1 tests $rt check $c rc $rc ($(( $(date +%s)-t0 )) s) viol $(grep -c ^VIOLATION $T/c_$c.log) :: $(grep -v VIOLATION $T/c_$c.log | head -1 | cut -c1-120)"
  [ $c = $P ] && flock $V/tools/kf.py python3 - $s $rc $V <<'PY'
import json,os,sys
p=sys.argv[3]+'/tools/seed_results.json'; r=json.load(open(p)) if os.path.exists(p) else {}
r[sys.argv[1]]='yes' if sys.argv[2]=='1' else 'no'; json.dump(r,open(p,'w'),indent=0,sort_keys=True)
PY
done
IN
  case "$W" in /tmp/ts_s*) rm -rf "$W";; esac; }
export -f one; export V
printf '%s\n' "$@" | xargs -P ${J:-1} -I{} bash -c 'one {}'
