#!/bin/bash
# tools/bug.sh ID [PROP...]: confirm seeded/ID in a scratch copy of /repo (applies, builds, stable tests
# pass, demo 0 clean / non-zero patched), then run the quick check(s) against the patched copy.
# /repo itself is not touched. NODEMO=1: only run the checks.
set -u
id=$1; shift
d=/verif/seeded/$id
s=/tmp/sr
if [ ! -d $s/.git ]; then git clone -q /repo $s; fi
exec 8>/tmp/sr.lock; flock 8
git -C $s fetch -q origin && git -C $s checkout -q -f FETCH_HEAD 2>/dev/null || git -C $s checkout -q -f origin/HEAD
git -C $s reset -q --hard "$(git -C /repo rev-parse HEAD)"
git -C $s clean -qfd -e _build -e lib -e bin
trap 'git -C /tmp/sr checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
build() { sed "s#/repo#$s#g" /opt/vp/build.sh > /tmp/sr.build.sh; bash /tmp/sr.build.sh > /tmp/sr.build.log 2>&1; }
if [ -z "${NODEMO:-}" ]; then
  build || { echo "$id: clean build failed"; tail -5 /tmp/sr.build.log; exit 2; }
  rm -rf /tmp/sr.demo; mkdir -p /tmp/sr.demo; cp -a "$d/." /tmp/sr.demo/; rm -f /tmp/sr.demo/*.diff /tmp/sr.demo/meta.json
  sed -i "s#/repo#$s#g" /tmp/sr.demo/demo.sh
  (cd $s && timeout 300 bash /tmp/sr.demo/demo.sh) > /tmp/sr.demo.clean 2>&1; c=$?
fi
git -C $s apply --whitespace=nowarn "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
if [ -z "${NODEMO:-}" ]; then
  build || { echo "$id: patched build failed"; grep -E "error" /tmp/sr.build.log | head; exit 2; }
  (cd $s && timeout 300 bash /tmp/sr.demo/demo.sh) > /tmp/sr.demo.bug 2>&1; b=$?
  sed "s#/repo/#$s/#g" /opt/vp/run_tests.py > /tmp/sr.rt.py
  (cd $s && python3 /tmp/sr.rt.py > /tmp/sr.res 2>/tmp/sr.res.err)
  t=$(python3 - <<'P'
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set(l[5:].rstrip('\n') for l in open('/tmp/sr.res') if l.startswith('PASS '))
m=[x for x in st if x not in ok and not x.startswith('ctest')]
print(len(m), m[:3])
P
)
  echo "$id [$prop]: demo clean=$c patched=$b missing-tests=$t"
  [ "$c" = 0 ] || tail -5 /tmp/sr.demo.clean
fi
for p in ${*:-$prop}; do
  o=$(cd /verif && PESIM_REPO=$s PESIM_BUILD=/tmp/sr.pesim PESIM_EVIDENCE=/tmp/sr.evidence bash check.sh "$p" quick 2>&1); rc=$?
  echo "$id check $p: rc=$rc $(echo "$o" | grep -E '^run |VIOLATION|error' | head -2 | tr '\n' ' ' | cut -c1-260)"
done
