#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace)
V=$(cd "$(dirname "$0")/.." && pwd)
if [ -z "$IN_NS" ]; then
  S=/tmp/vpseed; mkdir -p $S; [ -d $S/repo ] || cp -a /repo $S/repo
  rsync -a --delete --exclude _build /repo/ $S/repo/ 2>/dev/null || { cp -a /repo/src /repo/include $S/repo/; }
  exec unshare -m env IN_NS=1 bash -c "mount --bind $S/repo /repo && exec bash $V/tools/seedtest.sh $*"
fi
python3 - <<'P' >/dev/null
P
for id in "$@"; do
  d=$V/seeded/$id; w=/tmp/vpdemo.$id; rm -rf "$w"; mkdir -p "$w"; cp $d/* "$w"; rm -f "$w"/*.diff "$w"/meta.json
  git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/tmp/vps.log 2>&1 || { echo "$id: base build failed"; continue; }
  (cd /repo && timeout 300 bash "$w/demo.sh" >/tmp/vpsd0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/vps.log 2>&1 || { echo "$id: build failed"; tail -20 /tmp/vps.log; git -C /repo checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/vpt.json >/dev/null 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/vpt.json'))['passed']);print(sorted(b-p))")
  (cd /repo && timeout 300 bash "$w/demo.sh" >/tmp/vpsd1.log 2>&1); b=$?
  git -C /repo checkout -q -- .
  ok=BAD; [ $a = 0 ] && [ $b != 0 ] && [ "$t" = "[]" ] && ok=OK
  echo "$id: $ok demo base=$a patched=$b broken tests=$t"
  [ $ok = OK ] || { tail -5 /tmp/vpsd0.log; tail -5 /tmp/vpsd1.log; }
  rm -rf "$w"
done
