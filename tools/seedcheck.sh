#!/bin/bash
# seedcheck.sh ID [PROP...]: runs the checks against a planted bug (in a private copy)
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift; props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
S=/tmp/vpchk.$id; rm -rf "$S"; mkdir -p $S; cp -a /repo/. $S/repo 2>/dev/null; rm -rf "$S/repo/_build"; git -C $S/repo apply $V/seeded/$id/patch.diff || exit 3
for p in $props; do
  r=$(cd $V && unshare -m env S=$S bash -c "mount --bind $S/repo /repo && python3 check.py $p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$r" | grep -c '^VIOLATION') violations"; echo "$r" | grep -A1 -E '^VIOLATION|UNCONF|INCONC|MISM' | cut -c1-300 | head -${LINES_:-6}
done
rm -rf "$S"
