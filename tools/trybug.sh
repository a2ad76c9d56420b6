#!/bin/bash
# trybug.sh ID...: run the check of each seeded bug's property on a scratch copy with the bug applied
V=${VDIR:-/verif}; R=${RDIR:-/repo}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  w=/tmp/w/try-$id; rm -rf "$w"; mkdir -p /tmp/w; cp -a $R "$w"
  git -C "$w" apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  mkdir -p /tmp/w/build-$id
  out=$(GVC_REPO=$w GVC_BUILD=/tmp/w/build-$id GVC_NOEV=1 bash $V/check.sh $p quick 2>&1); rc=$?
  echo "== $id ($p) rc=$rc: $(echo "$out" | grep -c 'failed obligation') obligations, $(echo "$out" | grep -c 'failing input') inputs"
  echo "$out" | grep -E "VIOLATION|failed obl|failing input|no answer|Error" | head -${LINES_:-6}
  rm -rf "$w" /tmp/w/build-$id
done
