#!/bin/bash
# tryseed.sh <id> [nocheck]: demo without and with the patch, then the property's quick check, on a scratch copy of the repository
export V=$(cd "$(dirname "$0")/.."&&pwd); R=${SGRID_REPO:-/repo}
id=$1; d=$V/seeded/$id
rm -rf "/tmp/ws_$id"; mkdir -p "/tmp/ws_$id"; cp -a $R/. "/tmp/ws_$id/"
cd "/tmp/ws_$id"; git apply $d/patch.diff || { echo "NOAPPLY $id"; exit 1; }
sed "s#/repo#/tmp/ws_$id#g" /opt/vp/build.sh > "/tmp/ws_$id/b.sh"
bash "/tmp/ws_$id/b.sh" > "/tmp/ws_$id/b.log" 2>&1 || { echo "NOBUILD $id"; tail -3 "/tmp/ws_$id/b.log"; exit 1; }
( cd $R && bash $d/demo.sh > /tmp/ws_$id/d0 2>&1 ); r0=$?
bash $d/demo.sh > /tmp/ws_$id/d1 2>&1; r1=$?
echo "$id demo: clean $r0 patched $r1  $(tail -1 /tmp/ws_$id/d1 | cut -c1-150)"
if [ "$2" != nocheck ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd $V; SGRID_REPO=/tmp/ws_$id timeout 900 python3-vt check.py $p quick > "/tmp/ws_$id/c.log" 2>&1; rc=$?
  echo "$id check $p rc=$rc $(grep -m1 VIOLATION /tmp/ws_$id/c.log)"; tail -1 "/tmp/ws_$id/c.log" | cut -c1-200
fi
rm -rf "/tmp/ws_$id"
