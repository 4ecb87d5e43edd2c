#!/bin/bash
# newseed.sh <id> <property> "<needs>" "<breaks>" : takes the uncommitted diff of /tmp/wt as the patch (demo.c must be in the folder)
export V=$(cd "$(dirname "$0")/.."&&pwd); R=${SGRID_REPO:-/repo}
set -e
d=$V/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff; test -s $d/patch.diff
git -C /tmp/wt checkout -q -- .
cp -n $V/tools/seedtpl/demo.sh $d/ || true; grep -q '"g.h"' $d/demo.c 2>/dev/null && cp $V/tools/seedtpl/g.h $d/ || true
python3 - "$@" <<'P'
import sys,json,os
i,p,n,b=sys.argv[1:5]
json.dump({'property':p,'needs':n,'what_it_breaks':b},open(os.environ['V']+'/seeded/%s/meta.json'%i,'w'),indent=1)
P
echo $1 ok
