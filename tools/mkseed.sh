#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS WHAT  -- takes the uncommitted diff of /tmp/sw and demo.sh from stdin (development tool)
set -e
d=$(dirname "$0")/../seeded/$1; mkdir -p $d
git -C /tmp/sw diff > $d/patch.diff
test -s $d/patch.diff
cat > $d/demo.sh
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+'/meta.json','w'),indent=1)
P
git -C /tmp/sw checkout -q -- .
