#!/bin/bash
# newseed.sh ID PROPERTY "needs" "what_it_breaks" < demo body ; takes the diff of /tmp/sr (a clone of /repo) and resets that.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; d="$V/seeded/$1"; mkdir -p "$d"
git -C /tmp/sr diff > "$d/patch.diff"; [ -s "$d/patch.diff" ]
git -C /tmp/sr checkout -q -- .
cp -r "$V/shim" "$V/tools/seedkit/build.sh" "$d/"
{ cat "$V/tools/seedkit/demo_head.sh"; cat; } > "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
