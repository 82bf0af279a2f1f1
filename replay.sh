#!/bin/bash
# replay.sh FILE: runs the one case of a violation file again.
f=$1
id=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
export KIT_KEY=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["key"])' "$f")
tier=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["tier"])' "$f")
exec "$(dirname "$0")/run.sh" "$id" "$tier"
