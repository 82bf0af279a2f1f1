#!/bin/bash
# Checks that the framework builds from the committed files (and warms the build cache).
cd "$(dirname "$0")" || exit 1
. ./env.sh
base=/dev/shm; [ -w $base ] || base=/tmp
s=$(mktemp -d "$base/verif-setup-XXXXXX") || exit 1
trap 'rm -rf "$s"' EXIT
rc=0
for d in mc/c[0-9][0-9]; do
	p=$(basename "$d")
	mkdir -p "$s/$p/out"
	VERIF_SCRATCH=$s/$p VERIF_REPO_DIR=/repo ./build.sh "$p" /repo "$s/$p" > "$s/$p/log" 2>&1 || { echo "$p does not build"; tail -20 "$s/$p/log"; rc=1; }
	rm -rf "$s/$p"
done
exit $rc
