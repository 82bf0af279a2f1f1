#!/bin/bash
# run.sh ID [quick|thorough]: rebuilds the check ID from the working tree of /repo and runs it.
# Exit 0: the property held on everything explored. Exit 1: VIOLATION lines on stdout.
id=$1
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=${VERIF_OUT:-$verif}
. "$verif/env.sh"
base=/dev/shm
[ -w $base ] && [ -d $base ] || base=/tmp
scratch=$(mktemp -d "$base/verif-$id-XXXXXX") || exit 2
trap 'chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
export KIT_DIR=$scratch/kit VERIF_SCRATCH=$scratch VERIF_REPO_DIR=$repo
mkdir -p "$KIT_DIR"
mkdir "$scratch/out"
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
"$verif/build.sh" "$pkg" "$repo" "$scratch" >"$scratch/build.log" 2>&1 || { echo "build of check $id failed:"; tail -50 "$scratch/build.log"; exit 2; }
ulimit -c 0
"$scratch/out/$pkg"
rc=$?
exit $rc
