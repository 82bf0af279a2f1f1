#!/bin/bash
# build.sh PKG REPO SCRATCH: builds mc/PKG against REPO's working tree into SCRATCH/out/PKG.
set -e
pkg=$1 repo=$2 scratch=$3
verif=$(cd "$(dirname "$0")" && pwd)
. "$verif/env.sh"
cp -r "$verif/mc" "$scratch/mc"
cd "$scratch/mc"
cp "$repo/go.sum" go.sum
target=$repo
if [ -x "$pkg/prepare.sh" ]; then
	. "./$pkg/prepare.sh"   # may set target
fi
{
	echo "module verifmc"
	echo
	echo "go 1.21"
	echo
	echo "require github.com/Ptt-official-app/go-bbs v0.0.0"
	sed -n '/^require (/,/^)/p' "$repo/go.mod"
	sed -n '/^require [^(]/p' "$repo/go.mod"
	echo "replace github.com/Ptt-official-app/go-bbs => $target"
} > go.mod
[ -n "$SKIP_GO_BUILD" ] || go build $BUILD_FLAGS -o "$scratch/out/$pkg" "./$pkg"
