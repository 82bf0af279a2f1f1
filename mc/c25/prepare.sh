# The hash is in an internal package: a package which exports it is laid over the tree.
mkdir -p "$scratch/overlay"
cat > "$scratch/overlay/export.go" <<'X'
// Package verifmcfnv exports the internal hash for the check.
package verifmcfnv

import (
	"hash"

	"github.com/Ptt-official-app/go-bbs/pttbbs/internal/fnv"
)

// New is the seeded hash.
func New(seed uint32) hash.Hash32 { return fnv.New32aWith(seed) }
X
printf '{"Replace": {"%s/pttbbs/verifmcfnv/export.go": "%s/overlay/export.go"}}\n' "$repo" "$scratch" > "$scratch/overlay.json"
BUILD_FLAGS="-overlay $scratch/overlay.json"
