# Sourced by prepare.sh: the check is built with the race detector and a standard library in which
# pools of objects and system calls order nothing, so that they hide no race.
mkdir -p "$scratch/overlay"
goroot=$(go env GOROOT)
sed 's/if runtime_randn(4) == 0 {/if true || runtime_randn(4) == 0 {/' "$goroot/src/sync/pool.go" > "$scratch/overlay/pool.go"
sed 's/^\(\s*\)race\.\(Acquire\|ReleaseMerge\)(unsafe.Pointer(&ioSync))/\1_ = \&ioSync/' "$goroot/src/syscall/syscall_unix.go" > "$scratch/overlay/syscall_unix.go"
printf '{"Replace": {"%s/src/sync/pool.go": "%s/overlay/pool.go", "%s/src/syscall/syscall_unix.go": "%s/overlay/syscall_unix.go"}}\n' "$goroot" "$scratch" "$goroot" "$scratch" > "$scratch/overlay.json"
BUILD_FLAGS="-race -trimpath -overlay $scratch/overlay.json"
