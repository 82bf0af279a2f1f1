# Sourced by prepare.sh: the check is built against a copy of the working tree in which the
# operations on files, locks, clock, random numbers and changing variables go through the shims.
target=$scratch/target
mkdir -p "$target"
(cd "$repo" && find . -path ./.git -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum \) ! -name '*_test.go' -print0 | xargs -0 cp --parents -t "$target")
cp -r "$scratch/mc/_shim" "$target/verifmcshim"
go build -o "$scratch/out/instr" instr/main.go
"$scratch/out/instr" "$target/verifmcshim" $(cd "$target" && find . -name '*.go' -printf '%h\n' | sort -u | grep -v '^\./verifmcshim\|^\./cache$\|^\./serverlet\|^\./cmd\|^\./crypt$' | sed "s|^\.|$target|") -sync $(for d in cache crypt; do [ -d "$target/$d" ] && echo "$target/$d"; done)
