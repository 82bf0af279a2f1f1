# the server is built from the tree as it is
mkdir -p "$scratch/out"
(cd "$repo" && go build -o "$scratch/out/serverlet" ./serverlet)
# and once more under a clock which can be set
(
	. ./instrument.sh
	sed -i 's/^package main\b/package serverlet/; s/^func main()/func VerifMain()/' "$target"/serverlet/*.go
	"$scratch/out/instr" "$target/verifmcshim" "$target/serverlet"
	cp -r "$scratch/mc" "$scratch/clock"
	cd "$scratch/clock"
	{
		echo "module verifmc"
		echo
		echo "go 1.21"
		echo
		echo "require github.com/Ptt-official-app/go-bbs v0.0.0"
		sed -n '/^require (/,/^)/p' "$repo/go.mod"
		sed -n '/^require [^(]/p' "$repo/go.mod"
		echo "replace github.com/Ptt-official-app/go-bbs => $target"
	} > go.mod
	go build -o "$scratch/out/c22clock" ./c22clock
) || echo "no server with a clock"
