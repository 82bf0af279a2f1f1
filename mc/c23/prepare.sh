# the tool is built from the tree as it is
mkdir -p "$scratch/out"
(cd "$repo" && go build -o "$scratch/out/bbstool" ./cmd/bbstool)
# and once more with operations on files which fail
(
	. ./instrument.sh
	sed -i 's/^package main\b/package bbstool/; s/^func main()/func VerifMain()/' "$target"/cmd/bbstool/*.go
	"$scratch/out/instr" "$target/verifmcshim" "$target/cmd/bbstool"
	cp -r "$scratch/mc" "$scratch/fault"
	cd "$scratch/fault"
	{
		echo "module verifmc"
		echo
		echo "go 1.21"
		echo
		echo "require github.com/Ptt-official-app/go-bbs v0.0.0"
		sed -n '/^require (/,/^)/p' "$repo/go.mod"
		sed -n '/^require [^(]/p' "$repo/go.mod"
		echo "replace github.com/Ptt-official-app/go-bbs => $target"
	} > go.mod
	go build -o "$scratch/out/c23fault" ./c23fault
) || echo "no tool with faults"
