. ./instrument.sh
. ./race.sh
# the server becomes a package
sed -i 's/^package main\b/package serverlet/; s/^func main()/func VerifMain()/' "$target"/serverlet/*.go
"$scratch/out/instr" "$target/verifmcshim" "$target/serverlet"
