#!/bin/bash
# Builds the simulator against /repo's current working tree. usage: build.sh OUT_DIR   (the binary: OUT_DIR/simtrie)
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOROOT=${GOROOT:-$(go env GOROOT)}
out=$(realpath -m "$1")
mkdir -p "$out/src" "$out/ov" "$out/instr"
cp "$here"/sim/*.go "$here"/sim/go.mod "$here"/sim/go.sum "$out/src/"
cp "$here"/instr/main.go "$here"/instr/go.mod "$out/instr/"
cd "$out/src"
# the command kzg_setup as a package of the simulator, with a simulated terminal
mkdir term
printf 'package term\n\n// ReadPassword stands for the terminal\nvar ReadPassword func(fd int) ([]byte, error)\n' >term/term.go
repo=$(sed -n 's#^replace github.com/iotaledger/trie.go => ##p' go.mod)
mkdir kzgsetup
for f in "$repo"/models/trie_kzg_bn256/kzg_setup/*.go; do
	case $f in *_test.go) ;; *) sed -e '0,/^package main/s//package kzgsetup/' -e 's#"golang.org/x/term"#"simtrie/term"#' "$f" >"kzgsetup/$(basename "$f")" ;; esac
done
printf 'package kzgsetup\n\nconst Have = true\n\nfunc Main() { main() }\n' >kzgsetup/sim_export.go
if ! go build -o /dev/null ./kzgsetup >"$out/kzgsetup.log" 2>&1; then
	rm -r "$out/src/kzgsetup"
	mkdir kzgsetup
	printf 'package kzgsetup\n\nconst Have = false\n\nfunc Main() {}\n' >kzgsetup/sim_export.go
fi
python3 "$here/bin/mkoverlay.py" "$out/ov"
(cd "$out/instr" && go build -o "$out/instrument" .)
# every package of the library the simulator links
dirs=$(go list -deps -f '{{if .Module}}{{if eq .Module.Path "github.com/iotaledger/trie.go"}}{{.Dir}}{{end}}{{end}}' .)
"$out/instrument" "$out/ov/overlay.json" "$out/ov" $dirs >&2
go build -overlay "$out/ov/overlay.json" -ldflags=-checklinkname=0 -o "$out/simtrie" .
