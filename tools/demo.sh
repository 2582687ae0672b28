#!/bin/bash
# runs demo_test.go beside this script as a test of the package named in pkg.txt, against the tree in the current directory
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
P="$(cat "$D/pkg.txt")"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$R/go.mod" "$R/go.sum" "$T/"
{ echo '{"Replace": {'
  for f in "$R/$P"/*_test.go; do [ -e "$f" ] && echo "\"$f\": \"\","; done
  echo "\"$R/$P/zz_demo_test.go\": \"$D/demo_test.go\"}}"; } > "$T/overlay.json"
go test -overlay "$T/overlay.json" -modfile "$T/go.mod" -vet=off -count=1 -timeout 250s -run '^TestDemo' "./$P"
