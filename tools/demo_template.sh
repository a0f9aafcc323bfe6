#!/bin/bash
# Runs demo_test.go inside the package @DIR@ of the tree in the current directory (injected by overlay; nothing is written there).
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/repo.mod"; cp "$repo/go.sum" "$tmp/repo.sum"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=@CGO@ GOFLAGS="-mod=mod -modfile=$tmp/repo.mod" SCOUTER_HOME="$tmp"
{
  printf '{"Replace":{"%s":"%s"' "$repo/@DIR@/zz_demo_test.go" "$here/demo_test.go"
  for t in "$repo"/@DIR@/*_test.go; do [ -e "$t" ] && printf ',"%s":""' "$t"; done
  printf '}}'
} > "$tmp/overlay.json"
cd "$repo" && timeout 250 go test -vet=off -overlay "$tmp/overlay.json" @RACE@ -count=1 -timeout 200s -run 'TestDemo' ./@DIR@
