#!/bin/bash
# Runs the Go tests lying beside this script (NAME.PKGDIR.go) against the
# package sources in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
pkg=$(cat "$d/pkg")
{
  printf '{"Replace":{"%s/go.mod":"/opt/vp/mod/freetype.mod"' "$R"
  for f in "$d"/*.go.txt; do
    b=$(basename "$f" .go.txt)
    printf ',"%s/%s/zz_%s_test.go":"%s"' "$R" "$pkg" "$b" "$f"
  done
  printf '}}'
} > "$t/o.json"
export GOFLAGS="-modfile=/opt/vp/mod/freetype.mod -overlay=$t/o.json -buildvcs=false"
timeout 240 go test -vet=off -count=1 -timeout 200s -run '^TestDemo' "./$pkg"
