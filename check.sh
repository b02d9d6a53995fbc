#!/bin/bash
# check.sh ID...: builds the analyser from /verif/tool and decides the given
# properties on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod HOME=/root
unset GOOS GOARCH
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=$(command -v go)
mkdir -p bin evidence
tmp=$(mktemp bin/ft.XXXXXX) || exit 2
trap 'rm -f "$tmp"' EXIT
if ! (cd tool && "$GO" build -o "../$tmp" .) >&2; then
  echo "the analyser does not build" >&2
  exit 2
fi
[ "$1" = --build ] && exit 0
"./$tmp" "$@"
