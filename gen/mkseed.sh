#!/bin/bash
# mkseed.sh ID: validates /verif/seeded/ID against a scratch copy of /repo:
# the patch applies, builds, keeps the stable tests, and the demo tells the
# two trees apart. With a second argument, runs check PROPERTY on the patched tree.
id=$1
s=/verif/seeded/$id
[ -f $s/demo.sh ] || cp /verif/gen/seedlib/demo.sh $s/demo.sh
chmod +x $s/demo.sh
w=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo $w/r
mkdir $w/d && cp -a $s/. $w/d/ && rm -f $w/d/*.diff $w/d/meta.json
cd $w/r && git checkout -q -- . || exit 1
. /opt/vp/env.sh
printf '{"Replace":{"%s/go.mod":"/opt/vp/mod/freetype.mod"}}' $w/r > $w/o.json
export GOFLAGS="-modfile=/opt/vp/mod/freetype.mod -overlay=$w/o.json -buildvcs=false"
bash $w/d/demo.sh > $w/out1 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -30 $w/out1; exit 1; }
git apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... && go build -tags example ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 -timeout 5m ./... > $w/t 2>&1 || { echo "$id: tests FAIL"; grep -m5 -e FAIL -e '---' $w/t; exit 1; }
go test -vet=off -count=1 -run '^$' -bench . -benchtime 1x ./... > $w/b 2>&1 || { echo "$id: benchmarks FAIL"; exit 1; }
if bash $w/d/demo.sh > $w/out2 2>&1; then echo "$id: demo PASSES with the patch"; exit 1; fi
grep -m3 -e panic: -e 'zz_.*go:[0-9]*:' -e FAIL $w/out2
echo "$id: valid"
