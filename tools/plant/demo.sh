#!/bin/bash
# Builds and runs the program beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
r=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$r/go.mod" "$d/root.mod" &&
cat "$r/go.sum" /opt/vp/mods/root.extra.sum | sort -u > "$d/root.sum" &&
go mod edit -require=github.com/golang/protobuf@v1.5.4 "$d/root.mod" || exit 3
printf '{"Replace":{"%s":"%s","%s":"%s"}}' "$r/zz_demo/main.go" "$here/main.go" "$r/zz_demo/helper.go" "$here/helper.go" > "$d/o.json"
GOFLAGS="-mod=mod -modfile=$d/root.mod" CGO_ENABLED=1 go build RACE -overlay "$d/o.json" -o "$d/demo" ./zz_demo || exit 3
TMPDIR=$d GORACE=halt_on_error=1 timeout 120 "$d/demo"
