#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/p" "$d/w"
cp "$here"/main.go "$d/p/main.go"
printf 'module demo\n\ngo 1.21\n\nrequire github.com/jeromelesaux/lha v0.0.0\n\nreplace github.com/jeromelesaux/lha => %s\n' "$repo" > "$d/p/go.mod"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
(cd "$d/p" && go build -o "$d/demo" .) || exit 2
LHARC=
if grep -q LHARC "$here/main.go"; then
  (cd "$d/p" && go build -o "$d/lharc" github.com/jeromelesaux/lha/cmd) || exit 2
  export LHARC=$d/lharc
fi
for f in "$here"/*.lzh; do [ -f "$f" ] && cp "$f" "$d/w/"; done
cd "$d/w" && timeout 120 "$d/demo"
