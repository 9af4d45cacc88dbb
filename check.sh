#!/bin/bash
# check.sh ID            decide property ID (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE   run a failing case again
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export LHAVERIF_DIR=$here
bin=$(mktemp -d /tmp/lhaverif-bin.XXXXXX) || exit 2
chmod 755 "$bin"
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
id=$1
case $1 in replay) id=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$2");; esac
go build -o "$bin/lhaverif" . || { echo "check is broken: the harness does not build" >&2; exit 2; }
go build -o "$bin/lharc" github.com/jeromelesaux/lha/cmd || { echo "check is broken: the command does not build" >&2; exit 2; }
if [ "$id" = C12 ]; then
  go build -race -o "$bin/lhaverif-race" . || { echo "check is broken: the race build failed" >&2; exit 2; }
fi
export LHAVERIF_BIN=$bin
if [ "$1" = replay ]; then
  "$bin/lhaverif" replay "$2"
else
  "$bin/lhaverif" check "$1"
fi
