#!/bin/bash
# replay.sh FILE: runs the recorded case again against /repo's current tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
race=
case "$(basename "$f")" in P28-*|P29-*) race=-race ;; esac
mkdir -p "$here/.build"
cd "$here/harness" && go build -buildvcs=false $race -o "$here/.build/vmon$race" ./cmd/vmon && exec "$here/.build/vmon$race" -replay "$f" -verif "$here"
