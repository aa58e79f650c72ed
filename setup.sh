#!/bin/bash
# setup.sh: builds the monitors, plain and with the race detector.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.build"
cd "$here/harness" || exit 1
go vet ./... || exit 1
go build -buildvcs=false -o "$here/.build/vmon" ./cmd/vmon && go build -buildvcs=false -race -o "$here/.build/vmon-race" ./cmd/vmon
