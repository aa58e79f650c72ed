#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the monitors against /repo's current
# working tree and runs one property's check.
# Exit 0: held; 1 with a VIOLATION line: broken; 2: no answer.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-quick}
race=
case " P28 P29 " in *" $prop "*) race=-race ;; esac
bin=$here/.build/vmon$race
mkdir -p "$here/.build"
cd "$here/harness" || exit 2
if ! go build -buildvcs=false $race -o "$bin" ./cmd/vmon; then
  echo "the monitors do not build against /repo"
  exit 2
fi
exec "$bin" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$here"
