#!/bin/bash
# check.sh <property>: builds the analyzer from /verif/analyzer when needed and
# analyses the current source of /repo for one property.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
bin="$root/.bin/analyzer"
mkdir -p "$root/.bin" "$root/evidence"
(cd "$root/analyzer" && go build -o "$bin" .) || { echo "cannot build the analyzer" >&2; exit 3; }
[ "${1:-}" = "-build" ] && exit 0
exec "$bin" -repo "${WPK_REPO:-/repo}" -root "$root" -check "$1"
