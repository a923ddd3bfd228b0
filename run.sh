#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the checker if needed, then decides
# one property from the sources in /repo. "run.sh build" only builds.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin="$here/bin/verifcheck"
mkdir -p "$here/bin" "$here/evidence"
(
  flock 9
  if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -type f -print -quit)" ]; then
    cd "$here/checker" && go build -o "$bin.new" . && mv "$bin.new" "$bin"
  fi
) 9>"$here/bin/.lock" || true
[ -x "$bin" ] || { echo "checker does not build"; exit 2; }
[ "${1:-}" = build ] && exit 0
export VERIF_ROOT="$here"
exec "$bin" "$1" "${2:-quick}"
