#!/bin/bash
# check.sh PROPERTY: build the analyser and decide one property on /repo's working tree.
set -u
D=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d)
trap 'rm -rf -- "$B"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
if ! (cd "$D/sa" && go build -o "$B/sa" .) >&2; then
  echo "check.sh: the analyser does not build" >&2
  exit 2
fi
mkdir -p "$D/evidence"
"$B/sa" -repo "${VERIF_REPO:-/repo}" -property "$1" -tier "${VERIF_TIER:-quick}" \
  -evidence "$D/evidence/$1.json" -findings "$D/known_findings.txt" -replay "$D/evidence/replay"
