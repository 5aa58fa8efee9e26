#!/bin/bash
# Compare the simulated file system with the real one, as an unprivileged
# user in a scratch directory. usage: scripts/simos_conformance.sh [RUNS]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
S=$(mktemp -d /tmp/conform.XXXXXX)
trap 'rm -rf "$S"' EXIT
"$V/check.sh" build "$S/b" >/dev/null
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= CGO_ENABLED=0 GO111MODULE=on
(cd "$S/b" && go build -o "$S/conform" ./sim/conform)
mkdir -m 0777 "$S/w"
chmod 0755 "$S"
setpriv --reuid 65534 --regid 65534 --clear-groups "$S/conform" "$S/w" "${1:-3000}"
