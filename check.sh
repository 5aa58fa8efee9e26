#!/bin/bash
# check.sh PROP | replay FILE | selftest [N] | build DIR
# Builds the driver from the committed files and runs it against /repo's
# working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= CGO_ENABLED=0
mkdir -p .work || exit 2
vt=".work/vt.$$"
trap 'rm -f "$VERIF_DIR/$vt"' EXIT
(cd tool && GO111MODULE=on GOFLAGS=-mod=mod go build -o "../$vt" .) || { echo "check.sh: cannot build the driver" >&2; exit 2; }
case "$1" in
replay|selftest|build) "$vt" "$@" ;;
*) "$vt" check "$@" ;;
esac
