#!/bin/bash
# check.sh PROPERTY [quick|thorough] : rebuild the verifier and decide one property on /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWP_VERIF=$here
[ $# -ge 2 ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
tmp=$(mktemp -d /tmp/gowp.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/gowp" "$tmp/src" || exit 2
(cd "$tmp/src" && GOFLAGS=-mod=mod go build -o "$tmp/gowp" .) || { echo "CHECK-ERROR the verifier does not build"; exit 2; }
cp /repo/go.mod "$tmp/netauth.mod" && cp /repo/go.sum "$tmp/netauth.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/netauth.mod"
cd /repo || exit 2
"$tmp/gowp" check "$1"
