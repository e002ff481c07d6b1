#!/bin/bash
# run.sh PROPERTY TIER [scenario-substring...]: decide one property on /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${ZCHECK_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export HOME=${HOME:-/root}
export VERIF_SEED=${VERIF_SEED:-1}
if [ "$1" = SETUP ]; then (cd "$here/engine" && go vet . && go build -o /dev/null .); exit; fi
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
bin=$(mktemp /tmp/zcheck-bin.XXXXXX) || exit 2
trap 'rm -f "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin" .) || { echo "error: building zcheck"; exit 2; }
"$bin" run "$repo" "$here" "$prop" "$tier" "$@"
