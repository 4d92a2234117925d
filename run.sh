#!/bin/bash
# run.sh PROPERTY TIER            check one property of /repo's working tree
# run.sh --replay FILE            re-run one recorded case
# run.sh --mc ARGS...             the explorer with explicit arguments
# Builds the explorer against /repo's current tree, into a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
export CGO_ENABLED=1
scratch=$(mktemp -d /tmp/verifmc-build.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
tier=${2:-${VERIF_TIER:-quick}}
extra=()
budget=0
case "$1" in
--replay|--mc|--setup) ;;
*)  export VERIF_TIER=$tier
    [ "$tier" = quick ] && budget=${VERIF_BUDGET:-300} || budget=${VERIF_BUDGET:-700} ;;
esac
# These need the code with its locks and iterations of maps under control (mc/instr), and
# concurrency needs the race detector.
flags=()
case "$*" in
*C13*|*C24*|*C27*)
    export GORACE="halt_on_error=1"
    case "$*" in *C13*) flags=(-race) ;; esac
    mkdir "$scratch/overlay"
    if ! (cd "$here/mc" && go build -o "$scratch/instr" ./instr && "$scratch/instr" "$scratch/overlay" github.com/batchatco/go-native-netcdf/netcdf/... ) > "$scratch/build.log" 2>&1; then
        echo "CHECK BROKEN: the code of /repo can't be instrumented:"
        tail -30 "$scratch/build.log"
        exit 2
    fi
    flags+=(-overlay "$scratch/overlay/overlay.json" -ldflags "-X github.com/batchatco/go-native-netcdf/verifmc/vsched.built=1") ;;
esac
if ! (cd "$here/mc" && go build "${flags[@]}" -o "$scratch/verifmc" . ) > "$scratch/build.log" 2>&1; then
    echo "CHECK BROKEN: the explorer does not build against /repo:"
    tail -30 "$scratch/build.log"
    exit 2
fi
case "$1" in
--replay) "$scratch/verifmc" -verif "$here" -replay "$2" ;;
--setup) echo "the explorer builds" ;;
--mc) shift; "$scratch/verifmc" -verif "$here" "$@" ;;
*) "$scratch/verifmc" -verif "$here" -prop "$1" -tier "$tier" -budget "$budget" ;;
esac
