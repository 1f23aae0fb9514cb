#!/bin/bash
# check.sh ID [quick|thorough|replay FILE]: builds the checker of a property from /repo's working tree and runs it.
# Exit 0: held; 1: violated (VIOLATION line); 2: the check itself failed.
cd "$(dirname "$(realpath "$0")")" || exit 2
id=$1
mode=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$PWD VERIF_CHECK=$id VERIF_SEED=${VERIF_SEED:-1}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -n "$HOME" ] || export HOME=/root
if [ "$mode" = replay ]; then export MC_REPLAY=$(realpath "$3"); else export VERIF_TIER=$mode; fi
scratch=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch
. ./build.sh || exit 2
build_for "$id" "$scratch" > "$scratch/build.log" 2>&1 || { cat "$scratch/build.log"; echo "build of the checker failed"; exit 2; }
run_for "$id" "$scratch"
