#!/bin/bash
# Warms the build cache; every check builds what it needs from /repo's working tree itself.
cd "$(dirname "$(realpath "$0")")" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
. ./build.sh
for id in C01 C09 C13 C17 C18 C19; do build_for $id "$d" > "$d/log" 2>&1 || true; done
exit 0
