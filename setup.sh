#!/bin/bash
# setup.sh [DIR]: builds the verifier into DIR (default: bin beside this file)
. /opt/vp/env.sh
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=${1:-$D/bin}
mkdir -p "$B"
cd "$D/govc"
GOFLAGS="-mod=mod -buildvcs=false" go build -o "$B/govc" .
