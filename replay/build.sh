#!/bin/bash
# builds the replay binary from /repo's current tree: build.sh REPO OUT
set -e
REPO=$1; OUT=$2
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp /tmp/ovl.XXXXXX.json)
{ echo '{"Replace":{'; sep=''
for f in "$D"/*.go; do echo "$sep\"$REPO/internals/verifreplay/$(basename $f)\": \"$f\""; sep=','; done
echo '}}'; } > "$T"
(cd "$REPO" && go build -overlay "$T" -o "$OUT" ./internals/verifreplay) ; rc=$?
rm -f "$T"
exit $rc
