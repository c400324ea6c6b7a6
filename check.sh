#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's current tree.
# Exit 0: it holds. Exit 1 with a VIOLATION line: it does not (or could not be proved).
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-${VERIF_TIER:-quick}}
REPO=${VERIF_REPO:-/repo}
export VERIF_TIER=$T VERIF_SEED=${VERIF_SEED:-1}
mkdir -p "$D/evidence"
W=$(mktemp -d /tmp/verifchk.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
if ! bash "$D/setup.sh" "$W" > "$W/build.log" 2>&1; then
  cat "$W/build.log"; exit 3
fi
if ! bash "$D/replay/build.sh" "$REPO" "$W/replay" > "$W/replay.log" 2>&1; then
  # the harness no longer fits the code: the proof decides alone
  head -5 "$W/replay.log"
fi
"$W/govc" check -repo "$REPO" -verif "$D" -prop "$P" -tier "$T" -harness "$W/replay" 2> "$W/err.log"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  { echo "property $P: the verifier ended with status $rc"; tail -50 "$W/err.log"; } > "$D/evidence/replay-$P.txt"
  tail -5 "$W/err.log"
  exit 3
fi
exit $rc
