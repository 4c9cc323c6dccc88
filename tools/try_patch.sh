#!/bin/bash
# usage: try_patch.sh PATCH|-rCOMMIT PROPERTY... : run checks against a patched copy of /repo
P=$1; [[ $P == -r* ]] || P=$(realpath $P); shift
D=$(mktemp -d /tmp/tryXXXXXX)
cp -a /repo $D/repo
if [[ $P == -r* ]]; then git -C $D/repo revert -n ${P#-r} >/dev/null 2>&1 || echo "REVERT CONFLICT"
else git -C $D/repo apply $P || echo "APPLY FAILED"; fi
for c in "$@"; do DST_REPO=$D/repo "$(dirname "$0")/../check" $c 2>&1 | tail -4 | cut -c1-400; done
rm -rf "$D"
