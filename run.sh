#!/bin/bash
# run.sh <property> quick|thorough            run the check
# run.sh <property> replay <file>             repeat one failing case
# Rebuilds the harness against /repo's working tree first.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export VERIF_SEED="${VERIF_SEED:-1}"
prop="$1"; shift
mkdir -p "$here/evidence"
log="$here/evidence/build-$prop.log"
if ! "$here/build.sh" "$prop" >"$log" 2>&1; then
  echo "ERROR: the harness does not build against /repo" >&2
  tail -40 "$log" >&2
  exit 3
fi
rm -f "$log"
"$here/harness/target/debug/vpharness" "$prop" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "ERROR: check ended with $rc" >&2; exit 3;; esac
