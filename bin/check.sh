#!/bin/bash
# usage: check.sh PROPERTY   (environment: VERIF_SEED, VERIF_TIER)
# Builds the simulator from /repo's working tree in a temporary directory, runs the check, removes the directory.
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/simtrie.XXXXXX) || exit 2
shm=$(mktemp -d /dev/shm/simtrie.XXXXXX 2>/dev/null) || shm=
trap 'rm -rf "$t" ${shm:+"$shm"}' EXIT
if ! "$here/bin/build.sh" "$t" >"$t/build.log" 2>&1; then
	cat "$t/build.log" >&2
	echo "HARNESS: the simulator can't be built" >&2
	exit 2
fi
export TMPDIR="$t" SIMTRIE_SCRATCH="$shm" SIMTRIE_KNOWN="$here/known_findings.json"
"$t/simtrie" check "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" "$here"
