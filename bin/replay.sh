#!/bin/bash
# usage: replay.sh REPLAY_FILE   builds the simulator from /repo's working tree and runs the replay file again
here=$(cd "$(dirname "$0")/.." && pwd)
f=$(realpath "$1")
t=$(mktemp -d /tmp/simtrie.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
"$here/bin/build.sh" "$t" >"$t/build.log" 2>&1 || { cat "$t/build.log" >&2; exit 2; }
export TMPDIR="$t" SIMTRIE_KNOWN="$here/known_findings.json"
"$t/simtrie" replay "$f"
"$t/simtrie" exec "$f" -v >/dev/null
