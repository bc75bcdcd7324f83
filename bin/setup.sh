#!/bin/bash
# Builds the simulator once, which fills the build cache, and throws it away. Every check builds its own.
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/simtrie.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
"$here/bin/build.sh" "$t"
