#!/bin/bash
# replay.sh FILE: builds from /repo's working tree and repeats the recorded history exactly.
HERE="$(cd "$(dirname "$0")" && pwd)"
B=$(bash "$HERE/build.sh") || { echo "$B"; exit 2; }
set -- "$1" $(echo "$B" | tail -1)
exec "$3/nlcgsim" replay --lib "$2" "$1"
