#!/bin/bash
# check.sh ID: builds the library from /repo's working tree and the simulator, then decides property ID.
HERE="$(cd "$(dirname "$0")" && pwd)"
cd "$HERE" || exit 2
B=$(bash "$HERE/build.sh") || { echo "$B"; exit 2; }
set -- "$1" $(echo "$B" | tail -1)
exec "$3/nlcgsim" check --lib "$2" --prop "$1" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out "$HERE"
