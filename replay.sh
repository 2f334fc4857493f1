#!/bin/bash
# replay.sh <replay file> [-v]: re-executes a recorded violation against /repo's
# working tree and prints its event log. Exit 1 if the violation reproduces.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
F=$(realpath "$1")
ID=$(sed -n 's/^ "property": "\(.*\)",/\1/p' "$F" | head -1)
case $ID in
  C20) PKG=batch ;;
  C07|C08|C09|C17|C18) PKG=dkv ;;
  *) PKG=cluster ;;
esac
S=$(mktemp -d /tmp/simreplay.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
(cd "$VERIF/simbuild" && go build -o "$S/simbuild" .) || exit 2
"$S/simbuild" -repo "${VERIF_REPO:-/repo}" -verif "$VERIF" -goroot "$GOROOT" -out "$S/b" -pkg "cmd/$PKG" -bin "$S/sim" || exit 2
"$S/sim" replay ${2:+"$2"} "$F"
