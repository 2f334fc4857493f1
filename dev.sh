#!/bin/bash
# dev.sh <pkg> [args...]: builds cmd/<pkg> into build/ incrementally and runs it (development only).
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
PKG=$1; shift
R=${VERIF_REPO:-/repo}
B=/tmp/simdev-$PKG${VERIF_REPO:+-$(basename $VERIF_REPO)}
mkdir -p $B
(cd "$VERIF/simbuild" && go build -o $B/simbuild .) && $B/simbuild -repo $R -verif "$VERIF" -goroot "$GOROOT" -out $B/b -pkg cmd/$PKG -bin $B/sim || exit 2
[ $# -gt 0 ] && exec $B/sim "$@"
exit 0
