#!/bin/bash
# check.sh <property> [thorough]: builds the simulator from /repo's working tree
# and searches for violations of one property. Exit 0 held, 1 violated, 2 error.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
ID=$1
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
case $ID in
  C20) PKG=batch ;;
  C07|C08|C17|C18) PKG=dkv ;;
  *) PKG=cluster ;;
esac
if [ "$VERIF_TIER" = thorough ]; then BUDGET=${VERIF_BUDGET:-600s}; else BUDGET=${VERIF_BUDGET:-35s}; fi
S=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export TMPDIR=$S
T0=$(date +%s.%N)
if ! (cd "$VERIF/simbuild" && go build -o "$S/simbuild" .) >"$S/log" 2>&1 ||
   ! "$S/simbuild" -repo "${VERIF_REPO:-/repo}" -verif "$VERIF" -goroot "$GOROOT" -out "$S/b" -pkg "cmd/$PKG" -bin "$S/sim" >>"$S/log" 2>&1; then
  tail -c 4000 "$S/log"
  echo "error: the simulator does not build"
  exit 2
fi
T1=$(date +%s.%N)
BS=$(awk "BEGIN{printf \"%.1f\", $T1-$T0}")
"$S/sim" check -prop "$ID" -verif "$VERIF" -budget "$BUDGET" -buildinfo "$S/b/instrument.json" -builds "$BS" ${VERIF_SCENARIO:+-scenario "$VERIF_SCENARIO"}
RC=$?
exit $RC
