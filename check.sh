#!/bin/bash
# check.sh PROPERTY [--replay FILE]     (VERIF_TIER=quick|thorough)
# Builds the explorer of the property against /repo's current working tree and runs it.
# exit 0: held; 1: VIOLATION line printed; 2: could not build or run.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
case "$1" in
  C0[1-8]|C38) bin=mc_mat ;;
  C09|C1[0-5]|C32|C35|C36) bin=mc_quat ;;
  C1[6-9]|C2?|C3[013479]|C40) bin=mc_shape ;;
  *) echo "usage: check.sh PROPERTY [--replay FILE]" >&2; exit 2 ;;
esac
tier=quick dir=quick
[ "$VERIF_TIER" = thorough ] && tier=thorough dir=release
bash ./build.sh $tier "$bin" || { echo "the explorer does not build" >&2; exit 2; }
ulimit -v $((24 * 1024 * 1024)) 2>/dev/null
exec "./target/$dir/$bin" "$@"
