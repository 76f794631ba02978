#!/bin/bash
# check.sh PROPERTY [quick|thorough]   Exit 0: held; 1: VIOLATION line; anything else: error of the check.
set -u
root=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_ROOT=$root VERIF_SEED=${VERIF_SEED:-1}
"$root/build.sh" || exit $?
case $prop in
  C0[1-7]) bin=engine ;;
  C08) bin=sink ;;
  C09|C10|C11|C12) bin=loader ;;
  C13|C14) bin=e2egen ;;
  C15) bin=damage ;;
  *) echo "no check for $prop" >&2; exit 2 ;;
esac
exec "$root/target/release/$bin" check "$prop" "$tier"
