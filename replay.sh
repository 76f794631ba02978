#!/bin/bash
# replay.sh FILE   Re-executes a replay file. Exit 1 and a VIOLATION line: it shows again.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
"$root/build.sh" || exit $?
prop=$(grep -oE '"property": *"C[0-9]+"' "$1" | grep -oE 'C[0-9]+' | head -1)
case $prop in
  C0[1-7]) bin=engine ;;
  C08) bin=sink ;;
  C09|C10|C11|C12) bin=loader ;;
  C13|C14) bin=e2egen ;;
  C15) bin=damage ;;
  *) echo "no property in $1" >&2; exit 2 ;;
esac
exec "$root/target/release/$bin" replay "$1"
