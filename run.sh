#!/bin/bash
# run.sh <property> [quick|thorough] [extra mc flags]
# Builds the checker against /repo's current working tree and decides one property.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
id=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d "${TMPDIR:-/tmp}/mcbuild.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
case $id in C10|C21) # schedules: instrumented copy of the code, see conc/
  (cd "$here/conc" && go build -o "$tmp/tool" ./tool) || { echo "ERROR: the tool does not build"; exit 2; }
  "$tmp/tool" -id "$id" -tier "$tier" -conc "$here/conc" -tmp "$tmp" -out "$here/evidence" "$@"
  exit $?;;
esac
cp "$here/mc/go.mod" "$tmp/go.mod" && cp "$here/mc/go.sum" "$tmp/go.sum" || exit 2
if ! (cd "$here/mc" && go build -modfile="$tmp/go.mod" -o "$tmp/mc" .) ; then
  echo "ERROR: the checker does not build against /repo"; exit 2
fi
"$tmp/mc" -id "$id" -tier "$tier" -out "$here/evidence" "$@"
