#!/bin/bash
# check.sh ID [quick|thorough] [extra harness flags...]
#   decides one property against /repo's current working tree.
# check.sh ID --replay FILE
#   runs one saved case.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
# Any other exit: the check itself could not run.
set -u
id=${1:?property id}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off CGO_ENABLED=0
case "$id" in
  C01|C03|C04|C24) bin=pdisk;;
  C05|C06|C07) bin=pdos3;;
  C08|C09) bin=pprodos;;
  C10|C11|C12|C13) bin=psupermon;;
  C14) bin=probust;;
  C15|C16|C17|C18) bin=pbasic;;
  C21) bin=ptypes;;
  C25) bin=pdamage;;
  C26) bin=pindep;;
  C02|C19|C20|C22|C23) bin=pcli;;
  *) echo "unknown property $id" >&2; exit 2;;
esac
w=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
( cd "$here/harness" && go build -o "$w/$bin" "./cmd/$bin" ) || { echo "HARNESS-ERROR: cannot build $bin" >&2; exit 2; }
( cd /repo && go build -o "$w/diskii" . ) || { echo "HARNESS-ERROR: cannot build diskii" >&2; exit 2; }
# C26 also runs under the race detector, where there is one.
if [ $bin = pindep ] && ( cd "$here/harness" && CGO_ENABLED=1 go build -race -o "$w/race" "./cmd/$bin" ) 2>"$w/norace"; then
  export VERIF_RACE_BIN="$w/race"
fi
args=(-prop "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -diskii "$w/diskii" -scratch "$w/s")
if [ "${1:-}" = "--replay" ]; then
  "$w/$bin" "${args[@]}" -replay "$2"
  rc=$?
  case $rc in 3|4) rc=3;; esac; [ $rc = 3 ] && { echo "VIOLATION property=$id replay=$2"; rc=1; }
  exit $rc
fi
mkdir -p "$here/evidence" "$here/replays"
"$w/$bin" "${args[@]}" -evidence "$here/evidence/$id.json" -replays "$here/replays" -corpus "$here/corpus/$id" "$@"
