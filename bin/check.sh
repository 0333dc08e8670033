#!/bin/bash
# check.sh ID quick|thorough        decides one property on the current tree of /repo
# check.sh ID replay FILE           re-executes one recorded case
verif=$(cd "$(dirname "$0")/.." && pwd)
id=$1
tier=${2:-quick}
tmp=$(mktemp -d /tmp/mc.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export MC_TMP=$tmp
"$verif/bin/build.sh" "$tmp/mc" "$id" || { echo "build failed" >&2; exit 2; }
case $id in
C11) "$verif/bin/build-sched.sh" "$tmp/mcsched" "" || { echo "build failed" >&2; exit 2; } ;;
C26 | C27 | C40) "$verif/bin/build-sched.sh" "$tmp/mcsched" || { echo "build failed" >&2; exit 2; } ;;
esac
case $id in C35) "$verif/bin/build-gen.sh" llxgen "$tmp/llxgen" || { echo "build failed" >&2; exit 2; } ;; esac
export MC_LLXGEN=$tmp/llxgen MC_SCHED=$tmp/mcsched
"$tmp/mc" "$id" "$tier" "$verif" "${@:3}"
exit $?
