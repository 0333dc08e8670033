#!/bin/bash
# setup.sh: compiles everything once, which fills the build cache.
verif=$(cd "$(dirname "$0")/.." && pwd)
tmp=$(mktemp -d /tmp/mc-setup.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
"$verif/bin/build.sh" "$tmp/mc"
"$verif/bin/build-sched.sh" "$tmp/mcsched"
"$verif/bin/build-sched.sh" "$tmp/mcsched" ""
