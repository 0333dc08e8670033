#!/bin/bash
# build.sh OUT [ID]: compiles the model checker together with the current tree of /repo into the binary OUT.
# All harness files are put into virtual packages of the repository's module by means of an overlay;
# nothing is written into /repo. When it does not compile, harnesses of internal packages not needed by the check ID
# are left out, so that changes of those packages do not affect other checks.
set -e
out=$1
verif=$(cd "$(dirname "$0")/.." && pwd)
repo=${LLX_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
ov=$(mktemp /tmp/mc-overlay.XXXXXX)
trap 'rm -f "$ov"' EXIT
overlay() { # harnesses to leave out
	echo '{"Replace": {'
	sep=
	add() { printf '%s"%s": "%s"\n' "$sep" "$1" "$2"; sep=,; }
	for f in "$verif"/mc/*.go; do
		case " $1 " in *" $(basename "$f" .go) "*) continue ;; esac
		add "$repo/zz_verif/mc/$(basename "$f")" "$f"
	done
	for f in "$verif"/sched/works/*.go; do add "$repo/zz_verif/works/$(basename "$f")" "$f"; done
	for f in "$verif"/bridge/*/*.go; do
		[ -f "$f" ] || continue
		d=$(basename "$(dirname "$f")")
		add "$repo/examples/$d/zz_bridge/$(basename "$f")" "$f"
	done
	echo '}}'
}
cd "$repo"
overlay > "$ov"
go build -overlay "$ov" -o "$out" ./zz_verif/mc && exit 0
case $2 in
C04) skip="c36_conf c37_calc" ;;
C36) skip="c04_containers c37_calc" ;;
C37) skip="c04_containers c36_conf" ;;
*) skip="c04_containers c36_conf c37_calc" ;;
esac
overlay "$skip" > "$ov"
go build -overlay "$ov" -o "$out" ./zz_verif/mc
