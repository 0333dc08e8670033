#!/bin/bash
# build-sched.sh OUT [""]: instruments the current tree of /repo for the controlled scheduler and compiles it
# with the race detector (unless told otherwise) into the binary OUT. Nothing is written into /repo.
set -e
out=$1
race=${2--race}
verif=$(cd "$(dirname "$0")/.." && pwd)
repo=${LLX_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/mc-sched.XXXXXX)
trap 'rm -rf "$work"' EXIT
(cd "$verif/sched/instr" && GO111MODULE=off go build -o "$work/instr" main.go)
{
	echo '{"Replace": {'
	"$work/instr" "$repo" "$work/src" github.com/ava12/llx ./parser/... ./langdef ./lexer ./source ./grammar ./tree
	for d in vsched vsync mcsched works; do
		for f in "$verif/sched/$d"/*.go; do printf ',"%s": "%s"\n' "$repo/zz_verif/$d/$(basename "$f")" "$f"; done
	done
	echo '}}'
} > "$work/overlay.json" 2> "$work/log" || { cat "$work/log" >&2; exit 2; }
cd "$repo"
go build $race -overlay "$work/overlay.json" -o "$out" ./zz_verif/mcsched
