#!/bin/bash
# build-gen.sh llxgen OUT          compiles the generator from the current tree
# build-gen.sh pkg DIR OUT         compiles packages in subdirectories of DIR (main package is DIR/main) inside the module
set -e
verif=$(cd "$(dirname "$0")/.." && pwd)
repo=${LLX_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local
cd "$repo"
if [ "$1" = llxgen ]; then
	go build -o "$2" ./cmd/llxgen
	exit
fi
dir=$2
ov=$(mktemp /tmp/mc-gen.XXXXXX)
trap 'rm -f "$ov"' EXIT
{
	echo '{"Replace": {'
	sep=
	for f in "$dir"/*/*.go; do
		printf '%s"%s": "%s"\n' "$sep" "$repo/zz_verif/gen/${f#"$dir"/}" "$f"
		sep=,
	done
	echo '}}'
} > "$ov"
go build -gcflags=-e -overlay "$ov" -o "$3" ./zz_verif/gen/main
