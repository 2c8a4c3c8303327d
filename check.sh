#!/bin/bash
# check.sh PROPERTY [-thorough]: builds the analyser and decides one property of /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd) || exit 1
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOORCVET_VERIF=$here
export GOFLAGS=-mod=vendor
dir=$(mktemp -d) || exit 1
trap 'find "$dir" -depth -delete 2>/dev/null' EXIT
if ! (cd "$here/tool" && go build -o "$dir/goorcvet" .) >"$dir/log" 2>&1; then
	# the usual build cache may not be writable
	export GOCACHE=$dir/cache
	if ! (cd "$here/tool" && go build -o "$dir/goorcvet" .) >"$dir/log" 2>&1; then
		cat "$dir/log"
		exit 2
	fi
fi
export GOFLAGS=-mod=mod
"$dir/goorcvet" "$@"
