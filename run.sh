#!/bin/bash
# run.sh check ID        build the harness against /repo's working tree and run the check of a property
# run.sh replay FILE     re-run a recorded failing case
# run.sh build           build only (fills the build cache)
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp=$(mktemp -d "${TMPDIR:-/tmp}/xgenverif.XXXXXX") || exit 2
chmod 755 "$tmp"
cleanup() { case "$tmp" in */xgenverif.??????) rm -rf -- "$tmp";; esac; }
trap cleanup EXIT
trap 'exit 2' INT TERM HUP
export XV_SCRATCH_BASE="$tmp" XV_VERIF="$here" XV_REPO=/repo
mkdir -p "$here/evidence"
# go.mod and go.sum are used through a copy, so that a build never rewrites them
cp "$here/harness/go.mod" "$tmp/go.mod" && cp "$here/harness/go.sum" "$tmp/go.sum" || exit 2
race=
case "${2:-}" in C23 | *C23-*) race=-race ;; esac
cd "$here/harness" || exit 2
if ! go build $race -modfile="$tmp/go.mod" -o "$tmp/xv" . >"$tmp/build.log" 2>&1; then
	echo "ERROR: the harness does not build against /repo"
	head -50 "$tmp/build.log"
	exit 2
fi
case "${2:-}" in
C17 | C18 | *C17-* | *C18-*)
	if ! go build -modfile="$tmp/go.mod" -o "$tmp/xgen" github.com/xuri/xgen/cmd/xgen >"$tmp/build.log" 2>&1; then
		echo "ERROR: the xgen command does not build"
		head -50 "$tmp/build.log"
		exit 2
	fi
	export XV_XGEN="$tmp/xgen" ;;
esac
case "${1:-}" in
build) exit 0 ;;
check) "$tmp/xv" check -prop "$2" -verif "$here"; rc=$? ;;
replay) shift; "$tmp/xv" replay "$@"; rc=$? ;;
*) echo "usage: run.sh check ID | replay FILE | build"; exit 2 ;;
esac
exit $rc
