#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on /repo's working tree
# check.sh replay FILE           replay a violation
# check.sh build DIR             build the checker only
set -u
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off
unset GOOS GOARCH GOEXPERIMENT
B=$(mktemp -d /tmp/vmcbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp "$VERIF/mc/go.mod" "$VERIF/mc/go.sum" "$B/" || exit 2
if [ "$VERIF_REPO" != /repo ]; then
	sed -i "s#=> /repo#=> $VERIF_REPO#" "$B/go.mod"
fi
build() { # cgo out [flags]
	(cd "$VERIF/mc" && CGO_ENABLED=$1 go build -modfile="$B/go.mod" "${@:3}" -o "$2" .) || {
		echo "build failed" >&2
		exit 2
	}
}
case "${1:-}" in
replay)
	build 0 "$B/mc"
	if grep -q '"property": *"C20"' "$2"; then build 1 "$B/mc-cgo" -race
	elif grep -q '"part": *".*-32bit"' "$2"; then GOARCH=386 build 0 "$B/mc-cgo"
	else build 1 "$B/mc-cgo"; fi
	"$B/mc" check -replay "$2" -cgobin "$B/mc-cgo" -verif "$VERIF"
	exit $?
	;;
build)
	build 0 "$2/mc"
	build 1 "$2/mc-cgo"
	exit 0
	;;
esac
if [ "${1:-}" = warm ]; then # fill the build cache
	build 0 "$B/mc"
	build 1 "$B/mc-cgo"
	build 1 "$B/mc-race" -race
	GOARCH=386 build 0 "$B/mc-32"
	exit 0
fi
ID=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
shift; shift 2>/dev/null
CGO=
build 0 "$B/mc"
case "$ID" in
C18 | C19)
	build 1 "$B/mc-cgo"
	CGO="-cgobin $B/mc-cgo"
	;;
C20)
	build 1 "$B/mc-race" -race
	CGO="-cgobin $B/mc-race"
	;;
C01 | C02 | C03 | C04 | C05 | C06 | C07 | C08 | C09 | C12 | C13 | C17)
	GOARCH=386 build 0 "$B/mc-32"
	"$B/mc-32" list >/dev/null 2>&1 && CGO="-cgobin $B/mc-32"
	;;
esac
"$B/mc" check -prop "$ID" -tier "$TIER" -verif "$VERIF" $CGO "$@"
exit $?
