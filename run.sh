#!/bin/bash
# run.sh build | run.sh <property> [quick|thorough]: builds the checker if it
# is not there yet and decides one property from the current source of /repo.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
build() {
	mkdir -p "$here/bin" &&
		(cd "$here/checker" && go build -o "$here/bin/checker.$$" . && mv -f "$here/bin/checker.$$" "$here/bin/checker")
}
if [ "$1" = build ]; then
	build
	exit
fi
newer=$(find "$here/checker" -newer "$here/bin/checker" 2>/dev/null | head -1)
if [ ! -x "$here/bin/checker" ] || [ -n "$newer" ]; then
	build >&2 || exit 2
fi
[ -n "$2" ] && export VERIF_TIER=$2
exec "$here/bin/checker" -repo "${VERIF_REPO:-/repo}" -verif "$here" -property "$1"
