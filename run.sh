#!/bin/bash
# run.sh ID quick|thorough [SECONDS]: builds the checks and the server from /repo's working tree and runs one check.
# run.sh setup: builds everything once, to fill the build cache.
# run.sh replay FILE: runs one replay file.
set -u
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
R="${METIS_REPO:-/repo}"
D="$(mktemp -d /tmp/metis-pbt.XXXXXXXX)" || exit 2
case "$D" in /tmp/metis-pbt.*) ;; *) exit 2 ;; esac
trap 'rm -rf -- "$D"' EXIT
trap 'exit 2' INT TERM HUP

MODFILE=()
if [ "$R" != /repo ]; then # a scratch copy, while developing
  sed "s#=> /repo#=> $R#" "$V/harness/go.mod" > "$D/go.mod" && cp "$V/harness/go.sum" "$D/go.sum" || exit 2
  MODFILE=(-modfile "$D/go.mod")
fi
build_harness() { (cd "$V/harness" && go build "${MODFILE[@]}" ${2:-} -o "$D/$1" "./cmd/$1") || exit 2; }
build_server() { # GOFLAGS: /repo's go.mod is used as it is
  (cd "$R" && go build $1 -o "$D/metis" .) || exit 2
}

case "${1:-}" in
setup)
  build_harness bb; build_harness api; build_harness api -race; build_server ""; build_server -race
  exit 0 ;;
replay) ID="$(sed -n 's/.*"Property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)" ;;
*) ID="${1:?}" ;;
esac

PROG=bb; RACE=""; HRACE=""
case "$ID" in
C22|C23|C24|C25|C26|C27|C28|C29|C30|C31|C43|C44|C46) PROG=api ;;
C51) PROG=api; HRACE=-race ;;
C33) RACE=-race ;;
esac
build_harness "$PROG" "$HRACE"
build_server "$RACE"
if [ "$1" = replay ]; then
  "$D/$PROG" replay -server "$D/metis" -dir "$D/work" "$2"
  exit $?
fi
TIER=0; [ "${2:-quick}" = thorough ] && TIER=1
"$D/$PROG" check -prop "$ID" -tier "$TIER" -seconds "${3:-0}" -seed "${VERIF_SEED:-1}" -server "$D/metis" -verif "$V" -dir "$D/work"
exit $?
