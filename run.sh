#!/bin/bash
# bash run.sh setup | bash run.sh <property> quick|thorough [extra harness flags]
# Builds the harness together with /repo's current working tree and runs one property's check.
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B" "$V/evidence" "$V/replays" || exit 2

race_props=" C11 C12 C18 C19 C26 C29 C30 "

build() { # build <out> [go build flags]
  local out=$1; shift
  local ov="$out.overlay.json" sep="" f
  { printf '{"Replace":{'
    for f in "$V"/harness/*.go; do
      printf '%s"%s/internal/zzverif/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=,
    done
    printf '}}\n'; } > "$ov"
  (cd "$REPO" && go build -mod=readonly -buildvcs=false -overlay "$ov" "$@" -o "$out" ./internal/zzverif)
  local rc=$?
  rm -f "$ov"
  return $rc
}

if [ "$1" = setup ]; then
  build "$B/zz.setup" || exit 2
  build "$B/zzr.setup" -race || exit 2
  rm -f "$B/zz.setup" "$B/zzr.setup"
  echo "setup ok"
  exit 0
fi

P=$1; T=${2:-quick}; shift 2
bin="$B/zz.$P.$$"
flags=""
case "$race_props" in *" $P "*) flags="-race";; esac
if ! build "$bin" $flags; then
  echo "ERROR: /repo with the harness does not build" >&2
  rm -f "$bin"
  exit 2
fi
"$bin" -supervise -prop "$P" -tier "$T" -seed "${VERIF_SEED:-1}" -verif "$V" -repo "$REPO" "$@"
rc=$?
rm -f "$bin"
exit $rc
