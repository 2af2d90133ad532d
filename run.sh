#!/bin/bash
# run.sh PROPERTY [TIER]: builds the harness against /repo's working tree and decides one property.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: the check itself failed.
# run.sh --setup only builds (to warm the build cache). run.sh --replay FILE decides one saved case.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root}
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOENV GOEXPERIMENT VERIF_CPUPROFILE GODEBUG GOGC GOMEMLIMIT

work=$(mktemp -d /tmp/verif-build-XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
if ! (cd "$here/harness" && go build -o "$work/check" .) >"$work/build.log" 2>&1; then
  echo "ERROR: the harness does not build against /repo"
  head -50 "$work/build.log"
  exit 2
fi
# C27 also runs with Go's race detector (which needs cgo; without it, results are compared all the same)
race=
case "$1" in
  C27|--setup) race=1 ;;
  --replay) grep -q '"C27/race"' "$2" && race=1 ;;
esac
if [ -n "$race" ] && (cd "$here/harness" && CGO_ENABLED=1 go build -race -o "$work/checkrace" .) >"$work/race.log" 2>&1; then
  export VERIF_RACE_EXE=$work/checkrace GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0"
fi
case $1 in
  --setup) echo "built"; exit 0 ;;
  --replay) [ -n "$VERIF_RACE_EXE" ] && cp "$VERIF_RACE_EXE" "$work/check" ;;&
  --replay) "$work/check" replay "$2"; exit $? ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
export TMPDIR=$work
"$work/check" check -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here"
exit $?
