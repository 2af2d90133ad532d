#!/bin/bash
# Builds the program beside this file against the winres in the current directory, and runs it.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
{
  printf '{"Replace":{'
  sep=
  for f in "$d"/*.go; do
    printf '%s"%s/zz_demo/%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 3
cd "$t" && timeout 200 ./demo
