#!/bin/bash
# Runs the demonstration beside this script against the go-bolt tree in the
# current directory: exit 0 if the property holds, nonzero if it does not.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/*.go; do
    printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
go test -c -vet=off $DEMOBUILD -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 1
cd "$tmp" && timeout 240 ./demo -test.timeout 200s
