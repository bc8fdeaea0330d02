#!/bin/bash
# Warms the build cache; every check builds for itself anyway.
set -eu
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
trap 'rm -rf "$work"' EXIT
cd "$root/harness"
go vet . || true
go build -o "$work/verif" .
go build -race -o "$work/verif-race" .
"$work/verif" list
