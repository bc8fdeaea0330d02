#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the harness from /repo's
# working tree and checks the property.
# Exit 0: held; 1: violation (with a VIOLATION line); 3: no answer.
set -u
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
race=
case $prop in C17) race=-race ;; esac
if ! (cd "$root/harness" && go build $race -o "$work/verif" .) >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "ERROR (no answer): the harness does not build" >&2
  exit 3
fi
fuzz=
if [ "$tier" = thorough ]; then
  if ! (cd "$root/harness" && go test -c -fuzz=FuzzCases -o "$work/fuzz.test" .) >"$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    echo "ERROR (no answer): the fuzzing harness does not build" >&2
    exit 3
  fi
  fuzz="-fuzzbin $work/fuzz.test -fuzztime ${VERIF_FUZZ_SECONDS:-90}"
fi
"$work/verif" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$root" $fuzz
