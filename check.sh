#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export VH_DIR="$PWD"
bin=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd vh && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$bin/vh" .) >"$bin/log" 2>&1; then
  cat "$bin/log" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
"$bin/vh" check "$@"
