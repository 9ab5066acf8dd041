#!/bin/bash
# usage: check.sh ID [thorough]   Builds the analyser from the vendored source and decides one property for /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
export HIERA_VERIF="$here"
export HOME="${HOME:-/root}"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
if ! (cd "$here/tool" && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp/hieracheck" .) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log"
  echo "cannot build the analyser"
  exit 2
fi
[ "$id" = --build-only ] && exit 0
"$tmp/hieracheck" check "$id"
