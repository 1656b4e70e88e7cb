#!/bin/bash
# usage: run.sh ID quick|thorough     (or: run.sh replay FILE)
# Builds the checker from /repo's current working tree, then explores.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod MC_VERIF=$here
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/mc" || exit 2
opt=()
if [ "$1" = C30 ] || [ "$2" = C30 ] || { [ "$1" = replay ] && grep -q '"C30"' "$2"; }; then
  # C30: map iterations start where the checker says
  f=$(go env GOROOT)/src/internal/runtime/maps/table.go
  sed -e 's|^\tit.entryOffset = rand()$|\tif MCStart != nil \&\& m.used > 1 {\n\t\tit.entryOffset = MCStart(m.used)\n\t\tit.dirOffset = it.entryOffset\n\t} else {\n\t\tit.entryOffset = rand()\n\t\tit.dirOffset = rand()\n\t}|' \
      -e '/^\tit.dirOffset = rand()$/d' "$f" > "$bin/table.go"
  printf '\n//go:linkname MCStart\nvar MCStart func(used uint64) uint64\n' >> "$bin/table.go"
  [ "$(grep -c MCStart "$bin/table.go")" = 4 ] || { echo "ERROR: unexpected runtime source"; exit 2; }
  printf '{"Replace":{"%s":"%s"}}' "$f" "$bin/table.go" > "$bin/overlay.json"
  opt=(-overlay "$bin/overlay.json" -tags maporder)
fi
if ! go build "${opt[@]}" -o "$bin/mc" ./cmd/mc; then
  echo "ERROR: build failed"; exit 2
fi
if [ "$1" = replay ] || [ "$1" = count ] || [ "$1" = list ]; then "$bin/mc" "$@"; exit $?; fi
"$bin/mc" run "$1" "${2:-quick}"
