#!/bin/bash
# Parses every specification and compiles the harness once (the checks build
# for themselves whatever they need from /repo's current tree).
cd "$(dirname "$0")/.." || exit 1
set -e
T=$(mktemp -d /tmp/vfsetup.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"
for m in spec/*.tla; do
  (cd "$T" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >"$T/out" 2>&1) || { cat "$T/out"; exit 1; }
done
cp -r harness "$T/h" && cd "$T/h" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$T/hbin" .
echo setup done
