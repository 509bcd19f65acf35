#!/bin/bash
# Builds the harness once, to fill the build cache, and parses every module.
set -e
cd "$(dirname "$0")"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd harness && go test -c -o "$d/h.test" .)
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") >"$d/sany" 2>&1 || { cat "$d/sany"; exit 1; }
done
python3 -m json.tool MANIFEST.json >/dev/null
