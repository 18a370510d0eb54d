#!/bin/bash
# Builds every harness binary once, so that later checks find a warm build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off CGO_ENABLED=0
w=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$w"' EXIT
cd "$here/harness"
for d in cmd/*/; do go build -o "$w/" "./$d"; done
cd /repo && go build -o "$w/diskii" .
