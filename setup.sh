#!/bin/bash
# Warms the Go build cache for both kinds of build, so that a check only compiles what changed.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
set -e
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -a harness "$work/harness"
cd "$work/harness"
go version
go test -c -buildvcs=false -vet=off -tags uavionix -o "$work/plain" ./mv
go test -c -buildvcs=false -vet=off -tags uavionix -race -o "$work/race" ./mv
(cd /repo && go build -buildvcs=false -o /dev/null ./... && go build -buildvcs=false -o /dev/null ./cmd)
echo ready
