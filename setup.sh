#!/bin/bash
# Compiles the monitors once, so that a broken framework shows before any check runs. Each check builds its own.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$here/harness" && go vet ./... && go build -o /dev/null . && CGO_ENABLED=1 go build -race -o /dev/null .
