#!/bin/bash
# Builds the symbolic engine from the committed sources (offline).
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root}
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p bin work evidence
(cd engine && go build -o ../bin/gosym .)
