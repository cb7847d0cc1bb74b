#!/bin/bash
# builds the analyser from the committed sources (offline, vendored dependencies)
cd "$(dirname "$0")/analyzer" || exit 2
. ../env.sh
mkdir -p ../bin ../evidence
GOFLAGS=-mod=vendor go build -o ../bin/hbufcheck . || exit 2
