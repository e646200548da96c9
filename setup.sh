#!/bin/sh
# Builds the symbolic execution engine and warms the build cache of the native drivers.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOPROXY=off GOFLAGS=-mod=mod go build -o ../bin/gosym .
