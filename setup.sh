#!/bin/bash
# Builds the SSA dumper (everything else is interpreted or rebuilt by the checks).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p build
cd govc/ssadump && go build -o ../../build/ssadump .
