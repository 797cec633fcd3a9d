#!/bin/bash
# Builds the checker from the committed sources; offline.
set -e
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
mkdir -p build
cd checker
go build -o ../build/verifchk.$$ .
mv -f ../build/verifchk.$$ ../build/verifchk
