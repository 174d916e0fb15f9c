#!/bin/bash
# Builds the analyser from /verif/checker; offline.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
cd "$here/checker"
go build -o "$here/bin/ratuscheck.tmp.$$" .
mv "$here/bin/ratuscheck.tmp.$$" "$here/bin/ratuscheck"
