#!/bin/sh
# builds the analyser from the committed, vendored sources
set -e
cd "$(dirname "$0")/sa"
mkdir -p ../bin
unset GOFLAGS
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
go build -mod=vendor -o ../bin/sa .
