#!/bin/bash
# builds bin/gotcheck when it is missing or older than its sources
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/gotcheck" || exit 2
if [ -x ../bin/gotcheck ] && [ -z "$(find . -newer ../bin/gotcheck -name '*.go' -print -quit)" ]; then exit 0; fi
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off CGO_ENABLED=0 go build -o ../bin/gotcheck.new . && mv ../bin/gotcheck.new ../bin/gotcheck
