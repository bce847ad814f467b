#!/bin/bash
# setup.sh builds the analyzer from the committed files, if it is not built yet.
cd "$(dirname "$0")/analyzer" || exit 2
if [ -x bin/concheck ] && [ -z "$(find . -name '*.go' -newer bin/concheck -o -name 'go.*' -newer bin/concheck | head -1)" ]; then exit 0; fi
mkdir -p bin
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
/usr/local/bin/go build -o bin/concheck.$$ . && mv bin/concheck.$$ bin/concheck
