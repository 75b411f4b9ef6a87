#!/bin/bash
# Builds the VC generator (the checks build it themselves when it is missing).
cd "$(dirname "$0")" || exit 1
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
mkdir -p bin && cd gov && go build -o ../bin/gov . && cd /repo && go build ./... 
