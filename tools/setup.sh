#!/bin/bash
# builds the verifier (each check builds it again when needed)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
cd "$(dirname "$0")/../gocon" && mkdir -p ../bin && go build -o ../bin/gocon . && go vet ./... >/dev/null 2>&1; [ -x ../bin/gocon ]
