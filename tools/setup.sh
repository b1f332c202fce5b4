#!/bin/bash
# builds the verifier and warms the build cache; the checks rebuild it when needed
cd "$(dirname "$0")/../govc" || exit 1
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../.build && go build -o ../.build/govc .
