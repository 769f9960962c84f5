#!/bin/bash
# builds the symbolic engine (offline)
set -e
cd "$(dirname "$0")/engine"
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOENV=off GOWORK=off
unset GOROOT
mkdir -p ../bin
go build -o ../bin/gosym . 
