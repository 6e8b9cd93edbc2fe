#!/bin/bash
# Builds the framework from the committed files (everything is rebuilt by each check as well).
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
cd "$(dirname "$0")/../harness" || exit 1
go vet ./cmd/... ./vsched ./vsync ./wire ./drv && go build ./... 
