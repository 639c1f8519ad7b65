#!/bin/bash
# builds /verif/bin/dukptsa (offline; golang.org/x/tools from the module cache)
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off; fi
if [ -x bin/dukptsa ] && [ -z "$(find sa -newer bin/dukptsa -name '*.go' -print -quit)" ]; then exit 0; fi
mkdir -p bin && cd sa && go build -o "$V/bin/dukptsa" .
