#!/bin/bash
# usage: ./check.sh PROPERTY [quick|thorough]   (run in /verif)
# Builds the analyser from /verif/sa if it is missing or older than its source, and decides one property of /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off; fi
[ -n "$2" ] && export VERIF_TIER=$2
./build.sh || exit 2
exec "$V/bin/dukptsa" -prop "$1" -repo /repo -verif "$V"
