#!/bin/bash
# usage: check.sh PROPERTY [-tier quick|thorough] [-secs N] [-replay FILE] ...
cd "$(dirname "$0")" || exit 2
here=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; else export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local; fi
mkdir -p build/bin || exit 2
go build -o build/bin/check ./cmd/check || exit 2
p=$1; shift
exec "$here/build/bin/check" -prop "$p" "$@"
