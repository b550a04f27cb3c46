#!/bin/bash
# warms the Go build cache: every check builds what it needs by itself
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
T=$(mktemp -d)
go build -o "$T/vh" . && go build -race -o "$T/vhr" .
R=$?
rm -rf "$T"
exit $R
