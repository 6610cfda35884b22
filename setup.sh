#!/bin/bash
# Checks that the harness builds offline (each check builds it again from /repo's tree).
set -eu
. /opt/vp/env.sh
cd "$(dirname "$0")/harness"
go vet .
go build -o /dev/null .
