#!/bin/bash
# check.sh <property> [quick|thorough]     decide one property on /repo's current tree
# check.sh setup                           build the SSA exporter
# check.sh replay <file>                   run one recorded failing case again
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PYTHONDONTWRITEBYTECODE=1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
unset GOOS GOARCH
exec python3-vt engine/check.py "$@"
