#!/bin/bash
# usage: check.sh <property-id> [quick|thorough]   decide one property
#        check.sh replay <file>                    replay a recorded violation
#        check.sh build                            only build (used by setup_cmd)
# Builds everything it needs from /repo's working tree into a private scratch
# directory that it removes again; /repo is never written to.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOBIN GOOS GOARCH GOFLAGS
export VERIF_DIR=$here VERIF_REPO=${VERIF_REPO:-/repo}
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'case "$scratch" in /tmp/verif.????????) rm -rf "$scratch";; esac' EXIT
export VERIF_SCRATCH=$scratch
(cd "$here/driver" && go build -o "$scratch/vdriver" .) || exit 2
"$scratch/vdriver" "$@"
