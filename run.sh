#!/bin/bash
# run.sh check -property Cxx -tier quick|thorough   decide one property
# run.sh replay FILE                                re-execute a reported history
# run.sh setup                                      warm the build cache
# Everything is rebuilt from /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GOWORK=off
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod
exec bash "$here/mc/build_and_run.sh" "$here" "$@"
