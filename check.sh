#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the verifier and decides one property on /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p "$here/bin"
if ! (cd "$here/govc" && go build -o "$here/bin/govc.$$" .); then
  echo "check.sh: the verifier does not build" >&2
  exit 2
fi
"$here/bin/govc.$$" -root "$here" -repo /repo -prop "$1" -tier "${2:-quick}"
rc=$?
rm -f "$here/bin/govc.$$"
exit $rc
