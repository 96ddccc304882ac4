#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   builds the verifier and decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export GOVC_VERIF="$PWD"
(cd tool && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o govc .) || exit 2
exec tool/govc check -prop "$1" -tier "${2:-quick}"
