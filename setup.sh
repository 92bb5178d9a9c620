#!/bin/bash
# Builds every check once, which shows that the framework builds offline. The checks build themselves again.
cd "$(dirname "${BASH_SOURCE[0]}")/mc" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
tmp=$(mktemp -d /tmp/vmc.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
for pkg in $(awk '{print $2}' checks/INDEX | sort -u); do
	go test -c -vet=off -o "$tmp/$pkg.test" "./checks/$pkg" || exit 1
done
