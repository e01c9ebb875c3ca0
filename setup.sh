#!/bin/sh
# Builds the verifier and the explorer once, to warm the build cache.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
d=$(mktemp -d)
(cd gover && go build -o "$d/gover" ./cmd/gover)
(cd spec && go build -o "$d/search" ./cmd/search)
rm -r "$d"
