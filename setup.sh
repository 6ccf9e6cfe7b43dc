#!/bin/bash
# Warms the Go build cache and checks that the specification parses and typechecks.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
(cd harness && go build -o "$t/harness" .)
for f in spec/*.qnt spec/models/*.qnt; do quint typecheck "$f" > /dev/null; done
echo "setup done"
