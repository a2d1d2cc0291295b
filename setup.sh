#!/bin/bash
# Builds the symbolic executor from the committed sources (vendored x/tools).
cd "$(dirname "$0")" || exit 3
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p bin evidence
if [ -x bin/gosym ] && [ -z "$(find engine -newer bin/gosym -name '*.go' -not -path '*/vendor/*' -print -quit)" ]; then
	echo "gosym is up to date"
	exit 0
fi
(cd engine && go build -o ../bin/gosym.tmp.$$ .) && mv bin/gosym.tmp.$$ bin/gosym || exit 3
echo "built bin/gosym"
