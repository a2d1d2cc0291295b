#!/bin/bash
# replay.sh <file>: runs the input of a reported violation on the compiled /repo.
cd "$(dirname "$0")" || exit 3
f=$(realpath "$1")
bash setup.sh >/dev/null || exit 3
exec bin/gosym -harness "$PWD/harness" -replay "$f"
