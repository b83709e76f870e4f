#!/bin/bash
# Builds the harness once (warms the build cache) and checks that it starts.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d) || exit 1
trap 'rm -rf -- "$work"' EXIT
cd "$here/harness" && go build -tags cppbtree,verif -o "$work/harness" . && "$work/harness" list
