#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working
# tree. This only verifies that the tools the build uses are present.
cd "$(dirname "$0")" || exit 1
for t in clang++ ninja protoc python3 ld.lld; do
  command -v $t >/dev/null || { echo "missing $t"; exit 1; }
done
