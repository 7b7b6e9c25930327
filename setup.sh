#!/bin/bash
# Builds every check once (warms the Go build cache); checks rebuild what changed.
here="$(cd "$(dirname "$0")" && pwd)"
for d in "$here"/mc/cmd/*/; do
  bash "$here/run.sh" "$(basename "$d")" build || exit 1
done
exit 0
