#!/bin/bash
# builds the rewriter and the harness once, so that the first check starts warm
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d /tmp/mcs.XXXXXX); trap 'rm -rf "$d"' EXIT
./check build "$d"
