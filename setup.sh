#!/bin/bash
# Builds every checker once (this only warms the Go build cache; each check
# rebuilds from /repo's working tree).
cd "$(dirname "$0")" || exit 1
out=$(mktemp -d) || exit 1
trap 'rm -rf "$out"' EXIT
for d in mc/*/main.go; do
  a=$(basename "$(dirname "$d")")
  [ "$a" = core ] && continue
  ./check build "$a" "$out/$a" || exit 1
done
echo "all checkers build"
