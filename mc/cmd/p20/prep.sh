#!/bin/bash
# usage: prep.sh OUTDIR IN.json OUT.json; adds to an overlay the package
# verif/mc/tool: the command line tool itself, which seeds fewer credentials and
# waits less.
set -e
here="$(cd "$(dirname "$0")/../.." && pwd)"
out="$1/tool"; mkdir -p "$out.new"
rm -f "$out.new"/*.go
for f in /repo/*.go; do
  case "$f" in *_test.go) continue;; esac
  sed -e 's/^package main$/package tool/' -e 's/\b10_\?000\b/100/g' -e 's/\btime\.Sleep(/func(time.Duration) {}(/g' "$f" >"$out.new/$(basename "$f")"
done
# these two are not exported, so a rewrite may rename them: what needs them is
# then left out
start='var Start func(db *badger.DB) error'
grep -qE '^func checkAndSeed\([a-zA-Z_]+ \*badger\.DB\) error \{' /repo/*.go && start='func Start(db *badger.DB) error { return checkAndSeed(db) }'
settings='var Settings func() context.Context'
grep -qE '^func loadEnvCtx\(\) context\.Context \{' /repo/*.go && settings='func Settings() context.Context { return loadEnvCtx() }'
cat >"$out.new/verif_export.go" <<G
package tool

import (
	"context"

	"github.com/dgraph-io/badger/v4"
)

// HasStart and HasSettings tell whether Start and Settings can be called.
const HasStart, HasSettings = $([[ $start = func* ]] && echo true || echo false), $([[ $settings = func* ]] && echo true || echo false)

// Start is what the server does with its database before it serves.
$start

// Main runs the command line.
func Main() { main() }

// Settings are the settings the server takes from its environment.
$settings
G
mkdir -p "$out"
add=
for f in "$out"/*.go; do [ -f "$out.new/$(basename "$f")" ] || rm -f "$f"; done
for f in "$out.new"/*.go; do
  n="$(basename "$f")"
  cmp -s "$f" "$out/$n" || cp "$f" "$out/$n"
  add="$add,\"$here/tool/$n\":\"$out/$n\""
done
sed "s|}}\$|$add}}|" "$2" >"$3.$$"
mv "$3.$$" "$3"
