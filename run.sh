#!/bin/bash
# usage: run.sh PNN [quick|thorough|replay FILE|build]; builds ./mc/cmd/pnn against /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
. "$here/mc/env.sh"
p="$(echo "$1" | tr 'A-Z' 'a-z')"; shift
bdir="$here/.build"; mkdir -p "$bdir" "$here/evidence"
modfile=go.mod
overlay=()
if [ -f "$here/mc/cmd/$p/RAND" ]; then
  bash "$here/mc/rnd/gen.sh" "$bdir" >"$bdir/$p.log" 2>&1 || { cat "$bdir/$p.log" >&2; echo "cannot prepare the scripted random source" >&2; exit 2; }
  overlay=(-overlay "$bdir/rand.json")
fi
if [ -f "$here/mc/cmd/$p/SCHED" ]; then
  { bash "$here/mc/rnd/gen.sh" "$bdir" && bash "$here/mc/badger/gen.sh" "$bdir" && bash "$here/mc/sched/gen.sh" "$bdir"; } >"$bdir/$p.log" 2>&1 || { cat "$bdir/$p.log" >&2; echo "cannot prepare the instrumented database" >&2; exit 2; }
  modfile="$bdir/sched.mod"
  overlay=(-overlay "$bdir/sched.json")
fi
if [ -f "$here/mc/cmd/$p/prep.sh" ]; then
  bash "$here/mc/cmd/$p/prep.sh" "$bdir" "${overlay[1]}" "$bdir/$p.json" >"$bdir/$p.log" 2>&1 || { cat "$bdir/$p.log" >&2; echo "cannot prepare $p" >&2; exit 2; }
  overlay=(-overlay "$bdir/$p.json")
fi
(
  flock 9
  cd "$here/mc" && go build -modfile="$modfile" "${overlay[@]}" -o "$bdir/$p.new" "./cmd/$p" && mv -f "$bdir/$p.new" "$bdir/$p"
) 9>"$bdir/lock.$p" 2>"$bdir/$p.log" || { cat "$bdir/$p.log" >&2; echo "build of $p against /repo failed" >&2; exit 2; }
[ "$1" = build ] && exit 0
cd "$here" && exec "$bdir/$p" "$@"
