#!/bin/bash
# Tools for planted bugs.
#  seed.sh save ID PROP "needs" "breaks"  - diff of /repo's working tree (then undone) + kit copied beside main.go read from stdin
#  seed.sh try ID                         - confirm: clean demo 0; patched builds, passes stable tests, demo nonzero
#  seed.sh check ID [PROP..]              - run checks against the planted bug
set -u
V=/verif; S=$V/seeded/${2:?id}
. /opt/vp/env.sh
case $1 in
save)
  mkdir -p "$S/kit"
  git -C /repo diff >"$S/patch.diff"; git -C /repo checkout -q -- .
  [ -s "$S/patch.diff" ] || { echo "empty patch"; exit 1; }
  cat >"$S/kit/main.go"
  mkdir -p "$S/kit/fdo" "$S/kit/hx"
  cp $V/mc/go.mod $V/mc/go.sum "$S/kit/"
  cp $V/mc/fdo/*.go "$S/kit/fdo/"
  cp $V/mc/hx/*.go "$S/kit/hx/"
  gofmt -l "$S/kit/main.go"
  cat >"$S/demo.sh" <<'D'
#!/bin/bash
# Exit 0 when the code under /repo (the current directory) behaves, nonzero otherwise.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod
B=$(mktemp) || exit 9
cd "$(dirname "$0")/kit" && go build -o "$B" . && "$B"
R=$?
rm -f "$B"
exit $R
D
  chmod +x "$S/demo.sh"
  python3 - "$S" "$3" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
  exec "$0" try "$2" ;;
try)
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
  T=$(mktemp -d); cp -r "$S" "$T/d"
  cd /repo; bash "$T/d/demo.sh" >"$T/clean" 2>&1; c=$?
  git apply "$S/patch.diff" || { echo "$2: does not apply"; exit 1; }
  bash /opt/vp/build.sh >"$T/build" 2>&1; b=$?
  bash /opt/vp/test.sh "$T/t.json" >/dev/null 2>&1; t=$?
  bash "$T/d/demo.sh" >"$T/bug" 2>&1; p=$?
  git checkout -q -- .
  echo "$2: clean=$c build=$b test=$t patched=$p"
  [ $c = 0 ] || cat "$T/clean"; tail -3 "$T/bug"; [ $b = 0 ] || cat "$T/build"
  [ $c = 0 ] && [ $b = 0 ] && [ $p != 0 ] ;;
check)
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
  P=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")
  shift 2; [ $# = 0 ] && set -- "$P"
  git -C /repo apply "$S/patch.diff" || exit 1
  trap 'git -C /repo checkout -q -- .' EXIT
  for p in "$@"; do
    o=$("$V/run.sh" "$p" quick 2>&1); r=$?
    echo "$(basename "$S") $p exit=$r $(grep -c ^VIOLATION <<<"$o") $(grep -m1 'key=' <<<"$o")"
    [ $r = 2 ] && tail -5 <<<"$o"
  done ;;
esac
