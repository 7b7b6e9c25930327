#!/bin/bash
# usage: gen.sh OUTDIR; writes OUTDIR/sched.json, OUTDIR/rand.json's overlay with
# mutexes that ask a hook before they wait.
set -e
out="$1/sync"; mkdir -p "$out"
src="$(go env GOROOT)/src/sync"
# ask RECEIVER TRY UNLOCK FUNCTION < file
ask() {
  awk -v f="func ($1 *$4 {" -v h="	if h := VerifWait; h != nil && ($1.$2() || h($1.$2, $1.$3)) {
		return
	}" '{print} $0 == f {print h; n++} END {if (n != 1) exit 1}'
}
{
  ask m TryLock Unlock "Mutex) Lock()" <"$src/mutex.go"
  printf '\n// VerifWait, when set, may wait for a lock in its own way and tells whether it has got it.\nvar VerifWait func(try func() bool, undo func()) bool\n'
} >"$out/mutex.go.$$"
ask rw TryLock Unlock "RWMutex) Lock()" <"$src/rwmutex.go" | ask rw TryRLock RUnlock "RWMutex) RLock()" >"$out/rwmutex.go.$$"
for f in mutex rwmutex; do
  grep -q VerifWait "$out/$f.go.$$"
  cmp -s "$out/$f.go.$$" "$out/$f.go" && rm -f "$out/$f.go.$$" || mv "$out/$f.go.$$" "$out/$f.go"
done
sed "s|}}\$|,\"$src/mutex.go\":\"$out/mutex.go\",\"$src/rwmutex.go\":\"$out/rwmutex.go\"}}|" "$1/rand.json" >"$1/sched.json.$$"
mv "$1/sched.json.$$" "$1/sched.json"
