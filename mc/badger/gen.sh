#!/bin/bash
# usage: gen.sh OUTDIR; writes OUTDIR/badger, a copy of the database module that
# tells a hook where transactions begin and commit, and OUTDIR/sched.mod, which uses it.
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
bdir="$(cd "$1" && pwd)"
out="$bdir/badger"
exec 8>"$bdir/lock.badger"; flock 8
src="$(cd "$here" && go list -m -f '{{.Dir}}' github.com/dgraph-io/badger/v4)"
ver="$(basename "$src")"
if [ "$(cat "$out/.ver" 2>/dev/null)" != "$ver $(cksum <"$0")" ]; then
  mkdir -p "$out"
  cp -r "$src/." "$out/"
  chmod -R u+w "$out"
  find "$out" -name '*_test.go' -delete
  awk '{print}
/^func \(db \*DB\) NewTransaction\(update bool\) \*Txn \{/ {print "\tif VerifHook != nil {\n\t\tVerifHook(db, VerifBegin, nil)\n\t}"; n++}
/^func \(txn \*Txn\) Commit\(\) error \{/ {print "\tif VerifHook != nil && len(txn.pendingWrites) > 0 {\n\t\tVerifHook(txn.db, VerifCommit, txn.verifKeys())\n\t}\n\tif VerifFault != nil && len(txn.pendingWrites) > 0 {\n\t\tif err := VerifFault(txn.db, VerifCommit, txn.verifKeys()); err != nil {\n\t\t\ttxn.Discard()\n\t\t\treturn err\n\t\t}\n\t}"; n++}
/^func \(txn \*Txn\) Get\(key \[\]byte\) \(item \*Item, rerr error\) \{/ {print "\tif VerifFault != nil {\n\t\tif err := VerifFault(txn.db, VerifGet, []string{string(key)}); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}"; n++}
/^func \(txn \*Txn\) CommitWith\(/ {print "\tif VerifHook != nil && len(txn.pendingWrites) > 0 {\n\t\tVerifHook(txn.db, VerifCommit, txn.verifKeys())\n\t}\n\tif VerifFault != nil && len(txn.pendingWrites) > 0 {\n\t\tif err := VerifFault(txn.db, VerifCommit, txn.verifKeys()); err != nil {\n\t\t\ttxn.Discard()\n\t\t\tcb(err)\n\t\t\treturn\n\t\t}\n\t}"; n++}
END {if (n != 4) exit 1}' "$src/txn.go" >"$out/txn.go"
  cat >"$out/verif_hook.go" <<'G'
package badger

// What VerifHook is told.
const (
	VerifBegin = iota
	VerifCommit
	VerifGet
)

// VerifHook is called before a transaction begins and before one with writes commits.
var VerifHook func(db *DB, op int, keys []string)

// VerifFault, when set, may make a read or the commit of a transaction with writes fail.
var VerifFault func(db *DB, op int, keys []string) error

func (txn *Txn) verifKeys() (o []string) {
	for k := range txn.pendingWrites {
		o = append(o, k)
	}
	return
}
G
  echo "$ver $(cksum <"$0")" >"$out/.ver"
fi
{ cat "$here/go.mod"; echo; echo "replace github.com/dgraph-io/badger/v4 => $out"; } >"$bdir/sched.mod.$$"
cmp -s "$bdir/sched.mod.$$" "$bdir/sched.mod" && rm -f "$bdir/sched.mod.$$" || mv "$bdir/sched.mod.$$" "$bdir/sched.mod"
cmp -s "$here/go.sum" "$bdir/sched.sum" || cp "$here/go.sum" "$bdir/sched.sum"
