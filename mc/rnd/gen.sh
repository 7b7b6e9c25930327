#!/bin/bash
# usage: gen.sh OUTDIR; writes OUTDIR/rand.json, an overlay of crypto/rand whose
# Int and of crypto/rsa whose GenerateKey ask a hook first.
set -e
out="$1/rand"; mkdir -p "$out"
src="$(go env GOROOT)/src/crypto/rand/util.go"
awk '{print} /^func Int\(rand io.Reader/ {print "\tif VerifInt != nil && max.Sign() > 0 && max.IsInt64() {\n\t\tif v, ok := VerifInt(max.Int64()); ok {\n\t\t\treturn big.NewInt(v), nil\n\t\t}\n\t}"}
END {print "\n// VerifInt, when set, may choose the value Int returns.\nvar VerifInt func(max int64) (int64, bool)"}' "$src" >"$out/util.go.$$"
grep -q 'VerifInt(max' "$out/util.go.$$"
cmp -s "$out/util.go.$$" "$out/util.go" && rm -f "$out/util.go.$$" || mv "$out/util.go.$$" "$out/util.go"
rsrc="$(go env GOROOT)/src/crypto/rsa/rsa.go"
awk '{print} /^func GenerateKey\(random io.Reader/ {print "\tif VerifKey != nil {\n\t\tif k := VerifKey(bits); k != nil {\n\t\t\treturn k, nil\n\t\t}\n\t}"}
END {print "\n// VerifKey, when set, may supply the key GenerateKey returns.\nvar VerifKey func(bits int) *PrivateKey"}' "$rsrc" >"$out/rsa.go.$$"
grep -q 'VerifKey(bits)' "$out/rsa.go.$$"
cmp -s "$out/rsa.go.$$" "$out/rsa.go" && rm -f "$out/rsa.go.$$" || mv "$out/rsa.go.$$" "$out/rsa.go"
printf '{"Replace":{"%s":"%s","%s":"%s"}}\n' "$src" "$out/util.go" "$rsrc" "$out/rsa.go" >"$1/rand.json"
