package main

import (
	"fmt"
	"strings"

	"verif/mc/fdo"
)

// passTable says which mutants of a layer need not be refused. What P12 insists
// on is that a message of the wrong shape (a node of another CBOR type, an
// element or a member missing) is refused; the content of a well-shaped message
// is what the other properties judge, and how lenient a decoder is about
// lengths and equivalent empty values is left open.
func passTable(l layer, m fdo.Mutant) bool {
	shape := strings.HasPrefix(m.Kind, "type:") || strings.HasPrefix(m.Kind, "del[") || strings.HasPrefix(m.Kind, "mdel")
	if !shape || m.Kind == "type:array0" || m.Kind == "type:bytes" {
		return true
	}
	p := func(pre ...string) bool {
		for _, s := range pre {
			if strings.HasPrefix(m.Path, s) {
				return true
			}
		}
		return false
	}
	switch fmt.Sprintf("%d %s", l.n, l.name) {
	case "22 to0d":
		return m.Path == "/1"
	case "22 to1d payload":
		return p("/0")
	case "30 message":
		return p("/1/1")
	case "60 message":
		return m.Path == "/0" || m.Path == "/4" // other numbers
	case "66 plaintext":
		return m.Path == "/1"
	case "68 plaintext":
		return p("/1/") || m.Path == "/0"
	case "32 payload", "64 payload":
		return p("{256}", "{-257}") || strings.HasPrefix(m.Kind, "mdel")
	}
	return false
}
