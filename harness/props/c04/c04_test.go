package c04

import (
	"testing"

	"verif/harness/lib/dec"
	"verif/harness/lib/rep"
)

func Test(t *testing.T) {
	rep.Run(t, "C04", "random well-formed documents (random structure, key order, whitespace, escapes, unknown fields, string lengths around the buffer sizes), each read through four differently splitting readers; non-trivial: at least one span",
		func(r *rep.R) { dec.Fidelity(r, dec.Jaeger, r.N(4000, 150000)) })
}
