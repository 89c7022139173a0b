package gen

import "math/rand/v2"

// Tokens are parts of hostile documents.
var Tokens = []string{"{", "}", "[", "]", `"`, `\`, `\u`, `\ud800`, `\udc00`, `\u12`, ":", ",", "null", "nul", "true", "fals", "-", "1e", "1E+400", ".5", "00", "18446744073709551616", `"id"`, `"traceId"`, `"tags"`, `"annotations"`, `"binaryAnnotations"`, `"timestamp"`, `"duration"`, `"localEndpoint"`, `"data"`, `"spans"`, `"processes"`, `"references"`, "\x00", "\xff", "\xc3", "\xe2\x82", "\xef\xbb\xbf", "\x85", "\xa0", "[[[[", "]]]]", "{}", "[]", "é", "\n"}

// Mutate damages a document.
func Mutate(rng *rand.Rand, doc []byte) []byte {
	out := append([]byte(nil), doc...)
	for k := 1 + rng.IntN(4); k > 0; k-- {
		if len(out) == 0 {
			out = []byte("[{}]")
		}
		at := rng.IntN(len(out))
		switch rng.IntN(9) {
		case 0:
			out[at] ^= 1 << rng.IntN(8)
		case 1:
			out[at] = byte(rng.IntN(256))
		case 2:
			end := min(len(out), at+1+rng.IntN(20))
			out = append(out[:at:at], out[end:]...)
		case 3:
			end := min(len(out), at+1+rng.IntN(200))
			out = append(out[:end:end], out[at:]...)
		case 4, 5, 6:
			tok := Tokens[rng.IntN(len(Tokens))]
			out = append(out[:at:at], append([]byte(tok), out[at:]...)...)
		case 7:
			out = out[:at]
		case 8:
			// exchange two parts
			b := rng.IntN(len(out))
			out[at], out[b] = out[b], out[at]
		}
	}
	return out
}

// Escapes puts incomplete and unusual escape sequences at the ends of strings of a document.
func Escapes(rng *rand.Rand, doc []byte) []byte {
	var quotes []int
	for i, c := range doc {
		if c == '"' {
			quotes = append(quotes, i)
		}
	}
	if len(quotes) == 0 {
		return doc
	}
	out := append([]byte(nil), doc...)
	at := quotes[rng.IntN(len(quotes))]
	if rng.IntN(4) == 0 {
		at++
	}
	var ins []byte
	for k := 1 + rng.IntN(4); k > 0; k-- {
		ins = append(ins, []string{`\ud83d`, `\ude00`, `\u`, `\u0`, `\u00`, `\u004`, `\u0041`, `\`, `\\`, `\"`, `\x`, `\uzzzz`, `\u-001`, `\ud8`, "a", "é", `\n`, `\U0041`, `\ud800`, `\udbff\udfff`}[rng.IntN(20)]...)
	}
	out = append(out[:at:at], append(ins, out[at:]...)...)
	if rng.IntN(6) == 0 {
		out = out[:at+len(ins)]
	}
	return out
}
