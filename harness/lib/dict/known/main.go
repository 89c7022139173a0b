// Writes the constants of the source as it is now: go run ./lib/dict/known > lib/dict/known.json
package main

import (
	"encoding/json"
	"os"

	"verif/harness/lib/dict"
)

func main() {
	e := json.NewEncoder(os.Stdout)
	e.SetIndent("", " ")
	e.Encode(dict.Read(dict.Root()))
}
