// Command ft decides the properties listed in /verif/properties.jsonl by
// static analysis of the repository's current source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"

	"ftverif/checks"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	flag.Parse()
	if flag.NArg() == 0 {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	code := 0
	for _, id := range flag.Args() {
		if c := checks.Main(id, *repo, *verif, tier, seed); c > code {
			code = c
		}
	}
	os.Exit(code)
}
