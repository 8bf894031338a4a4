// Command verifmon decides the properties of /verif/properties.jsonl by run-time monitoring.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: verifmon check PROP | replay FILE | list")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "worker":
		mon.Worker(props.All, os.Args[2:])
	case "check":
		p := props.All[os.Args[2]]
		if p == nil {
			fmt.Println("unknown property", os.Args[2])
			os.Exit(2)
		}
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(mon.Check(p, tier, seed, verif))
	case "replay":
		os.Exit(mon.Replay(props.All, os.Args[2], verif))
	case "list":
		var k []string
		for id := range props.All {
			k = append(k, id)
		}
		sort.Strings(k)
		for _, id := range k {
			fmt.Println(id)
		}
	}
}
