// Command pgen runs the check of the packet generator.
package main

import (
	"fmt"
	"os"

	"verifharness/mc"
	"verifharness/pgen"
)

func main() {
	id := os.Getenv("VERIF_CHECK")
	f := pgen.Checks[id]
	if f == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	ck := f()
	ck.ID = id
	os.Exit(mc.Main(ck, nil, nil))
}
