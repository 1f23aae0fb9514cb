// Command stor runs the checks of package stor.
package main

import (
	"fmt"
	"os"

	"verifharness/mc"
	"verifharness/stor"
)

func main() {
	stor.Quiet()
	id := os.Getenv("VERIF_CHECK")
	f := stor.Checks[id]
	if f == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	ck := f()
	ck.ID = id
	os.Exit(mc.Main(ck, nil, nil))
}
