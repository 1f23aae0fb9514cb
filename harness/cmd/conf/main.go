// Command conf runs the check of the configuration.
package main

import (
	"fmt"
	"os"

	"verifharness/conf"
	"verifharness/mc"
	"verifharness/plug"
)

func main() {
	plug.Quiet()
	id := os.Getenv("VERIF_CHECK")
	f := conf.Checks[id]
	if f == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	ck := f()
	ck.ID = id
	os.Exit(mc.Main(ck, nil, nil))
}
