// Command plug runs the checks of package plug.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verifharness/mc"
	"verifharness/plug"
)

func main() {
	plug.Quiet()
	if len(os.Args) == 4 && os.Args[1] == "race" { // built with the race detector
		k, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		if msg := plug.RacePair(k, n); msg != "" {
			fmt.Println("VERDICT " + msg)
		}
		fmt.Println("DONE")
		return
	}
	id := os.Getenv("VERIF_CHECK")
	f := plug.Checks[id]
	if f == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	ck := f()
	ck.ID = id
	os.Exit(mc.Main(ck, nil, nil))
}
