// Command codec runs the checks of package codec.
package main

import (
	"fmt"
	"os"

	"verifharness/codec"
	"verifharness/mc"
)

func main() {
	codec.Quiet()
	id := os.Getenv("VERIF_CHECK")
	f := codec.Checks[id]
	if f == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	ck := f()
	ck.ID = id
	ck.Assume = append(ck.Assume, codec.Assume...)
	os.Exit(mc.Main(ck, nil, nil))
}
