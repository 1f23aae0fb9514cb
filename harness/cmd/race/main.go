// Command race is built with the race detector. It runs pairs of operations without any synchronisation between
// them: a report of the detector is a conflicting access, no report means that every interleaving of the pair is
// equivalent to the one that ran.
package main

import (
	"fmt"
	"net"
	"os"
	"strconv"

	"verifharness/codec"
	"verifharness/conc"
	"verifharness/srv"
)

func main() {
	codec.Quiet()
	srv.ListenHook = func(f func(network, address string) (net.Listener, error)) { net.VerifListen = f }
	k, _ := strconv.Atoi(os.Args[2])
	n := 0
	switch os.Args[1] {
	case "codec":
		ops := conc.Ops()
		for j := range ops {
			r0, d0 := ops[k].Prep(0)
			r0()
			w0 := d0()
			r1, d1 := ops[j].Prep(1)
			r1()
			w1 := d1()
			a, da := ops[k].Prep(0)
			b, db := ops[j].Prep(1)
			done := make(chan bool, 2)
			go func() { a(); done <- true }()
			go func() { b(); done <- true }()
			<-done
			<-done
			if da() != w0 || db() != w1 {
				fmt.Printf("%s || %s: results differ from those alone\n", ops[k].Name, ops[j].Name)
				os.Exit(1)
			}
			n++
		}
	case "server":
		for j := 0; j < srv.NKinds(); j++ {
			if msg := srv.RacePair(k, j); msg != "" {
				fmt.Println(msg)
				os.Exit(1)
			}
			n++
		}
	}
	fmt.Printf(`{"Pairs": %d}`, n)
}
