package srv

import (
	"fmt"
	"net"
	"os"
	"strings"
	"testing"
	"testing/synctest"

	"verifharness/codec"
	"verifharness/mc"
)

func init() {
	ListenHook = func(f func(network, address string) (net.Listener, error)) { net.VerifListen = f }
}

// TestMC runs the check named by VERIF_CHECK; it ends the process with its exit code.
func TestMC(t *testing.T) {
	codec.Quiet()
	id := os.Getenv("VERIF_CHECK")
	f := Checks[id]
	if f == nil {
		t.Fatal("unknown check ", id)
	}
	ck := f()
	ck.ID = id
	Bubble = func(do func()) {
		defer func() { // goroutines left over are no violation by themselves; C15 looks at what must be released
			if r := recover(); r != nil && !strings.Contains(fmt.Sprint(r), "main bubble goroutine has exited") {
				panic(r)
			}
		}()
		synctest.Test(t, func(*testing.T) { do() })
	}
	run := mc.Runner(Bubble)
	if id == "C13" { // decides by space
		run = nil
	}
	os.Exit(mc.Main(ck, []string{"-test.run=^TestMC$", "-test.timeout=0"}, run))
}
