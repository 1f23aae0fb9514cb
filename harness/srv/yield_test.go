//go:build instrumented

package srv

import (
	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/libs/egts"
)

func init() {
	SetYield = func(f func(), where int) {
		pick := func(bit int) func() {
			if where&bit != 0 {
				return f
			}
			return func() {}
		}
		egts.VerifYield, server.VerifYield, storage.VerifYield = pick(1), pick(2), pick(4)
	}
}
