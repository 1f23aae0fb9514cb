package srv

import (
	"runtime"
	"testing/synctest"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
)

var bubbleSettle = synctest.Wait

func yieldOS() { runtime.Gosched() }

func newRepo() *storage.Repository { return storage.NewRepository() }
