// Package yield perturbs schedules: cmd/inject puts a call of Y before every statement of the code under test.
package yield

import (
	"math/rand/v2"
	"os"
	"runtime"
	"time"
)

var (
	sleep = os.Getenv("VERIF_YIELD") == "sleep"
	late  = os.Getenv("VERIF_YIELD") == "late"
)

// G is where a new goroutine begins.
func G() {
	r := rand.Uint32()
	switch {
	case late && r%2 == 0:
		time.Sleep(time.Duration(1+r>>8%8) * time.Millisecond)
	case sleep && r%4 == 0:
		time.Sleep(time.Duration(1+r>>8%200) * time.Microsecond)
	case r%2 == 0:
		runtime.Gosched()
	}
}

func Y() {
	r := rand.Uint32()
	switch {
	case r%6 == 0:
		runtime.Gosched()
	case sleep && r%97 == 0:
		time.Sleep(time.Duration(1+r>>8%60) * time.Microsecond)
	}
}
