//go:build hooked

package checks

import (
	"github.com/ulule/loukoum/v3/verifhook"

	"verifmc/sched"
)

// Hooked: the repository was instrumented.
const Hooked = true

func init() { verifhook.Point, verifhook.Sync = sched.Point, sched.Sync }

// setOrder makes f decide the order of the iterations over maps.
func setOrder(f func(n int) []int) { verifhook.Order = f }
