// Package checks holds one decision procedure per property.
package checks

import (
	"fmt"
	"sort"
	"sync"

	"github.com/ulule/loukoum/v3/builder"

	"verifmc/engine"
	"verifmc/kit"
)

// All lists the checks by property.
var All = map[string]func() engine.Check{}

func register(id string, f func() engine.Check) { All[id] = f }

// IDs lists the properties with a check.
func IDs() []string {
	var ids []string
	for id := range All {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

var (
	opsMu    sync.Mutex
	opsCache = map[[2]int][]kit.Op{}
)

func ops(kind, n int) []kit.Op {
	opsMu.Lock()
	defer opsMu.Unlock()
	k := [2]int{kind, n}
	if o, ok := opsCache[k]; ok {
		return o
	}
	o := kit.Ops(kind, n)
	opsCache[k] = o
	return o
}

func opNamed(kind, n int, name string) kit.Op {
	for _, o := range ops(kind, n) {
		if o.Name == fmt.Sprintf("%s#%d", name, n) {
			return o
		}
	}
	panic("checks: no operation " + name)
}

// apply runs an operation in step on the implementation and the model.
func apply(x *engine.X, h kit.H, op kit.Op, key string) (kit.H, bool) {
	next, refused, err := kit.Apply(h, op)
	if refused {
		x.Op("%s: refused", op.Name)
	} else {
		x.Op("%s", op.Name)
	}
	if err != nil {
		x.Fail(key, "%v\n  on %s", err, h.M.Key())
	}
	return next, refused
}

// verify compares what a builder renders with its model.
func verify(x *engine.X, h kit.H, forms kit.Forms, key, what string) {
	x.Checked()
	want, ok := h.M.Toks()
	var err error
	panicked, val := x.Try(func() { err = kit.Match(h.B(), want, forms) })
	if !ok {
		if !panicked {
			x.Fail(key, "%s: an incomplete statement was rendered: %s", what, h.M.Key())
		}
		return
	}
	if panicked {
		x.Fail(key, "%s: rendering was refused: %v\n  expected %s", what, val, kit.Text(want))
	}
	if err != nil {
		x.Fail(key, "%s: %v", what, err)
	}
}

// must runs f, which must not panic.
func must(x *engine.X, key, what string, f func()) {
	if p, v := x.Try(f); p {
		x.Fail(key, "%s was refused: %v", what, v)
	}
}

// mustRefuse runs f, which must panic.
func mustRefuse(x *engine.X, key, what string, f func()) {
	x.Checked()
	if p, _ := x.Try(f); !p {
		x.Fail(key, "%s was not refused", what)
	}
}

// tier chooses a bound.
func tier(x *engine.X, quick, thorough int) int {
	if x.Thorough {
		return thorough
	}
	return quick
}

type (
	lkSelect = builder.Select
	lkInsert = builder.Insert
	lkUpdate = builder.Update
	lkDelete = builder.Delete
)
