// Package sched runs goroutines one at a time, along a schedule fixed in
// advance over the scheduling points of the instrumented repository.
//
// Handing over happens through plain memory in functions the race detector
// ignores: it orders nothing between the goroutines, so that two accesses the
// code under test does not order itself are reported as a race whatever the
// schedule. It needs GOMAXPROCS=1.
package sched

import (
	"fmt"
	"runtime"
	"sync"
)

// Max is the number of goroutines at most.
const Max = 4

// Segment is a part of a schedule: a goroutine runs up to its n-th next
// scheduling point, or to its end when Points is 0.
type Segment struct{ Thread, Points int }

var (
	active   bool
	free     bool // the goroutines are left to the Go scheduler
	turn     int
	left     int
	progress int
	points   [Max]int
	done     [Max]bool
	threads  int
	plan     [32]Segment
	planLen  int
	planPos  int
)

// Coarse: only the points before statements that may synchronise count. What is
// free of data races, as the race detector watches, behaves alike wherever else
// a goroutine is interrupted.
var Coarse bool

// Point is the scheduling point before an ordinary statement.
//
//go:norace
func Point() {
	if Coarse {
		return
	}
	Sync()
}

// Sync is the scheduling point before a statement that may synchronise.
//
//go:norace
func Sync() {
	if !active || free {
		return
	}
	me := turn
	progress++
	points[me]++
	if left == 0 {
		return
	}
	left--
	if left > 0 {
		return
	}
	advance()
	if turn != me {
		wait(me)
	}
}

// advance gives the turn to the goroutine of the next segment.
//
//go:norace
func advance() {
	for planPos < planLen {
		s := plan[planPos]
		planPos++
		if !done[s.Thread] {
			left = s.Points
			turn = s.Thread
			return
		}
	}
	left = 0
	for t := 0; t < threads; t++ {
		if !done[t] {
			turn = t
			return
		}
	}
	turn = -1
}

// wait blocks until it is the turn of a goroutine. When the running one is
// blocked (waiting for something a waiting one holds), all of them go on
// without the scheduler.
//
//go:norace
func wait(me int) {
	spins, last := 0, progress
	for turn != me && !free {
		runtime.Gosched()
		if progress != last {
			spins, last = 0, progress
			continue
		}
		spins++
		if spins > 3000 {
			free = true
		}
	}
}

//go:norace
func finish(me int) {
	done[me] = true
	progress++
	if !free {
		advance()
	}
}

//go:norace
func begin(n int, schedule []Segment) {
	for i := range done {
		done[i], points[i] = false, 0
	}
	threads, planLen, planPos, left, turn, free, progress = n, 0, 0, 0, -1, false, 0
	for _, s := range schedule {
		plan[planLen] = s
		planLen++
	}
	advance()
	active = true
}

//go:norace
func end() (freed bool, counts [Max]int) {
	active = false
	return free, points
}

// Result of a goroutine.
type Result struct {
	Value    string
	Panicked bool
}

// Run runs the functions along the schedule and gives their results, the
// points each went through, and whether the schedule had to be given up
// because a goroutine was blocked.
func Run(schedule []Segment, fs ...func() string) (results []Result, counts [Max]int, freed bool) {
	results = make([]Result, len(fs))
	var wg sync.WaitGroup
	wg.Add(len(fs))
	begin(len(fs), schedule)
	for i := range fs {
		go func(i int, f func() string) {
			defer wg.Done()
			wait(i)
			defer finish(i)
			r := &results[i]
			func() {
				defer func() {
					if p := recover(); p != nil {
						*r = Result{Value: fmt.Sprint(p), Panicked: true}
					}
				}()
				r.Value = f()
			}()
		}(i, fs[i])
	}
	wg.Wait()
	freed, counts = end()
	return results, counts, freed
}
