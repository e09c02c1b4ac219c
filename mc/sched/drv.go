// Package sched drives the exploration runtime of vrt.c from a program built with -race and that runtime in place of
// ThreadSanitizer.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

const (
	maxT    = 32
	maxTr   = 200000
	maxPlan = 64
	maxRace = 16
	maxSt   = 24
)

// same layout as ctl_t in vrt.c
type ctlT struct {
	magic                                                                           uint64
	active, spawn, fine, nthr, cur, ended, points, nplan, diverged, nrace, overflow uint32
	_                                                                               uint32
	progress, accesses, syncs, locs                                                 uint64
	blocks, expect, reset, gen                                                      uint32
	state                                                                           [maxT]uint32
	plan                                                                            [maxPlan]Dev
	race                                                                            [maxRace]raceT
	tr                                                                              [maxTr]Point
}

type raceT struct {
	addr      uint64
	tid, kind [2]uint32
	pc        [2]uint64
	nst       [2]uint32
	st        [2][maxSt]uint64
}

// Point is a recorded scheduling point.
type Point struct {
	Cur, Chosen, CurOn, Kind uint8
	Enabled                  uint32
}

// Dev is a deviation from the default schedule: at point Idx goroutine Tid goes on.
type Dev struct{ Idx, Tid uint32 }

const base = uintptr(0x5a0000000000)

var at = base

func ctl() *ctlT { return (*ctlT)(*(*unsafe.Pointer)(unsafe.Pointer(&at))) }

// Init checks that the exploration runtime is linked in.
func Init() error {
	runtime.GOMAXPROCS(24)
	debug.SetGCPercent(-1)
	if ctl().magic != 0x76727463 {
		return fmt.Errorf("the exploration runtime is not linked in")
	}
	return nil
}

const sEnded = 5

// Exec is the outcome of one execution.
type Exec struct {
	Points   []Point
	Races    []string
	Diverged bool
	Overflow bool
	Stuck    string
	Accesses uint64
	Syncs    uint64
	Writes   uint64 // to memory that existed before
	Blocks   int
	Threads  int
}

// Run executes the bodies under the plan.
func Run(bodies []func(), plan []Dev, fine bool) *Exec {
	c := ctl()
	n := uint32(len(bodies))
	c.spawn, c.nthr, c.ended, c.points, c.diverged, c.nrace, c.overflow = 0, 0, 0, 0, 0, 0, 0
	c.accesses, c.syncs, c.locs, c.blocks = 0, 0, 0, 0
	c.fine = 0
	if fine {
		c.fine = 1
	}
	c.nplan = uint32(len(plan))
	copy(c.plan[:], plan)
	for i := range c.state {
		c.state[i] = 0
	}
	c.expect = n
	atomic.StoreUint32(&c.cur, maxT)
	atomic.StoreUint32(&c.reset, 1)
	atomic.StoreUint32(&c.active, 1)
	d := make(chan bool)
	go func() { close(d) }()
	<-d
	atomic.StoreUint32(&c.spawn, 1)
	for _, b := range bodies {
		go b()
	}
	atomic.StoreUint32(&c.spawn, 0)
	e := &Exec{}
	last, since := uint64(0), time.Now()
	for spin := 0; ; spin++ {
		done := true
		for i := uint32(0); i < n; i++ {
			if atomic.LoadUint32(&c.state[i]) != sEnded {
				done = false
			}
		}
		p := atomic.LoadUint64(&c.progress)
		if p != last {
			last, since = p, time.Now()
		}
		idle := time.Since(since)
		if done && (atomic.LoadUint32(&c.ended) == atomic.LoadUint32(&c.nthr) || idle > 50*time.Millisecond) {
			break
		}
		if idle > 20*time.Second {
			var st []string
			for i := uint32(0); i < c.nthr && i < maxT; i++ {
				st = append(st, []string{"none", "starting", "ready", "running", "blocked", "ended"}[c.state[i]])
			}
			e.Stuck = "no progress for 20 s; goroutines are " + strings.Join(st, ", ")
			break
		}
		if spin > 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
	atomic.StoreUint32(&c.active, 0)
	atomic.StoreUint32(&c.cur, maxT+1)
	k := c.points
	if k > maxTr {
		k = maxTr
	}
	e.Points = append(e.Points, c.tr[:k]...)
	e.Diverged, e.Overflow = c.diverged > 0, c.overflow > 0
	e.Accesses, e.Syncs, e.Writes, e.Blocks, e.Threads = c.accesses, c.syncs, c.locs, int(c.blocks), int(c.nthr)
	for i := uint32(0); i < c.nrace; i++ {
		e.Races = append(e.Races, c.race[i].String())
	}
	return e
}

func (r *raceT) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "data race at %#x:", r.addr)
	for k := 0; k < 2; k++ {
		kind := []string{"read", "write", "atomic read", "atomic write"}[r.kind[k]&3]
		fmt.Fprintf(&b, "\n    %s by goroutine %d:", kind, r.tid[k])
		pcs := []uintptr{uintptr(r.pc[k])}
		for i := uint32(0); i < r.nst[k]; i++ {
			pcs = append(pcs, uintptr(r.st[k][i]))
		}
		n := 0
		for _, pc := range pcs {
			fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
			if fr.Function == "" || n >= 8 {
				continue
			}
			f := fr.File
			if i := strings.LastIndex(f, "/"); i >= 0 {
				f = f[i+1:]
			}
			fmt.Fprintf(&b, " %s (%s:%d)", fr.Function[strings.LastIndex(fr.Function, "/")+1:], f, fr.Line)
			if n == 0 || n == 1 {
				b.WriteString(" <-")
			}
			n++
		}
	}
	return b.String()
}

// Result of an exploration.
type Result struct {
	Execs, Points, MaxPoints   int
	Accesses, Syncs, MaxSyncs  uint64
	Writes                     uint64 // to memory that existed before the goroutines started, most in one execution
	Blocks, Diverged, Overflow int
	Retries                    int
	Fail                       string
	Plan                       []Dev
	Cut                        bool // stopped at the limit of executions
	Threads                    int
}

func (r *Result) String() string {
	return fmt.Sprintf("%d executions, %d points (max %d), %d accesses, %d syncs, %d blocks, %d diverged, %d overflow, cut %v, fail %q", r.Execs, r.Points, r.MaxPoints, r.Accesses, r.Syncs, r.Blocks, r.Diverged, r.Overflow, r.Cut, r.Fail)
}

// Explore runs every schedule with at most bound preemptions. mk builds fresh bodies and a function that judges the
// outcome ("" if it is right).
func Explore(mk func() ([]func(), func() string), bound int, fine bool, limit int, r *Result) {
	ExploreWith(func(plan []Dev) (*Exec, string) { return Once(mk, plan, fine) }, bound, limit, r)
}

// Once runs one schedule and judges it.
func Once(mk func() ([]func(), func() string), plan []Dev, fine bool) (*Exec, string) {
	bodies, judge := mk()
	e := Run(bodies, plan, fine)
	if e.Stuck != "" {
		return e, e.Stuck
	}
	if len(e.Races) > 0 {
		return e, e.Races[0]
	}
	return e, judge()
}

// ExploreWith is Explore over any way to execute a schedule.
func ExploreWith(once func(plan []Dev) (*Exec, string), bound, limit int, r *Result) {
	type item struct {
		plan []Dev
		from int // first point at which to branch
		used int
	}
	work := []item{{}}
	for len(work) > 0 {
		if r.Execs >= limit {
			r.Cut = true
			return
		}
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e, msg := once(it.plan)
		for try := 0; e.Diverged && try < 30 && msg == ""; try++ {
			r.Execs++
			r.Retries++
			e, msg = once(it.plan)
		}
		r.Execs++
		r.Points += len(e.Points)
		r.MaxPoints = max(r.MaxPoints, len(e.Points))
		r.Threads = max(r.Threads, e.Threads)
		r.Accesses += e.Accesses
		r.Syncs += e.Syncs
		r.MaxSyncs = max(r.MaxSyncs, e.Syncs)
		r.Writes = max(r.Writes, e.Writes)
		r.Blocks += e.Blocks
		if e.Diverged {
			r.Diverged++
		}
		if e.Overflow {
			r.Overflow++
		}
		if msg != "" {
			r.Fail, r.Plan = msg, it.plan
			return
		}
		if e.Diverged || len(it.plan) >= maxPlan-1 {
			continue
		}
		for i := len(e.Points) - 1; i >= it.from; i-- {
			p := e.Points[i]
			for t := uint32(0); t < maxT; t++ {
				if p.Enabled>>t&1 == 0 || t == uint32(p.Chosen) {
					continue
				}
				u := it.used
				if p.CurOn == 1 && t != uint32(p.Cur) {
					u++
				}
				if u > bound {
					continue
				}
				work = append(work, item{append(append([]Dev{}, it.plan...), Dev{uint32(i), t}), i + 1, u})
			}
		}
	}
}

// ResetHeap collects garbage between executions once the heap is large.
func ResetHeap() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 400<<20 {
		runtime.GC()
	}
}
