package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"verifmc/sched"
)

// selfTest validates the exploration runtime on small programs whose verdict is known.
func selfTest() error {
	type prog struct {
		name  string
		bad   bool
		fine  bool
		bound int
		mk    func() ([]func(), func() string)
	}
	ok := func() string { return "" }
	ps := []prog{
		{"plain write/write", true, false, 0, func() ([]func(), func() string) {
			x := new(int)
			return []func(){func() { *x = 1 }, func() { *x = 2 }}, ok
		}},
		{"plain read/write", true, false, 0, func() ([]func(), func() string) {
			x := new(int)
			var s [2]int
			return []func(){func() { s[0] = *x }, func() { *x = 2 }}, ok
		}},
		{"read/read", false, true, 2, func() ([]func(), func() string) {
			x := new(int)
			var s [2]int
			return []func(){func() { s[0] = *x }, func() { s[1] = *x }}, ok
		}},
		{"disjoint slice elements", false, false, 2, func() ([]func(), func() string) {
			s := make([]byte, 8)
			return []func(){func() { s[0] = 1; s[2] = 1 }, func() { s[1] = 2; s[3] = 2 }}, ok
		}},
		{"mutex", false, false, 2, func() ([]func(), func() string) {
			x, mu := new(int), new(sync.Mutex)
			f := func() { mu.Lock(); *x++; mu.Unlock() }
			return []func(){f, f}, func() string {
				if *x != 2 {
					return "lost update"
				}
				return ""
			}
		}},
		{"two mutexes", true, false, 0, func() ([]func(), func() string) {
			x, a, b := new(int), new(sync.Mutex), new(sync.Mutex)
			return []func(){func() { a.Lock(); *x++; a.Unlock() }, func() { b.Lock(); *x++; b.Unlock() }}, ok
		}},
		{"atomic check-then-act", true, false, 1, func() ([]func(), func() string) {
			var x atomic.Int64
			f := func() { v := x.Load(); x.Store(v + 1) }
			return []func(){f, f}, func() string {
				if x.Load() != 2 {
					return "lost update"
				}
				return ""
			}
		}},
		{"atomic check-then-act without preemption", false, false, 0, func() ([]func(), func() string) {
			var x atomic.Int64
			f := func() { v := x.Load(); x.Store(v + 1) }
			return []func(){f, f}, func() string {
				if x.Load() != 2 {
					return "lost update"
				}
				return ""
			}
		}},
		{"atomic add, publish by flag", false, false, 2, func() ([]func(), func() string) {
			var fl atomic.Bool
			x, y := new(int), new(int)
			return []func(){func() { *x = 7; fl.Store(true) }, func() {
				if fl.Load() {
					*y = *x
				}
			}}, func() string {
				if *y != 0 && *y != 7 {
					return "bad"
				}
				return ""
			}
		}},
		{"atomic and plain", true, false, 0, func() ([]func(), func() string) {
			x := new(int64)
			return []func(){func() { atomic.AddInt64(x, 1) }, func() { *x = 4 }}, ok
		}},
		{"once", false, false, 2, func() ([]func(), func() string) {
			var o sync.Once
			x := new(int)
			var s [2]int
			f := func(i int) func() { return func() { o.Do(func() { *x = 5 }); s[i] = *x } }
			return []func(){f(0), f(1)}, func() string {
				if s != [2]int{5, 5} {
					return "bad"
				}
				return ""
			}
		}},
		{"map", true, false, 0, func() ([]func(), func() string) {
			m := map[int]int{}
			return []func(){func() { m[1] = 1 }, func() { _ = m[2] }}, ok
		}},
		{"sync.Map", false, false, 1, func() ([]func(), func() string) {
			var m sync.Map
			return []func(){func() { m.Store(1, 1) }, func() { m.Load(1) }}, ok
		}},
		{"pool", false, false, 2, func() ([]func(), func() string) {
			p := &sync.Pool{New: func() any { return new([4]int) }}
			var r [2]int
			f := func(i int) func() {
				return func() { b := p.Get().(*[4]int); b[0] = i; r[i] = b[0]; p.Put(b) }
			}
			return []func(){f(0), f(1)}, func() string {
				if r != [2]int{0, 1} {
					return "bad"
				}
				return ""
			}
		}},
		{"pool, returned too early", true, false, 2, func() ([]func(), func() string) {
			p := &sync.Pool{New: func() any { return new([4]int) }}
			var r [2]int
			f := func(i int) func() {
				return func() { b := p.Get().(*[4]int); b[0] = i; p.Put(b); r[i] = b[0] }
			}
			return []func(){f(0), f(1)}, ok
		}},
		{"inner goroutines joined", false, false, 0, func() ([]func(), func() string) {
			var s [2]int
			f := func(i int) func() {
				return func() {
					var wg sync.WaitGroup
					var q [2]int
					for k := range q {
						wg.Add(1)
						go func() { q[k] = k + i; wg.Done() }()
					}
					wg.Wait()
					s[i] = q[0] + q[1]
				}
			}
			return []func(){f(0), f(1)}, func() string {
				if s != [2]int{1, 3} {
					return "bad"
				}
				return ""
			}
		}},
		{"inner goroutine not joined", true, false, 1, func() ([]func(), func() string) {
			x := new(int)
			return []func(){func() { go func() { *x = 1 }(); *x = 2 }}, ok
		}},
		{"channel", false, false, 1, func() ([]func(), func() string) {
			x, y := new(int), new(int)
			ch := make(chan bool, 1)
			return []func(){func() { *x = 3; ch <- true }, func() { <-ch; *y = *x }}, func() string {
				if *y != 3 {
					return "bad"
				}
				return ""
			}
		}},
		{"unbuffered channel and close", false, false, 1, func() ([]func(), func() string) {
			x, y := new(int), new(int)
			ch := make(chan bool)
			return []func(){func() { *x = 3; ch <- true; close(ch) }, func() { <-ch; <-ch; *y = *x }}, ok
		}},
		{"rwmutex", false, false, 1, func() ([]func(), func() string) {
			x, mu := new(int), new(sync.RWMutex)
			var s [2]int
			f := func(i int) func() {
				return func() {
					mu.RLock()
					v := *x
					mu.RUnlock()
					if v == 0 {
						mu.Lock()
						*x = 9
						mu.Unlock()
					}
					mu.RLock()
					s[i] = *x
					mu.RUnlock()
				}
			}
			return []func(){f(0), f(1)}, func() string {
				if s != [2]int{9, 9} {
					return "bad"
				}
				return ""
			}
		}},
		{"rwmutex, write under read lock", true, false, 1, func() ([]func(), func() string) {
			x, mu := new(int), new(sync.RWMutex)
			f := func() { mu.RLock(); *x++; mu.RUnlock() }
			return []func(){f, f}, ok
		}},
		{"fmt", false, false, 1, func() ([]func(), func() string) {
			var r [2]string
			f := func(i int) func() { return func() { r[i] = fmt.Sprintf("%v %d", fmt.Errorf("x%d", i), i) } }
			return []func(){f(0), f(1)}, func() string {
				if r != [2]string{"x0 0", "x1 1"} {
					return "bad " + fmt.Sprint(r)
				}
				return ""
			}
		}},
		{"three goroutines, order", true, false, 0, func() ([]func(), func() string) {
			var x atomic.Int64
			f := func(i int64) func() { return func() { x.Store(x.Load()*10 + i) } }
			return []func(){f(1), f(2), f(3)}, func() string {
				if x.Load() == 312 {
					return "312"
				}
				return ""
			}
		}},
		{"plain, order seen by fine points", true, true, 1, func() ([]func(), func() string) {
			var m sync.Mutex
			x := new(int)
			f := func() {
				m.Lock()
				v := *x
				m.Unlock()
				m.Lock()
				*x = v + 1
				m.Unlock()
			}
			return []func(){f, f}, func() string {
				if *x != 2 {
					return "lost update"
				}
				return ""
			}
		}},
	}
	for _, p := range ps {
		var r sched.Result
		sched.Explore(p.mk, p.bound, p.fine, 100000, &r)
		if verbose {
			fmt.Println(p.name, "->", r.String())
		}
		if (r.Fail != "") != p.bad {
			return fmt.Errorf("self test %q: expected bad=%v, got %q", p.name, p.bad, r.Fail)
		}
		if r.Overflow > 0 || r.Cut {
			return fmt.Errorf("self test %q: overflow", p.name)
		}
	}
	return nil
}
