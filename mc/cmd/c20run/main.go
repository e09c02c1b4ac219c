// c20run explores the interleavings of one concurrent program over the library. It is built with -race and with the
// exploration runtime (mc/sched/rt) in place of ThreadSanitizer.
//
//	c20run self                                 self test of the runtime
//	c20run letters                              names, with flags
//	c20run run ROLE BOUND FINE LIMIT A|B[|C]..  programs one after the other; a goroutine is a list of letters A,B,..
//	c20run once ROLE FINE PLAN A|B[|C]          one schedule of one program
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/sahandsafizadeh/qeep/tensor"
	xrand "golang.org/x/exp/rand"

	"verifmc/sched"
)

var verbose = os.Getenv("C20_VERBOSE") != ""

func die(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}

func main() {
	if err := sched.Init(); err != nil {
		die(err)
	}
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "self":
		if err := selfTest(); err != nil {
			die(err)
		}
	case "letters":
		ls := letters()
		for _, n := range letterNames(ls) {
			l := ls[n]
			fmt.Println(n, l.big, l.bp, l.rng, l.bare, l.rev)
		}
	case "run":
		enc := json.NewEncoder(os.Stdout)
		for _, spec := range os.Args[6:] {
			r := &sched.Result{}
			sched.Explore(program(os.Args[2], spec), atoi(os.Args[3]), os.Args[4] == "1", atoi(os.Args[5]), r)
			enc.Encode(r)
		}
	case "once":
		var plan []sched.Dev
		if err := json.Unmarshal([]byte(os.Args[4]), &plan); err != nil {
			die(err)
		}
		e, msg := sched.Once(program(os.Args[2], os.Args[5]), plan, os.Args[3] == "1")
		json.NewEncoder(os.Stdout).Encode(struct {
			*sched.Exec
			Fail string
		}{e, msg})
	default:
		os.Exit(2)
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die(err)
	}
	return n
}

// thread is the program of one goroutine.
type thread []*letter

// outcome of the goroutines: what each observed, what back-propagating their results yields, the random draws.
type outcome struct {
	obs   []string
	post  []string
	draws [][]float64
}

func (t thread) body(e *env, out **obs) func() {
	return func() {
		o := &obs{} // what the goroutine writes is its own until it hands it over
		defer func() {
			if p := recover(); p != nil {
				o.panicked = p
			}
			*out = o
		}()
		for _, l := range t {
			if l.rng {
				l.vals(e, &o.draws)
				continue
			}
			l.run(e, o)
		}
	}
}

func (o *obs) text() string {
	if o == nil {
		return "never finished"
	}
	if o.panicked != nil {
		return o.b.String() + fmt.Sprint("panic: ", o.panicked)
	}
	return o.b.String()
}

// post back-propagates the results and reads the gradients of the shared leaves, one after the other.
func post(e *env, os []*obs) (r []string) {
	guard := func(f func(q *obs)) {
		q := &obs{}
		func() {
			defer func() { q.panicked = recover() }()
			f(q)
		}()
		r = append(r, q.text())
	}
	for _, o := range os {
		guard(func(q *obs) {
			for _, y := range o.res {
				err := tensor.BackPropagate(y)
				q.f("", err)
			}
			for _, l := range e.leafs {
				q.tensor(l.Gradient())
			}
		})
	}
	// the shared tensors themselves
	guard(func(q *obs) {
		for _, n := range names {
			if e.sh[n] != nil {
				q.tensor(e.sh[n])
				q.tensor(e.un[n])
			}
		}
		q.f("", e.idx, e.idx1, e.shape6, e.shapeBr, e.at, e.data1, e.data2, len(e.list))
	})
	return
}

// program returns what builds the goroutines of a program and judges an execution of them.
func program(role, spec string) func() ([]func(), func() string) {
	ls := letters()
	var ths []thread
	big, rng := false, false
	for _, s := range strings.Split(spec, "|") {
		var t thread
		for _, n := range strings.Split(s, ",") {
			l := ls[n]
			if l == nil {
				die(fmt.Errorf("no letter %q", n))
			}
			t = append(t, l)
			big = big || l.big
			rng = rng || l.rng
		}
		ths = append(ths, t)
	}
	var want *outcome
	// the sequential result: every goroutine's program in turn, on an environment of its own
	sequential := func() *outcome {
		xrand.Seed(1)
		e := newEnv(role, big)
		w := &outcome{draws: make([][]float64, len(ths))}
		var os []*obs
		for i, t := range ths {
			var o *obs
			t.body(e, &o)()
			w.obs = append(w.obs, o.text())
			w.draws[i] = o.draws
			os = append(os, o)
		}
		w.post = post(e, os)
		return w
	}
	var all [][]float64 // draws per sampler, of the sequential run
	return func() ([]func(), func() string) {
		sched.ResetHeap()
		e := newEnv(role, big)
		if rng {
			xrand.Seed(1)
		}
		n := len(ths)
		os := make([]*obs, n)
		bodies := make([]func(), n)
		for i := range ths {
			bodies[i] = ths[i].body(e, &os[i])
		}
		return bodies, func() string {
			if want == nil {
				want = sequential()
				all = want.draws
			}
			for i := range ths {
				if g := os[i].text(); g != want.obs[i] {
					return fmt.Sprintf("goroutine %d observed %s, sequentially %s", i, show(g), show(want.obs[i]))
				}
			}
			draws := make([][]float64, n)
			for i := range os {
				draws[i] = os[i].draws
			}
			ps := post(e, os)
			for i := range ps {
				if ps[i] != want.post[i] {
					what := "shared state afterwards"
					if i < n {
						what = fmt.Sprintf("gradients after back-propagating the results of goroutine %d", i)
					}
					return fmt.Sprintf("%s: %s, sequentially %s", what, show(ps[i]), show(want.post[i]))
				}
			}
			if rng {
				return judgeDraws(draws, all)
			}
			return ""
		}
	}
}

// judgeDraws: as many finite draws as sequentially, and no value drawn twice.
func judgeDraws(got, want [][]float64) string {
	seen := map[float64]string{}
	for i := range got {
		if len(got[i]) != len(want[i]) {
			return fmt.Sprintf("goroutine %d drew %d numbers, sequentially %d", i, len(got[i]), len(want[i]))
		}
		for k, v := range got[i] {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Sprintf("goroutine %d drew %v", i, v)
			}
			me := fmt.Sprintf("draw %d of goroutine %d", k, i)
			if o := seen[v]; o != "" {
				return fmt.Sprintf("%s and %s are the same number %v", o, me, v)
			}
			seen[v] = me
		}
	}
	return ""
}

func show(s string) string {
	if len(s) > 400 {
		s = s[:400] + ".."
	}
	return s
}
