// Package eng runs bounded-exhaustive explorations: a parent process shards the case enumeration of a check over
// worker processes, watches them (crashes, CPU-time hangs), re-runs violations, and writes the evidence file.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Check is one property's exploration.
type Check struct {
	ID          string
	Run         func(w *W)
	Bounds      func(tier string) string
	Assumptions []string
	MaxShards   int // 0: all cores
	// CPULimit is the CPU time (seconds) one beat may consume before it counts as not terminating.
	CPULimit float64
}

// Result is what one worker reports.
type Result struct {
	Cases       int            `json:"cases"`
	Transitions int64          `json:"transitions"`
	Traces      int64          `json:"traces"`
	Values      int64          `json:"values"`
	Outcomes    map[string]int `json:"outcomes"`
	Sections    map[string]int `json:"sections"`
	Known       map[string]int `json:"known"`
	Samples     []string       `json:"samples"`
	Notes       []string       `json:"notes"`
	Exhausted   bool           `json:"exhausted"`
	StatesFile  string         `json:"states_file"`
	Violations  []Violation    `json:"violations"`
}

type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	Index    uint64   `json:"index"`
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Repro    string   `json:"reproduction"`
	HowTo    string   `json:"how_to_replay"`
}

// W is a worker.
type W struct {
	Tier      string
	ID        string
	shard, n  int
	idx       uint64
	only      int64 // run only this case index; -1: all
	section   string
	hb        []byte
	beats     uint64
	deadline  time.Time
	res       Result
	states    map[uint64]struct{}
	known     map[string]bool
	stopped   bool
	maxViol   int
	sampleCap map[string]int
	Verbose   bool
}

// Thorough tells whether the deep tier runs.
func (w *W) Thorough() bool { return w.Tier == "thorough" }

// Pick returns the quick or the thorough bound.
func (w *W) Pick(quick, thorough int) int {
	if w.Thorough() {
		return thorough
	}
	return quick
}

// Section names the part of the space being enumerated (for the evidence file).
func (w *W) Section(name string) {
	if os.Getenv("MC_TIMES") != "" && w.shard == 0 {
		w.Note("%8.1f s left: section %s", time.Until(w.deadline).Seconds(), name)
	}
	w.section = name
}

// Note adds a free-text remark to the evidence.
func (w *W) Note(format string, a ...any) {
	w.res.Notes = append(w.res.Notes, fmt.Sprintf(format, a...))
}

// Stopped tells enumerators to give up (deadline or violation limit).
func (w *W) Stopped() bool { return w.stopped }

// Incomplete records that something in the stated bound was not enumerated.
func (w *W) Incomplete(why string) {
	w.res.Exhausted = false
	w.Note("%s", why)
}

type failure struct{ msg string }

// C is the context of one case execution.
type C struct {
	w       *W
	tracing bool
	Trace   []string
}

// Fail ends the case with a violation.
func (c *C) Fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Failf is Fail unless ok.
func (c *C) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

// Known reports a failure that is listed in the known-findings file; unlisted it is a violation.
func (c *C) Known(finding, format string, a ...any) {
	if c.w.known[finding] {
		c.w.res.Known[finding]++
		return
	}
	c.Fail(format, a...)
}

// Op counts one call into the implementation and, when tracing, logs it.
func (c *C) Op(format string, a ...any) {
	c.w.res.Transitions++
	if c.tracing {
		c.Trace = append(c.Trace, fmt.Sprintf(format, a...))
	}
}

func (c *C) Log(format string, a ...any) {
	if c.tracing {
		c.Trace = append(c.Trace, fmt.Sprintf(format, a...))
	}
}

// Validated counts one complete run of the reference model compared with the implementation.
func (c *C) Validated() { c.w.res.Traces++ }

// Outcome counts distinct kinds of observed outcomes (vacuity check).
func (c *C) Outcome(s string) { c.w.res.Outcomes[s]++ }

// State records a visited state by hash.
func (c *C) State(h uint64) {
	if len(c.w.states) < 20_000_000 {
		c.w.states[h] = struct{}{}
	}
}

// StateS records a visited state by its canonical text.
func (c *C) StateS(s string) { c.State(HashS(s)) }

// Beat tells the hang watchdog that the case made progress.
func (c *C) Beat() { c.w.beat() }

func (c *C) Worker() *W { return c.w }

func HashS(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Hasher accumulates a canonical state.
type Hasher struct{ h uint64 }

func NewHasher() *Hasher { return &Hasher{14695981039346656037} }
func (h *Hasher) U(x uint64) *Hasher {
	for i := 0; i < 8; i++ {
		h.h ^= x & 255
		h.h *= 1099511628211
		x >>= 8
	}
	return h
}
func (h *Hasher) I(x int) *Hasher     { return h.U(uint64(x)) }
func (h *Hasher) F(x float64) *Hasher { return h.U(math.Float64bits(x)) }
func (h *Hasher) S(s string) *Hasher  { return h.U(HashS(s)) }
func (h *Hasher) Ints(xs []int) *Hasher {
	h.I(len(xs))
	for _, x := range xs {
		h.I(x)
	}
	return h
}
func (h *Hasher) Floats(xs []float64) *Hasher {
	h.I(len(xs))
	for _, x := range xs {
		h.F(x)
	}
	return h
}
func (h *Hasher) Sum() uint64 { return h.h }

func (w *W) beat() {
	w.beats++
	if w.hb != nil {
		binary.LittleEndian.PutUint64(w.hb[0:], w.idx)
		binary.LittleEndian.PutUint64(w.hb[8:], w.beats)
	}
}

// Case enumerates one case. f runs only on the shard that owns the case. key describes the case.
func (w *W) Case(key func() string, f func(c *C)) {
	if w.stopped {
		return
	}
	idx := w.idx
	w.idx++
	if w.only >= 0 {
		if idx != uint64(w.only) {
			return
		}
	} else if int(idx%uint64(w.n)) != w.shard {
		return
	}
	w.idx = idx
	w.beat()
	w.idx = idx + 1
	if w.res.Cases&15 == 0 && time.Now().After(w.deadline) {
		w.stopped = true
		w.res.Exhausted = false
		w.Note("time budget reached in section %q at case %d; everything enumerated before it was fully covered", w.section, idx)
		return
	}
	w.res.Cases++
	w.res.Sections[w.section]++
	c := &C{w: w, tracing: w.Verbose}
	c.StateS(key())
	if w.sampleCap[w.section] < 1 {
		w.sampleCap[w.section]++
		w.res.Samples = append(w.res.Samples, w.section+": "+key())
	}
	msg := w.exec(c, f)
	if msg == "" {
		return
	}
	// re-run the case with tracing to see whether it fails in isolation
	same := 0
	var tr []string
	for i := 0; i < 5; i++ {
		w.beat()
		c2 := &C{w: w, tracing: true}
		if m := w.exec(c2, f); m != "" {
			same++
			tr = c2.Trace
		}
	}
	if len(tr) > 400 {
		tr = append(tr[:200:200], append([]string{"..."}, tr[len(tr)-200:]...)...)
	}
	w.res.Violations = append(w.res.Violations, Violation{
		Property: w.ID, Key: w.section + ": " + key(), Index: idx, Shard: w.shard, Shards: w.n, Tier: w.Tier, Message: msg, Trace: tr,
		Repro: fmt.Sprintf("failed again in %d of 5 immediate re-runs of the same case", same),
		HowTo: fmt.Sprintf("/verif/check.sh %s replay <this file>", w.ID),
	})
	if len(w.res.Violations) >= w.maxViol {
		w.stopped = true
		w.res.Exhausted = false
	}
}

func (w *W) exec(c *C, f func(c *C)) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				msg = fl.msg
			} else {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				lines := strings.Split(st, "\n")
				if len(lines) > 16 {
					lines = lines[:16]
				}
				msg = fmt.Sprintf("panic: %v\n%s", r, strings.Join(lines, "\n"))
			}
		}
	}()
	f(c)
	return ""
}

const memoryLimit = 4 << 30

// RunWorker runs one shard and prints the result as JSON on stdout.
func RunWorker(ch *Check, tier string, shard, n int, only int64, hbPath, statesPath string, budget time.Duration, known []string, verbose bool) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	// a call that allocates without end has to end this process, not the sandbox
	syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: memoryLimit, Max: memoryLimit})
	w := &W{Tier: tier, ID: ch.ID, shard: shard, n: n, only: only, deadline: time.Now().Add(budget), states: map[uint64]struct{}{},
		known: map[string]bool{}, maxViol: 2, sampleCap: map[string]int{}, Verbose: verbose}
	w.res.Exhausted = true
	w.res.Outcomes = map[string]int{}
	w.res.Sections = map[string]int{}
	w.res.Known = map[string]int{}
	for _, k := range known {
		w.known[k] = true
	}
	if hbPath != "" {
		f, err := os.OpenFile(hbPath, os.O_RDWR, 0o644)
		if err == nil {
			w.hb, _ = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
	}
	ch.Run(w)
	if statesPath != "" {
		buf := make([]byte, 0, 8*len(w.states))
		for h := range w.states {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		if os.WriteFile(statesPath, buf, 0o644) == nil {
			w.res.StatesFile = statesPath
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.Encode(w.res)
}

func mergeStates(files []string) (n int) {
	var all []uint64
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			all = append(all, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			n++
		}
	}
	return n
}

// AddValues counts compared elements.
func (c *C) AddValues(n int) { c.w.res.Values += int64(n) }

// AddOps counts n steps of an execution explored in another process; AddTraces n executions compared with the model.
func (c *C) AddOps(n int)    { c.w.res.Transitions += int64(n) }
func (c *C) AddTraces(n int) { c.w.res.Traces += int64(n) }
