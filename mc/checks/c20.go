package checks

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifmc/eng"
	"verifmc/sched"
)

// C20: every case is a concurrent program over the library. A program is executed by c20run, a binary built with -race in
// which the exploration runtime (mc/sched) replaces ThreadSanitizer: it runs one goroutine at a time, enumerates the
// schedules up to a preemption bound, and reports conflicting accesses that are not ordered by happens-before.

type c20letter struct {
	name               string
	big, bp, rng, bare bool
	rev                bool // the operands of another letter in another order
	sync               bool // known to synchronise (formatting of errors, locked random source)
}

var c20roles = []string{"leaf", "param", "mid", "view", "uview", "spent", "used", "reset", "grad"}

func c20bin() string { return filepath.Join(os.Getenv("MC_BUILD"), "c20run") }

// c20exec runs c20run and keeps the watchdog quiet meanwhile.
func c20exec(c *eng.C, arg ...string) ([]byte, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c20bin(), arg...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	done := make(chan bool)
	defer close(done)
	if c != nil {
		c.Beat()
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		return out.Bytes(), "did not finish within 200 s"
	}
	if err != nil {
		m := strings.TrimSpace(errb.String())
		if len(m) > 1500 {
			m = m[:1500] + " .."
		}
		return out.Bytes(), fmt.Sprintf("%v: %s", err, m)
	}
	return out.Bytes(), ""
}

func c20letters() (r []c20letter, err error) {
	out, msg := c20exec(nil, "letters")
	if msg != "" {
		return nil, fmt.Errorf("%s", msg)
	}
	sc := bufio.NewScanner(bytes.NewReader(out))
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		t := func(i int) bool { return f[i] == "true" }
		l := c20letter{name: f[0], big: t(1), bp: t(2), rng: t(3), bare: t(4), rev: t(5)}
		switch l.name {
		case "errors", "metric", "NewFCdefault":
			l.sync = true
		}
		l.sync = l.sync || l.rng
		r = append(r, l)
	}
	return
}

// c20count adds what an exploration covered to the evidence.
func c20count(c *eng.C, role, spec string, r *sched.Result) {
	c.AddOps(r.Points)
	c.AddTraces(r.Execs)
	c.AddValues(int(r.Accesses))
	c.State(eng.NewHasher().S(role).S(spec).I(r.Execs).Sum())
	n := uint64(r.Threads)
	switch {
	case r.Syncs == 0 && r.Writes <= n:
		c.Outcome("no synchronisation, no write to shared memory")
	case r.Syncs == 0:
		c.Outcome("no synchronisation")
	default:
		c.Outcome("synchronises")
	}
	if r.Cut {
		c.Worker().Incomplete(fmt.Sprintf("%s %s: cut after %d executions", role, spec, r.Execs))
	}
	if r.Overflow > 0 || r.Diverged > 0 {
		c.Worker().Incomplete(fmt.Sprintf("%s %s: %d executions overflowed, %d diverged", role, spec, r.Overflow, r.Diverged))
	}
}

// c20run explores programs one after the other in one process.
func c20run(c *eng.C, role string, bound int, fine bool, limit int, specs ...string) {
	f := "0"
	if fine {
		f = "1"
	}
	out, msg := c20exec(c, append([]string{"run", role, fmt.Sprint(bound), f, fmt.Sprint(limit)}, specs...)...)
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(nil, 1<<24)
	i := 0
	for ; sc.Scan() && i < len(specs); i++ {
		var r sched.Result
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		c20count(c, role, specs[i], &r)
		if r.Fail != "" {
			c.Log("%s %s plan %v", role, specs[i], r.Plan)
			c.Fail("shared tensors in role %s, goroutines %s, schedule %v: %s", role, specs[i], r.Plan, r.Fail)
		}
	}
	if msg != "" {
		at := "?"
		if i < len(specs) {
			at = specs[i]
		}
		c.Fail("shared tensors in role %s, goroutines %s: the process failed: %s", role, at, msg)
	}
}

// c20fresh explores a program with a process of its own for every schedule, so that what the library sets up on first use
// is part of every execution.
func c20fresh(c *eng.C, role string, bound int, fine bool, limit int, spec string) {
	f := "0"
	if fine {
		f = "1"
	}
	var r sched.Result
	sched.ExploreWith(func(plan []sched.Dev) (*sched.Exec, string) {
		p := []byte("[]")
		if len(plan) > 0 {
			p, _ = json.Marshal(plan)
		}
		out, msg := c20exec(c, "once", role, f, string(p), spec)
		if msg != "" {
			return &sched.Exec{}, "the process failed: " + msg
		}
		var e struct {
			sched.Exec
			Fail string
		}
		if err := json.Unmarshal(out, &e); err != nil {
			panic(err)
		}
		return &e.Exec, e.Fail
	}, bound, limit, &r)
	c20count(c, role, spec, &r)
	if r.Fail != "" {
		c.Log("%s %s plan %v", role, spec, r.Plan)
		c.Fail("shared tensors in role %s, goroutines %s, schedule %v: %s", role, spec, r.Plan, r.Fail)
	}
}

func init() {
	register(&eng.Check{
		ID:       "C20",
		CPULimit: 300,
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "about 400 letters x 9 roles of the shared tensors; 2 goroutines: every pair of letters in every role, 30 rings of pairs of large-tensor letters, AB|BA for every pair, 2 preemptions at synchronisation points, 1 preemption at every shared access for the same letter and 3 rings of pairs; 3 goroutines: 30 rings; every binary operation against itself and the others with the operands exchanged, rings of three operands; a process per program for first use"
			}
			return "about 400 letters x 9 roles of the shared tensors; 2 goroutines: every letter against itself in every role, every pair of letters in 2 roles, AB|BA for every pair, 2 preemptions at synchronisation points, 1 preemption at every shared access for the same letter; 3 goroutines: 6 rings; every binary operation against itself and the others with the operands exchanged, rings of three operands; a process per schedule for first use"
		},
		Assumptions: []string{
			"a program whose execution shows no race and no synchronisation has one equivalence class of schedules; it is nevertheless run under every order of its goroutines",
			"programs that synchronise are explored up to 2 preemptions (1 if they format errors)",
			"accesses made by assembly routines and by the Go runtime itself are not observed",
		},
		Run: c20,
	})
}

func c20(w *eng.W) {
	ls, err := c20letters()
	if err != nil {
		panic(err)
	}
	var small, big, bare, rng, rev []c20letter
	rejected := []string{"errors"}
	for _, l := range ls {
		if strings.HasPrefix(l.name, "errors~") {
			rejected = append(rejected, l.name)
			continue
		}
		if l.rev {
			rev = append(rev, l)
			continue
		}
		if l.big {
			big = append(big, l)
		} else {
			small = append(small, l)
		}
		if l.bare {
			bare = append(bare, l)
		}
		if l.rng || l.name == "NewFCdefault" {
			rng = append(rng, l)
		}
	}
	// preemption bound: error formatting goes through pools and caches of fmt, with hundreds of points
	bound := func(l ...c20letter) int {
		n, errs := 0, false
		for _, x := range l {
			if x.sync {
				n++
			}
			errs = errs || x.name == "errors"
		}
		if errs && (n > 1 || !w.Thorough()) {
			return 1
		}
		return 2
	}
	key := func(f string, a ...any) func() string { return func() string { return fmt.Sprintf(f, a...) } }

	w.Section("self test of the exploration runtime")
	w.Case(key("programs with known races and known results"), func(c *eng.C) {
		if _, msg := c20exec(c, "self"); msg != "" {
			panic("the exploration runtime misjudges a program with a known verdict: " + msg)
		}
		c.Validated()
	})

	w.Section("one letter alone, every role")
	for _, role := range c20roles {
		for _, l := range ls {
			w.Case(key("%s %s", role, l.name), func(c *eng.C) { c20run(c, role, 0, false, 10, l.name) })
		}
	}
	for _, l := range bare {
		w.Case(key("none %s", l.name), func(c *eng.C) { c20run(c, "none", 0, false, 10, l.name) })
	}

	batch := func(role string, bd int, fine bool, limit int, name string, specs []string) {
		const n = 40
		for a := 0; a < len(specs); a += n {
			b := min(a+n, len(specs))
			part := specs[a:b]
			w.Case(key("%s %s %s..%s", role, name, part[0], part[len(part)-1]), func(c *eng.C) { c20run(c, role, bd, fine, limit, part...) })
		}
	}
	w.Section("rejected calls")
	for i, l := range rejected {
		w.Case(key("alone %s", l), func(c *eng.C) { c20run(c, "param", 0, false, 10, l) })
		for _, k := range rejected[i:] {
			w.Case(key("param %s|%s", l, k), func(c *eng.C) { c20run(c, "param", 1, false, 2000, l+"|"+k) })
		}
	}

	// operations that hold on to both operands in turn go wrong only if another goroutine takes them in the other order
	w.Section("operands in another order")
	orig := map[string]c20letter{}
	for _, l := range rev {
		orig[l.name[:strings.Index(l.name, "~")]] = l
	}
	for _, role := range []string{"param", "leaf"} {
		for i, l := range rev {
			var specs []string
			for _, k := range small {
				if _, ok := orig[k.name]; ok {
					specs = append(specs, k.name+"|"+l.name)
				}
			}
			for _, k := range rev[i:] {
				specs = append(specs, k.name+"|"+l.name)
			}
			batch(role, 2, false, 2000, "exchanged operands", specs)
		}
		for _, o := range []string{"Add", "Mul"} {
			batch(role, 2, false, 2000, "rings of operands", []string{o + "|" + o + "~bv|" + o + "-row~va", o + "~bv|" + o + "|" + o + "-row~va", o + "~ba|" + o + "-row|" + o + "~bv"})
			for _, k := range []string{"~ba"} {
				w.Case(key("%s fine %s|%s%s", role, o, o, k), func(c *eng.C) { c20run(c, role, 1, true, 20000, o+"|"+o+k) })
			}
		}
	}

	w.Section("two goroutines, the same letter, every role, a process per schedule")
	for _, role := range c20roles {
		for _, l := range small {
			if l.sync && role != "param" && role != "leaf" {
				continue // how they synchronise does not depend on the role
			}
			w.Case(key("%s %s|%s", role, l.name, l.name), func(c *eng.C) {
				c20fresh(c, role, bound(l, l), false, 2000, l.name+"|"+l.name)
			})
		}
	}

	w.Section("two goroutines, first use of the library, a process per schedule")
	for i, l := range bare {
		for _, k := range bare[i:] {
			w.Case(key("none %s|%s", l.name, k.name), func(c *eng.C) { c20fresh(c, "none", 2, false, 600, l.name+"|"+k.name) })
		}
	}

	w.Section("random constructors")
	for i, l := range rng {
		for j, k := range rng[i:] {
			w.Case(key("leaf %s|%s", l.name, k.name), func(c *eng.C) {
				c20run(c, "leaf", 2, false, 20000, l.name+"|"+k.name)
			})
			w.Case(key("leaf fine %s|%s", l.name, k.name), func(c *eng.C) { c20run(c, "leaf", 1, true, 20000, l.name+"|"+k.name) })
			m := rng[(i+j)%len(rng)]
			w.Case(key("leaf %s|%s|%s", l.name, k.name, m.name), func(c *eng.C) {
				c20run(c, "leaf", 1, false, 20000, l.name+"|"+k.name+"|"+m.name)
			})
		}
	}

	w.Section("two goroutines, large tensors")
	for i, l := range big {
		w.Case(key("param %s|%s", l.name, l.name), func(c *eng.C) { c20fresh(c, "param", 1, false, 400, l.name+"|"+l.name) })
		for j := i + 1; j < len(big); j++ {
			if j-i > w.Pick(2, 30) {
				break
			}
			k := big[j]
			w.Case(key("param %s|%s", l.name, k.name), func(c *eng.C) { c20run(c, "param", 1, false, 400, l.name+"|"+k.name) })
		}
	}

	w.Section("two goroutines, scheduling points at every shared access, the same letter")
	for _, role := range []string{"param", "leaf"} {
		for _, l := range small {
			if l.name == "errors" || (role == "leaf" && !w.Thorough()) {
				continue
			}
			w.Case(key("%s fine %s|%s", role, l.name, l.name), func(c *eng.C) { c20run(c, role, 1, true, 20000, l.name+"|"+l.name) })
		}
	}

	w.Section("two goroutines, every pair of letters")
	for n, role := range []string{"param", "grad", "leaf", "spent", "uview", "mid", "view", "used", "reset"} {
		if n > 1 && !w.Thorough() {
			break
		}
		for i, l := range small {
			by := map[int][]string{}
			for _, k := range small[i:] {
				if (l.sync || k.sync) && n > 0 {
					continue // how they synchronise does not depend on the role
				}
				b := bound(l, k)
				by[b] = append(by[b], l.name+"|"+k.name)
			}
			for b := 1; b <= 2; b++ {
				batch(role, b, false, 2000, "pairs", by[b])
			}
		}
	}

	w.Section("two goroutines, two letters each")
	quiet := func(l c20letter) bool { return !l.sync }
	for _, role := range []string{"param", "leaf"} {
		if role != "param" && !w.Thorough() {
			continue
		}
		for i, l := range small {
			var specs []string
			for _, k := range small[i+1:] {
				if quiet(l) && quiet(k) {
					specs = append(specs, l.name+","+k.name+"|"+k.name+","+l.name)
				}
			}
			batch(role, 2, false, 2000, "pairs of pairs", specs)
		}
	}

	w.Section("three goroutines")
	for _, role := range []string{"param", "leaf"} {
		for i, l := range small {
			var specs []string
			for d := 1; d <= w.Pick(6, 30); d++ {
				k, m := small[(i+d)%len(small)], small[(i+3*d+1)%len(small)]
				if quiet(l) && quiet(k) && quiet(m) {
					specs = append(specs, l.name+"|"+k.name+"|"+m.name)
				}
			}
			batch(role, 1, false, 2000, "triples", specs)
		}
	}

	w.Section("two goroutines, every pair of letters, untracked leaves, a process per program")
	for i, l := range small {
		if !w.Thorough() {
			break // the next section runs them with several programs in a process
		}
		for _, k := range small[i+1:] {
			w.Case(key("leaf %s|%s", l.name, k.name), func(c *eng.C) { c20run(c, "leaf", bound(l, k), false, 2000, l.name+"|"+k.name) })
		}
	}

	w.Section("two goroutines, scheduling points at every shared access, pairs of letters")
	for i, l := range small {
		for d := 1; d <= w.Pick(1, 3); d++ {
			k := small[(i+d*7)%len(small)]
			if quiet(l) && quiet(k) {
				w.Case(key("param fine %s|%s", l.name, k.name), func(c *eng.C) { c20run(c, "param", 1, true, 20000, l.name+"|"+k.name) })
			}
		}
	}
}
