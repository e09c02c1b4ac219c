package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Options of a check run.
type Options struct {
	Tier     string
	Seed     int
	VerifDir string // evidence and replays are written below it
	Home     string // where known_findings.jsonl lives
	Budget   time.Duration
}

// KnownFinding is one line of known_findings.jsonl.
type KnownFinding struct {
	Status   string `json:"status"` // "open" or "fixed"
	Property string `json:"property"`
	ID       string `json:"id"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func LoadKnown(dir, property string) (open []KnownFinding) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == property && k.Status == "open" {
			open = append(open, k)
		}
	}
	return open
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

type shardEnd struct {
	shard   int
	res     *Result
	crashed bool
	hang    bool
	killed  bool // by SIGKILL from outside: not evidence of anything
	idx     uint64
	stderr  string
}

// runShard starts one worker and waits for it, watching CPU time per beat.
func runShard(ch *Check, o Options, tmp string, shard, n int, only int64, known []string, stop <-chan struct{}) shardEnd {
	hb := filepath.Join(tmp, fmt.Sprintf("hb.%d.%d", shard, only))
	os.WriteFile(hb, make([]byte, 4096), 0o644)
	states := filepath.Join(tmp, fmt.Sprintf("states.%d", shard))
	if only >= 0 {
		states = ""
	}
	args := []string{"worker", ch.ID, "-tier", o.Tier, "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(n), "-only", fmt.Sprint(only),
		"-hb", hb, "-states", states, "-budget", o.Budget.String(), "-known", strings.Join(known, ",")}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Dir = o.VerifDir
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &tail{b: &errb, max: 20000}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	end := shardEnd{shard: shard}
	if err := cmd.Start(); err != nil {
		end.killed = true
		end.stderr = err.Error()
		return end
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := ch.CPULimit
	if limit == 0 {
		limit = 40
	}
	readHB := func() (idx, beats uint64) {
		b, err := os.ReadFile(hb)
		if err != nil || len(b) < 16 {
			return
		}
		return binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
	}
	var lastBeat uint64
	lastCPU := 0.0
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			end.idx, _ = readHB()
			end.stderr = errb.String()
			var r Result
			if err == nil && json.Unmarshal(out.Bytes(), &r) == nil {
				end.res = &r
				return end
			}
			if ee, ok := err.(*exec.ExitError); ok {
				ws := ee.Sys().(syscall.WaitStatus)
				if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					end.killed = true
					return end
				}
			}
			end.crashed = true
			return end
		case <-tick.C:
			_, beat := readHB()
			cpu := cpuSeconds(cmd.Process.Pid)
			if beat != lastBeat {
				lastBeat, lastCPU = beat, cpu
			} else if beat > 0 && cpu-lastCPU > limit {
				end.hang = true
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					<-done
				}
				end.idx, _ = readHB()
				end.stderr = errb.String()
				return end
			}
		case <-stop:
			cmd.Process.Kill()
			<-done
			end.killed = true
			return end
		}
	}
}

// tail keeps the first max bytes (a Go crash prints the reason first).
type tail struct {
	b   *bytes.Buffer
	max int
}

func (t *tail) Write(p []byte) (int, error) {
	if room := t.max - t.b.Len(); room > 0 {
		if len(p) > room {
			t.b.Write(p[:room])
		} else {
			t.b.Write(p)
		}
	}
	return len(p), nil
}

// RunCheck runs the whole check and returns the process exit code.
func RunCheck(ch *Check, o Options) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "mc-"+ch.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := runtime.NumCPU()
	if ch.MaxShards > 0 && n > ch.MaxShards {
		n = ch.MaxShards
	}
	open := LoadKnown(o.Home, ch.ID)
	var knownIDs []string
	for _, k := range open {
		knownIDs = append(knownIDs, k.ID)
	}

	ends := make([]shardEnd, n)
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ends[i] = runShard(ch, o, tmp, i, n, -1, knownIDs, stop)
			if e := ends[i]; e.res != nil && len(e.res.Violations) > 0 || e.crashed || e.hang {
				// give the others a moment to find a simpler counterexample, then stop them
				time.AfterFunc(3*time.Second, func() { once.Do(func() { close(stop) }) })
			}
		}(i)
	}
	wg.Wait()

	total := Result{Outcomes: map[string]int{}, Sections: map[string]int{}, Known: map[string]int{}, Exhausted: true}
	var viol []Violation
	var files []string
	anyResult, confirmed := false, false
	for _, e := range ends {
		switch {
		case e.res != nil:
			anyResult = true
			r := e.res
			total.Cases += r.Cases
			total.Transitions += r.Transitions
			total.Traces += r.Traces
			total.Values += r.Values
			for k, v := range r.Outcomes {
				total.Outcomes[k] += v
			}
			for k, v := range r.Sections {
				total.Sections[k] += v
			}
			for k, v := range r.Known {
				total.Known[k] += v
			}
			if e.shard == 0 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			for _, nt := range r.Notes {
				dup := false
				for _, x := range total.Notes {
					dup = dup || x == nt
				}
				if !dup {
					total.Notes = append(total.Notes, nt)
				}
			}
			total.Exhausted = total.Exhausted && r.Exhausted
			files = append(files, r.StatesFile)
			viol = append(viol, r.Violations...)
		case e.crashed || e.hang:
			what := "the process crashed (not recoverable by the harness)"
			if e.hang {
				what = "no progress: a single call consumed more CPU time than the limit"
			}
			if confirmed {
				total.Exhausted = false
				total.Notes = append(total.Notes, fmt.Sprintf("worker %d also ended abnormally at case %d", e.shard, e.idx))
				continue
			}
			// confirm: the case alone, else the same shard from its start
			var re [2]shardEnd
			var wg sync.WaitGroup
			for k := range re {
				wg.Add(1)
				go func() {
					defer wg.Done()
					dir := filepath.Join(tmp, fmt.Sprintf("again%d", k))
					os.MkdirAll(dir, 0o755)
					re[k] = runShard(ch, o, dir, e.shard, n, int64(e.idx), knownIDs, nil)
				}()
			}
			wg.Wait()
			again := 0
			for _, e2 := range re {
				if e2.crashed || e2.hang {
					again++
				}
			}
			repro := fmt.Sprintf("case alone: %d of 2 re-runs failed the same way", again)
			if again == 0 {
				e2 := runShard(ch, o, tmp, e.shard, n, -1, knownIDs, nil)
				if e2.crashed || e2.hang || e2.res != nil && len(e2.res.Violations) > 0 {
					again++
				}
				repro += fmt.Sprintf("; whole shard again: failed=%v", again > 0)
			}
			confirmed = again > 0
			if again == 0 {
				total.Exhausted = false
				total.Notes = append(total.Notes, fmt.Sprintf("worker %d ended abnormally once at case %d, not reproducible: %s", e.shard, e.idx, firstLines(e.stderr, 3)))
				continue
			}
			viol = append(viol, Violation{Property: ch.ID, Key: fmt.Sprintf("case #%d", e.idx), Index: e.idx, Shard: e.shard, Shards: n, Tier: o.Tier,
				Message: what + ": " + firstLines(e.stderr, 40), Repro: repro, HowTo: fmt.Sprintf("/verif/check.sh %s replay <this file>", ch.ID)})
		default:
			total.Exhausted = false
			total.Notes = append(total.Notes, fmt.Sprintf("worker %d was stopped from outside", e.shard))
		}
	}
	sort.Slice(viol, func(i, j int) bool { return viol[i].Index < viol[j].Index })
	states := mergeStates(files)
	for _, k := range open {
		if c := total.Known[k.ID]; c > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases)\n", ch.ID, k.ID, k.What, c)
		}
	}

	cov := map[string]any{
		"states":                        states,
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"exhaustive":                    total.Exhausted,
		"samples":                       total.Samples,
		"cases_per_section":             total.Sections,
		"cases":                         total.Cases,
		"element_comparisons":           total.Values,
		"distinct_outcomes":             total.Outcomes,
		"bounds":                        ch.Bounds(o.Tier),
	}
	if len(total.Notes) > 0 {
		cov["notes"] = total.Notes
	}
	if len(total.Known) > 0 {
		cov["known_findings_hit"] = total.Known
	}
	WriteEvidence(o, ch.ID, cov, ch.Assumptions, time.Since(start), len(viol))

	if len(viol) > 0 {
		dir := filepath.Join(o.VerifDir, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range viol {
			if i >= 3 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ch.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s\n  %s\n", v.Key, firstLines(v.Message, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, p)
		}
		return 1
	}
	if !anyResult {
		fmt.Fprintln(os.Stderr, "no worker finished")
		return 2
	}
	fmt.Printf("%s %s: held on everything explored: %d cases, %d states, %d transitions, %d traces compared, exhaustive=%v, %.1fs\n",
		ch.ID, o.Tier, total.Cases, states, total.Transitions, total.Traces, total.Exhausted, time.Since(start).Seconds())
	return 0
}

// WriteEvidence writes evidence/<id>.json.
func WriteEvidence(o Options, id string, cov map[string]any, assumptions []string, wall time.Duration, violations int) {
	ev := map[string]any{"property": id, "tier": o.Tier, "seed": o.Seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "wall_s": wall.Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(o.VerifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

// Replay re-runs the case of a replay file verbosely; exit 1 if it fails again.
func Replay(ch *Check, o Options, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(tmp)
	o.Tier = v.Tier
	var ids []string
	for _, k := range LoadKnown(o.Home, ch.ID) {
		ids = append(ids, k.ID)
	}
	for _, only := range []int64{int64(v.Index), -1} {
		e := runShard(ch, o, tmp, v.Shard, v.Shards, only, ids, nil)
		if e.crashed || e.hang {
			fmt.Printf("case %d (alone=%v) crashed or hung again:\n%s\n", v.Index, only >= 0, e.stderr)
			return 1
		}
		if e.res != nil && len(e.res.Violations) > 0 {
			x := e.res.Violations[0]
			fmt.Printf("%s\n%s\n%s\n", x.Key, strings.Join(x.Trace, "\n"), x.Message)
			return 1
		}
		fmt.Printf("case alone=%v: no violation\n", only >= 0)
	}
	return 0
}
