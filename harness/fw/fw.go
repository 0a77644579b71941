// Package fw is the framework shared by all checks: it generates cases with rapid, runs them in parallel worker
// processes, shrinks failures, writes replay files and evidence.
package fw

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one check.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string
	// Gen draws a case. tier is 0 (quick) or 1 (thorough).
	Gen func(t *rapid.T, tier int) any
	New func() any // for decoding
	Run func(e *Env, c any) error
	// Seconds of generation per tier and number of parallel workers (0: 8).
	QuickS, ThoroughS int
	Workers           int
	// CaseTimeout bounds one case; a case that exceeds it is a hang.
	CaseTimeout time.Duration
	// InProc: the code under test runs inside the worker, so a crash of the worker is a violation.
	InProc      bool
	Assumptions []string
	Race        bool // needs the race-instrumented server
}

var props = map[string]*Prop{}

func Register(p *Prop) {
	if p.QuickS == 0 {
		p.QuickS = 25
	}
	if p.ThoroughS == 0 {
		p.ThoroughS = 420
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	if p.CaseTimeout == 0 {
		p.CaseTimeout = 60 * time.Second
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Env is passed to Run.
type Env struct {
	Server  string // server binary
	Scratch string // empty directory for this case
	Shard   int
	Seed    uint64
	Tier    int
	Replay  bool

	nontrivial bool
	labels     map[string]int
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (e *Env) NonTrivial() { e.nontrivial = true }

// Label counts something that happened.
func (e *Env) Label(format string, a ...any) {
	if e.labels == nil {
		e.labels = map[string]int{}
	}
	e.labels[fmt.Sprintf(format, a...)]++
}

// LabelN adds n to a counter.
func (e *Env) LabelN(l string, n int) {
	if e.labels == nil {
		e.labels = map[string]int{}
	}
	e.labels[l] += n
}

// Violation is the only error that means the property is broken.
type Violation struct {
	Msg  string
	Soft bool // depends on a time limit: needs to be reproduced
}

func (v *Violation) Error() string { return v.Msg }

func Viol(format string, a ...any) error { return &Violation{Msg: fmt.Sprintf(format, a...)} }

// Late is a violation that depends on a time limit. It counts only if it happens again.
func Late(format string, a ...any) error {
	return &Violation{Msg: fmt.Sprintf(format, a...), Soft: true}
}

// ErrInconclusive: the case could not be decided (for example the machine was too slow); it is not counted.
var ErrInconclusive = errors.New("inconclusive")

// Infra is a failure of the harness or the sandbox.
func Infra(format string, a ...any) error { return fmt.Errorf("infrastructure: "+format, a...) }

type failure struct {
	Property string
	Msg      string
	Soft     bool
	Case     json.RawMessage
	Note     string `json:",omitempty"`
}

type result struct {
	Evals, Nontrivial, Inconclusive, Infra int
	InfraMsg                               string
	Hashes                                 []uint64
	Labels                                 map[string]int
	Samples                                []json.RawMessage
	Fail                                   *failure
	MaxCaseMS                              int64
}

// Reducible cases consist of steps that can be left out; they are reduced further after rapid's shrinking.
type Reducible interface {
	Steps() int
	Without(from, to int) any
}

// reduce leaves out steps while the case still fails.
func reduce(c any, fails func(any) bool, until time.Time) any {
	r, ok := c.(Reducible)
	if !ok {
		return c
	}
	size := r.Steps() / 2
	for size >= 1 && time.Now().Before(until) {
		changed := false
		for i := 0; i < r.Steps() && time.Now().Before(until); {
			d := r.Without(i, min(i+size, r.Steps())).(Reducible)
			if fails(d) {
				r = d
				changed = true
			} else {
				i += size
			}
		}
		if !changed || size > r.Steps() {
			size /= 2
		}
	}
	return r
}

type tb struct{ failed atomic.Bool }

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed.Store(true); lastErr = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed.Store(true); lastErr = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed.Store(true); runtime.Goexit() }
func (t *tb) Fail()                     { t.failed.Store(true) }
func (t *tb) Failed() bool              { return t.failed.Load() }

var lastErr string

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	v := h.Sum64()
	// finalise, so that close seeds differ everywhere
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	if v == 0 {
		v = 1
	}
	return v
}

// runCase runs one case with panic recovery.
func runCase(p *Prop, e *Env, c any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if p.InProc {
				err = Viol("panic: %v\n%s", r, trimStack(st))
			} else {
				err = Infra("harness panic: %v\n%s", r, st)
			}
		}
	}()
	return p.Run(e, c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "metis/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var caseSeq int64

func scratchFor(base string) (string, error) {
	d := filepath.Join(base, "c"+strconv.FormatInt(atomic.AddInt64(&caseSeq, 1), 10))
	return d, os.MkdirAll(d, 0o755)
}

func memKB() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4
}

const (
	exitHang = 43
	exitMem  = 44

	exitUndecided = 45
)

// watchdog ends the process when a case takes too long or too much memory.
func watchdog(p *Prop, start *atomic.Int64) {
	for {
		time.Sleep(100 * time.Millisecond)
		s := start.Load()
		if s == 0 {
			continue
		}
		if time.Since(time.Unix(0, s)) > p.CaseTimeout {
			fmt.Fprintln(os.Stderr, "watchdog: case exceeds its time limit")
			os.Exit(exitHang)
		}
		if p.InProc && memKB() > 3<<20 {
			fmt.Fprintln(os.Stderr, "watchdog: case exceeds its memory limit")
			os.Exit(exitMem)
		}
	}
}

func worker(p *Prop, shard int, seed uint64, tier, seconds int, server, dir string) {
	deadline := time.Now().Add(time.Duration(seconds) * time.Second)
	res := &result{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var best *failure
	var caseStart atomic.Int64
	softSeen := false
	go watchdog(p, &caseStart)
	shrinkUntil := time.Time{}
	infraRow := 0

	prop := func(t *rapid.T) {
		c := p.Gen(t, tier)
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if best != nil && (softSeen || time.Now().After(shrinkUntil)) {
			return
		}
		if best == nil && time.Now().After(deadline) {
			return
		}
		if p.InProc {
			_ = os.WriteFile(filepath.Join(dir, "current.json"), js, 0o644)
		}
		sc, err := scratchFor(dir)
		if err != nil {
			panic(err)
		}
		e := &Env{Server: server, Scratch: sc, Shard: shard, Seed: seed, Tier: tier}
		t0 := time.Now()
		caseStart.Store(t0.UnixNano())
		err = runCase(p, e, c)
		caseStart.Store(0)
		if ms := time.Since(t0).Milliseconds(); ms > res.MaxCaseMS {
			res.MaxCaseMS = ms
			if ms > 5000 && os.Getenv("PBT_SLOW") != "" {
				_ = os.WriteFile(filepath.Join(os.Getenv("PBT_SLOW"), fmt.Sprintf("%s-%d.json", p.ID, ms)), js, 0o644)
			}
		}
		_ = os.RemoveAll(sc)
		var v *Violation
		switch {
		case err == nil || errors.As(err, &v):
			infraRow = 0
			if best == nil {
				res.Evals++
				for k, n := range e.labels {
					res.Labels[k] += n
				}
				if e.nontrivial {
					h := fnv.New64a()
					h.Write(js)
					if !seen[h.Sum64()] {
						seen[h.Sum64()] = true
						res.Nontrivial++
						if len(res.Samples) == 0 || (len(res.Samples) < 3 && len(js) < 6000) {
							res.Samples = append(res.Samples, js)
						} else if len(js) < len(res.Samples[0]) && len(res.Samples[0]) > 6000 {
							res.Samples[0] = js
						}
					}
				}
			}
		case errors.Is(err, ErrInconclusive):
			res.Inconclusive++
			return
		default:
			res.Infra++
			infraRow++
			res.InfraMsg = err.Error()
			return
		}
		if v == nil {
			return
		}
		if best == nil {
			shrinkUntil = time.Now().Add(10 * time.Second)
		}
		if best == nil || len(js) < len(best.Case) || (len(js) == len(best.Case) && !v.Soft && best.Soft) {
			best = &failure{Property: p.ID, Msg: v.Msg, Soft: v.Soft, Case: js}
			bf, _ := json.Marshal(best)
			_ = os.WriteFile(filepath.Join(dir, "best.json"), bf, 0o644)
		}
		if v.Soft {
			softSeen = true
		}
		t.Fatal("violation")
	}
	for batch := 0; best == nil && time.Now().Before(deadline); batch++ {
		_ = flag.Set("rapid.seed", strconv.FormatUint(hash64(p.ID, seed, shard, batch), 10))
		_ = flag.Set("rapid.checks", "10")
		_ = flag.Set("rapid.nofailfile", "true")
		_ = flag.Set("rapid.shrinktime", "10s")
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					res.Infra++
					res.InfraMsg = fmt.Sprintf("panic in generator: %v\n%s", r, debug.Stack())
					infraRow = 100
				}
			}()
			rapid.Check(&tb{}, prop)
		}()
		<-done
		if infraRow > 8 {
			break
		}
	}
	if best != nil && !best.Soft && !softSeen {
		c := p.New()
		if json.Unmarshal(best.Case, c) == nil {
			until := time.Now().Add(20 * time.Second)
			reduce(c, func(d any) bool {
				sc, err := scratchFor(dir)
				if err != nil {
					return false
				}
				defer os.RemoveAll(sc)
				js, _ := json.Marshal(d)
				if p.InProc {
					_ = os.WriteFile(filepath.Join(dir, "current.json"), js, 0o644)
				}
				caseStart.Store(time.Now().UnixNano())
				err = runCase(p, &Env{Server: server, Scratch: sc, Shard: shard, Seed: seed, Tier: tier}, d)
				caseStart.Store(0)
				var v *Violation
				if errors.As(err, &v) && !v.Soft {
					best = &failure{Property: p.ID, Msg: v.Msg, Case: js}
					bf, _ := json.Marshal(best)
					_ = os.WriteFile(filepath.Join(dir, "best.json"), bf, 0o644)
					return true
				}
				return false
			}, until)
		}
	}
	res.Fail = best
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// replayFile runs one replay file in this process.
func replayFile(file, server, dir string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUndecided
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUndecided
	}
	p := props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return exitUndecided
	}
	c := p.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUndecided
	}
	sc, err := scratchFor(dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitUndecided
	}
	var caseStart atomic.Int64
	caseStart.Store(time.Now().UnixNano())
	go watchdog(p, &caseStart)
	e := &Env{Server: server, Scratch: sc, Replay: true, Shard: 9}
	err = runCase(p, e, c)
	var v *Violation
	switch {
	case err == nil:
		fmt.Println("held")
		return 0
	case errors.As(err, &v):
		fmt.Println("violated:", v.Msg)
		return 1
	default:
		fmt.Println("undecided:", err)
		return exitUndecided
	}
}

type shardOut struct {
	dir    string
	code   int
	killed bool
	stderr string
	res    *result
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return s
}

func runSub(limit time.Duration, args ...string) (int, bool, string) {
	cmd := exec.Command(self(), args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return 2, false, err.Error()
	}
	timer := time.AfterFunc(limit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	fired := !timer.Stop()
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	out := buf.String()
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + out[len(out)-3000:]
	}
	if err == nil {
		return 0, fired, out
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal()), fired, out
		}
		return ee.ExitCode(), fired, out
	}
	return 2, fired, err.Error()
}

// check is the parent process.
func check(p *Prop, tier int, seed uint64, seconds int, server, verif, scratch string) int {
	t0 := time.Now()
	if seconds == 0 {
		seconds = p.QuickS
		if tier == 1 {
			seconds = p.ThoroughS
		}
	}
	outs := make([]*shardOut, p.Workers)
	var wg sync.WaitGroup
	for i := range outs {
		outs[i] = &shardOut{dir: filepath.Join(scratch, "s"+strconv.Itoa(i))}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := outs[i]
			limit := time.Duration(seconds)*time.Second + 90*time.Second + p.CaseTimeout
			for attempt := 0; attempt < 2; attempt++ {
				_ = os.RemoveAll(o.dir)
				_ = os.MkdirAll(o.dir, 0o755)
				o.code, o.killed, o.stderr = runSub(limit, "worker", "-prop", p.ID, "-shard", strconv.Itoa(i),
					"-seed", strconv.FormatUint(seed, 10), "-tier", strconv.Itoa(tier), "-seconds", strconv.Itoa(seconds),
					"-server", server, "-dir", o.dir)
				if b, err := os.ReadFile(filepath.Join(o.dir, "result.json")); err == nil {
					r := &result{}
					if json.Unmarshal(b, r) == nil {
						o.res = r
						return
					}
				}
				if _, err := os.Stat(filepath.Join(o.dir, "best.json")); err == nil {
					return
				}
				if p.InProc && o.code != 128+int(syscall.SIGKILL) {
					return
				}
				if os.Getenv("PBT_VERBOSE") != "" {
					fmt.Printf("worker %d ended with status %d: %s\n", i, o.code, o.stderr)
				}
			}
		}(i)
	}
	wg.Wait()

	tot := &result{Labels: map[string]int{}}
	all := map[uint64]bool{}
	var fails []*failure
	infra := ""
	for i, o := range outs {
		if o.res == nil {
			var f failure
			if b, err := os.ReadFile(filepath.Join(o.dir, "best.json")); err == nil && json.Unmarshal(b, &f) == nil {
				fails = append(fails, &f)
				continue
			}
			if p.InProc && o.code != 128+int(syscall.SIGKILL) {
				if b, err := os.ReadFile(filepath.Join(o.dir, "current.json")); err == nil {
					fails = append(fails, &failure{Property: p.ID, Soft: true, Case: b,
						Msg: fmt.Sprintf("the code under test hung or ended the process (status %d): %s", o.code, o.stderr)})
					continue
				}
			}
			infra = fmt.Sprintf("worker %d ended with status %d: %s", i, o.code, o.stderr)
			continue
		}
		r := o.res
		tot.Evals += r.Evals
		tot.Inconclusive += r.Inconclusive
		tot.Infra += r.Infra
		if r.InfraMsg != "" {
			tot.InfraMsg = r.InfraMsg
		}
		if r.MaxCaseMS > tot.MaxCaseMS {
			tot.MaxCaseMS = r.MaxCaseMS
		}
		for _, h := range r.Hashes {
			all[h] = true
		}
		for k, n := range r.Labels {
			tot.Labels[k] += n
		}
		for _, x := range r.Samples {
			if len(tot.Samples) < 5 && (len(x) < 6000 || len(tot.Samples) == 0) {
				tot.Samples = append(tot.Samples, x)
			}
		}
		if r.Fail != nil {
			fails = append(fails, r.Fail)
		}
	}
	sort.SliceStable(fails, func(a, b int) bool {
		if fails[a].Soft != fails[b].Soft {
			return !fails[a].Soft
		}
		return len(fails[a].Case) < len(fails[b].Case)
	})

	// decide: a soft failure counts only if it happens again on its own
	var viol *failure
	replayPath := filepath.Join(verif, "replays", p.ID+".json")
	_ = os.MkdirAll(filepath.Dir(replayPath), 0o755)
	for n, f := range fails {
		if n >= 4 {
			break
		}
		b, _ := json.MarshalIndent(f, "", " ")
		tmp := filepath.Join(scratch, "replay.json")
		_ = os.WriteFile(tmp, b, 0o644)
		rep := 0
		tries := 3
		for k := 0; k < tries && rep == 0; k++ {
			d := filepath.Join(scratch, fmt.Sprintf("r%d_%d", n, k))
			_ = os.MkdirAll(d, 0o755)
			code, fired, _ := runSub(p.CaseTimeout+30*time.Second, "replay", "-server", server, "-dir", d, tmp)
			if code == 1 || (p.InProc && (fired || (code != 0 && code != exitUndecided && code != 128+int(syscall.SIGKILL)))) {
				rep++
			}
		}
		if rep > 0 {
			f.Note = "reproduced from this file"
		} else if !f.Soft {
			f.Note = fmt.Sprintf("observed once, not reproduced in %d replays (depends on the schedule)", tries)
		} else {
			continue
		}
		viol = f
		break
	}

	wall := time.Since(t0).Seconds()
	tierName := []string{"quick", "thorough"}[tier]
	ev := map[string]any{
		"property": p.ID, "tier": tierName, "seed": seedForEvidence(), "level": p.Level,
		"wall_s":      wall,
		"assumptions": p.Assumptions,
		"violations":  map[bool]int{true: 1, false: 0}[viol != nil],
		"coverage": map[string]any{
			"evaluations": tot.Evals, "distinct_nontrivial": len(all), "rule": p.Rule,
			"samples": tot.Samples, "inconclusive_cases": tot.Inconclusive, "infrastructure_failures": tot.Infra,
			"counters": tot.Labels, "workers": p.Workers, "slowest_case_ms": tot.MaxCaseMS,
		},
	}
	if ev["assumptions"] == nil || len(p.Assumptions) == 0 {
		ev["assumptions"] = []string{"loopback TCP, the local file system and the clock of the machine behave"}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return 2
	}
	if viol != nil {
		b, _ := json.MarshalIndent(viol, "", " ")
		_ = os.WriteFile(replayPath, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n  (%s)\n", p.ID, viol.Msg, viol.Note)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if infra != "" && tot.Evals == 0 {
		fmt.Fprintln(os.Stderr, infra)
		return 2
	}
	if tot.Evals == 0 || len(all) == 0 {
		fmt.Fprintf(os.Stderr, "%s: no case could be decided (%d inconclusive, %d infrastructure failures: %s) %s\n",
			p.ID, tot.Inconclusive, tot.Infra, tot.InfraMsg, infra)
		return 2
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial, %d inconclusive, %d infrastructure) in %.1fs\n",
		p.ID, tot.Evals, len(all), tot.Inconclusive, tot.Infra, wall)
	if tot.Infra > 0 {
		fmt.Printf("  last infrastructure failure: %s\n", tot.InfraMsg)
	}
	if infra != "" {
		fmt.Printf("  %s\n", infra)
	}
	if os.Getenv("PBT_VERBOSE") != "" {
		lb, _ := json.Marshal(tot.Labels)
		fmt.Printf("  counters %s slowest %d ms\n", lb, tot.MaxCaseMS)
		for _, f := range fails {
			fmt.Printf("  unconfirmed: %s\n", f.Msg)
		}
	}
	return 0
}

func seedForEvidence() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check|worker|replay|list")
		os.Exit(2)
	}
	sub := os.Args[1]
	fs := flag.CommandLine
	prop := fs.String("prop", "", "")
	tier := fs.Int("tier", 0, "")
	shard := fs.Int("shard", 0, "")
	seedStr := fs.String("seed", "1", "any string; numbers are used as they are")
	seconds := fs.Int("seconds", 0, "")
	server := fs.String("server", "", "")
	dir := fs.String("dir", "", "")
	verif := fs.String("verif", "/verif", "")
	testing.Init()
	_ = fs.Parse(os.Args[2:])
	sv, err := strconv.ParseUint(*seedStr, 10, 64)
	if err != nil {
		sv = hash64(*seedStr)
	}
	seed := &sv
	// signals that are ignored here (as SIGINT is in background jobs of a shell) would be ignored by the servers started below
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		os.Exit(3)
	}()
	switch sub {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check", "worker":
		p := props[*prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(2)
		}
		if sub == "worker" {
			worker(p, *shard, *seed, *tier, *seconds, *server, *dir)
			return
		}
		os.Exit(check(p, *tier, *seed, *seconds, *server, *verif, *dir))
	case "replay":
		os.Exit(replayFile(fs.Arg(0), *server, *dir))
	}
}
