package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C18: crash at any moment

// CrashCase is a workload of concurrent clients and the instant of the crash.
type CrashCase struct {
	Cfg     rs.Cfg
	Prefill int
	// Clients work on keys of their own in databases of their own.
	Clients [][]rs.Op
	Depth   int
	// Rewrites: BGREWRITEAOF is sent by another connection after this many microseconds each (0: never).
	RewriteU int
	// The crash: KillU microseconds after the start of the load, or, if Syscall is set, at the entry of the When-th call of
	// it (strace injection).
	KillU   int
	Syscall string `json:",omitempty"`
	When    int    `json:",omitempty"`
	// Error: the chosen call fails with this error instead (C34), at the When-th time only or, if Stays, from then on.
	Error string `json:",omitempty"`
	Stays bool   `json:",omitempty"`
	// FileLimit: no file may grow by more than this many bytes over the size of the append-only file before the load, a write
	// beyond that is cut short (C34).
	FileLimit int `json:",omitempty"`
	// Lift: the limit is lifted as soon as the append-only file has reached it, as if space had been freed.
	Lift bool `json:",omitempty"`
	// Amp: collections that take more space in a rewritten file than in the log they come from; OverPm: FileLimit is relative
	// to this point between the size of the log (0) and that of the rewritten file (1000).
	Amp    []rs.Op `json:",omitempty"`
	OverPm int     `json:",omitempty"`
	// Signal: the server is stopped by this signal instead of a crash (C36).
	Signal int `json:",omitempty"`
	// Stalled: so many connections do not read their replies of 1 MB each (C36).
	Stalled int `json:",omitempty"`
	// StartsU: afterwards it is started and stopped again so many microseconds later (C36).
	StartsU []int `json:",omitempty"`
	// TornPm: what was appended after the last reply ends at this permille of it, as if the crash had come while it was written
	// (0: as it is).
	TornPm int `json:",omitempty"`
	// Again: crash and restart once more after some further commands.
	Again bool
}

func (c *CrashCase) Steps() int {
	n := 0
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (c *CrashCase) Without(i, j int) any {
	n := *c
	n.Clients = nil
	k := 0
	for _, x := range c.Clients {
		var y []rs.Op
		for _, o := range x {
			if k < i || k >= j {
				y = append(y, o)
			}
			k++
		}
		n.Clients = append(n.Clients, y)
	}
	return &n
}

func (c *CrashCase) torn() bool   { return c.TornPm > 0 && c.RewriteU == 0 && c.Cfg.Pct == 0 }
func (c *CrashCase) faulty() bool { return c.Syscall != "" || c.FileLimit > 0 }
func (c *CrashCase) fails() bool  { return c.Error != "" || c.FileLimit > 0 }

func genCrash(t *rapid.T, tier int) any {
	c := &CrashCase{Cfg: genCfgAof(t)}
	c.Cfg.Pass = ""
	c.Cfg.Databases = 4
	c.Cfg.AofName = "a.aof"
	c.Depth = fw.Pick(t, "depth", []int{1, 1, 3, 20})
	c.Prefill = fw.Pick(t, "prefill", []int{0, 20, 500, 3000})
	if fw.Chance(t, "auto", 1, 4) {
		c.Cfg.Pct, c.Cfg.MinSize = fw.Pick(t, "pct", []int{1, 50}), fw.Pick(t, "min", []string{"1b", "4kb"})
	}
	if fw.Chance(t, "rw", 2, 3) {
		c.RewriteU = fw.Pick(t, "rwu", []int{200, 1500, 6000})
	}
	clients := fw.Rng(t, "clients", 1, 3)
	for i := 0; i < clients; i++ {
		seq := 0
		c.Clients = append(c.Clients, fw.Seq(t, "prog", 20, 150, func(t *rapid.T) rs.Op {
			seq++
			v := "c" + itoa(i) + "v" + itoa(seq)
			switch fw.Uni(t, "op", 12) {
			case 0:
				return cmd("set", "s"+itoa(fw.Uni(t, "k", 3)), v)
			case 1:
				return cmd("setex", "x", "5000", v)
			case 2:
				return cmd("rpush", "l", v, v+"b", v+"c")
			case 3:
				o := cmd("rpush", "l", v)
				o.Fill = &rs.Fill{Kind: "el", From: seq * 1000, N: fw.Pick(t, "n", []int{5, 100}), Pad: fw.Pick(t, "pad", []int{0, 100})}
				return o
			case 4:
				return cmd(fw.Pick(t, "pop", []string{"lpop", "rpop"}), "l")
			case 5:
				return cmd("sadd", "S", v, v+"b", "x", "y")
			case 6:
				return cmd("srem", "S", "x", "y")
			case 7:
				return cmd("hset", "h", "a", v, "b", v, "f"+itoa(seq), v)
			case 8:
				return cmd("hdel", "h", "a", "b")
			case 9:
				return cmd("zadd", "z", itoa(seq), "a", itoa(seq), "b", itoa(-seq), v)
			case 10:
				return fw.Pick(t, "misc", []rs.Op{cmd("expire", "l", "7000"), cmd("expire", "S", "-1"), cmd("zremrangebyrank", "z", "0", "1"), cmd("zrem", "z", "a", "b"), cmd("expire", "h", "9000")})
			default:
				return rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("big"), {S: fw.B(v), N: fw.Pick(t, "biglen", []int{10, 1000, 20000})}}}
			}
		}))
	}
	if fw.Chance(t, "inject", 1, 2) {
		c.Syscall = fw.Pick(t, "sys", []string{"write", "write", "write", "renameat", "renameat", "fsync", "unlinkat", "openat", "close"})
		c.When = 1
		switch c.Syscall {
		case "write":
			c.When = fw.Rng(t, "when", 1, 400)
		case "openat", "close":
			c.When = fw.Rng(t, "when", 1, 60)
		case "fsync":
			c.When = fw.Rng(t, "when", 1, 30)
		default:
			c.When = fw.Rng(t, "when", 1, 3)
		}
	}
	c.KillU = fw.Pick(t, "killBase", []int{0, 1000, 4000, 15000}) + fw.Uni(t, "kill", 8000)
	c.Again = fw.Chance(t, "again", 1, 3)
	if fw.Chance(t, "torn", 1, 2) {
		c.TornPm = fw.Rng(t, "tornPm", 1, 999)
		if fw.Chance(t, "tornNoRw", 2, 3) {
			c.RewriteU, c.Cfg.Pct = 0, 0
			if fw.Chance(t, "tornWrite", 2, 3) {
				c.Syscall, c.When, c.Depth = "write", fw.Rng(t, "when", 4, 40), fw.Pick(t, "tornDepth", []int{3, 20})
			}
		}
	}
	return c
}

// genFail draws the same workloads with a failing disk in place of the crash.
func genFail(t *rapid.T, tier int) any {
	c := genCrash(t, tier).(*CrashCase)
	c.Syscall, c.When, c.TornPm = "", 0, 0
	c.Cfg.Fsync = fw.Pick(t, "fsync2", []string{"always", "everysec", "no"})
	if c.RewriteU == 0 && fw.Chance(t, "rw2", 1, 2) {
		c.RewriteU = 1500
	}
	if fw.Chance(t, "amp", 1, 4) {
		kinds := [][2]string{{"rpush", "el"}, {"sadd", "el"}, {"hset", "fv"}, {"zadd", "zs"}}
		for k := fw.Rng(t, "amps", 1, 2); k > 0; k-- {
			x := fw.Pick(t, "ampKind", kinds)
			sizes := []int{65, 300, 3000}
			if x[0] == "hset" { // the dump names the key once per field
				sizes = []int{65, 200}
			}
			c.Amp = append(c.Amp, rs.Op{Args: []fw.Arg{fw.A(x[0]), {S: fw.B(x[0][:1]), N: fw.Pick(t, "ampKey", []int{300, 2000, 9000})}}, Fill: &rs.Fill{Kind: x[1], N: fw.Pick(t, "ampN", sizes)}})
		}
		c.Prefill = min(c.Prefill, fw.Pick(t, "ampPre", []int{0, 0, 500}))
		c.Cfg.Pct = 0
		if fw.Chance(t, "few", 1, 3) {
			for i := range c.Clients {
				c.Clients[i] = c.Clients[i][:min(len(c.Clients[i]), fw.Pick(t, "fewOps", []int{0, 1, 5}))]
			}
		}
		c.RewriteU = fw.Pick(t, "ampRw", []int{200, 1500, 6000})
		c.OverPm = fw.Pick(t, "overPm", []int{1000, 1000, fw.Uni(t, "pm", 1001)})
		c.FileLimit = 1 + fw.Uni(t, "ampPlus", fw.Pick(t, "ampPlusMax", []int{100, 1000, 10000}))
		return c
	}
	if fw.Chance(t, "limit", 1, 3) {
		c.FileLimit = fw.Pick(t, "fileLimit", []int{1, 30, 300, 3000, 30000}) + fw.Uni(t, "fileLimitPlus", 3000)
		c.Lift = fw.Chance(t, "lift", 1, 2)
		return c
	}
	c.Syscall = fw.Pick(t, "sys", []string{"write", "write", "write", "fsync", "fsync", "renameat", "renameat", "openat", "unlinkat", "close"})
	if c.Syscall == "fsync" && c.Cfg.Fsync == "no" {
		c.Cfg.Fsync = "always"
	}
	switch c.Syscall {
	case "write", "fsync":
		c.When = fw.Rng(t, "when", 1, 12)
		c.Error = fw.Pick(t, "err", []string{"ENOSPC", "EIO", "EDQUOT"})
	case "openat":
		c.When = fw.Rng(t, "when", 1, 20)
		c.Error = fw.Pick(t, "err", []string{"EMFILE", "ENOSPC", "EACCES"})
	default:
		c.When = 1
		c.Error = fw.Pick(t, "err", []string{"EIO", "ENOSPC", "EACCES"})
	}
	c.Stays = fw.Chance(t, "stays", 1, 2)
	if c.Syscall == "fsync" && fw.Chance(t, "never", 1, 2) {
		c.When, c.Stays = 1, true
	}
	return c
}

// genStop draws the same workloads with an ordinary stop in place of the crash.
func genStop(t *rapid.T, tier int) any {
	c := genCrash(t, tier).(*CrashCase)
	c.Syscall, c.When, c.TornPm = "", 0, 0
	c.Signal = fw.Pick(t, "signal", []int{15, 15, 2})
	if fw.Chance(t, "stalled", 1, 4) {
		c.Stalled = fw.Rng(t, "nstalled", 1, 3)
		c.Amp = append(c.Amp, rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("stall"), {S: "reply ", N: 1 << 20}}})
	}
	if fw.Chance(t, "starts", 1, 3) {
		c.StartsU = fw.Seq(t, "startsU", 1, 6, func(t *rapid.T) int {
			if fw.Chance(t, "reachable", 1, 2) {
				return -1
			}
			return fw.Pick(t, "startBase", []int{0, 2000, 5000, 9000, 15000}) + fw.Uni(t, "startPlus", 6000)
		})
	}
	return c
}

// firstContact returns at the moment at which a starting server can be connected to.
func firstContact(addr string) error {
	for end := time.Now().Add(10 * time.Second); ; {
		x, err := net.Dial("tcp", addr)
		if err == nil {
			return x.Close()
		}
		if time.Now().After(end) {
			return fw.Late("a starting server is not reachable after 10 s: %v", err)
		}
	}
}

const stopLimit = 15 * time.Second

// stop ends the server in the ordinary way. early: it may not have come to handle signals yet.
func (c *CrashCase) stop(s *rs.Server, early bool) error {
	sig := syscall.Signal(c.Signal)
	how := s.Interrupt(sig, stopLimit)
	switch {
	case how == "":
		return fw.Late("the server has not ended %v after signal %v", stopLimit, sig)
	case how == "exit status 0", early && how == "signal "+sig.String():
	default:
		return fw.Viol("after signal %v the server ended by %s: %s", sig, how, s.Output())
	}
	if out := s.Output(); strings.Contains(out, "panic") {
		return fw.Viol("after signal %v the server panicked: %s", sig, out)
	}
	return nil
}

type crashClient struct {
	states []*rs.Model // states[n]: after n commands
	logged int64       // size of the append-only file after its last reply
	acked  int
	sent   int
	err    error
}

func runCrash(e *fw.Env, cc any) error {
	c := cc.(*CrashCase)
	if len(c.Clients) == 0 {
		return nil
	}
	s := rs.NewServer(e, e.Scratch, c.Cfg)
	defer s.Stop()
	w := &rs.World{Srv: s, Model: rs.NewModel(c.Cfg.Databases, "")}
	if err := s.Start(e.Shard); err != nil {
		return err
	}
	if c.Prefill > 0 || len(c.Amp) > 0 {
		if err := w.Connect(1); err != nil {
			return err
		}
		o := cmd("set", "pre{}", "v{}")
		o.Each = &rs.Each{N: c.Prefill}
		if err := w.Exec(append([]rs.Op{cmd("select", "3"), o}, c.Amp...), 300); err != nil {
			return err
		}
		w.Close()
		w.Sess = nil
	}
	if c.Syscall != "" {
		// start again under strace, so that the crash hits exactly the chosen system call
		if err := s.Kill(syscall.SIGKILL); err != nil {
			return err
		}
		what := "signal=KILL"
		if c.Error != "" {
			what = "error=" + c.Error
		}
		when := itoa(c.When)
		if c.Stays {
			when += "+"
		}
		s.Wrap = []string{"strace", "-f", "-qq", "-o", filepath.Join(e.Scratch, "trace"), "-e", "trace=" + c.Syscall,
			"-e", fmt.Sprintf("inject=%s:%s:when=%s", c.Syscall, what, when)}
		if c.Error != "" && (c.Syscall == "write" || c.Syscall == "fsync") {
			s.Wrap = append(s.Wrap, "-P", s.AofPath())
		}
		// the crash may hit the start of the server, which is part of the property as well
		port := rs.FreePort(e.Shard)
		if err := s.StartProc(port); err != nil {
			return err
		}
	}
	if c.FileLimit > 0 {
		if err := s.Kill(syscall.SIGKILL); err != nil {
			return err
		}
		base := max(s.AofSize(), 0)
		if c.OverPm > 0 {
			n, err := c.rewrittenSize(e, s)
			if err != nil {
				return err
			}
			base += max(n-base, 0) * int64(c.OverPm) / 1000
			e.Label("limit between the log and the rewritten file")
		}
		limit := base + int64(c.FileLimit)
		s.Wrap = []string{"prlimit", fmt.Sprintf("--fsize=%d:unlimited", limit)}
		if err := s.StartProc(rs.FreePort(e.Shard)); err != nil {
			return err
		}
		if c.Lift {
			over := make(chan struct{})
			defer close(over)
			go func() {
				for s.AofSize() < limit {
					select {
					case <-over:
						return
					case <-time.After(200 * time.Microsecond):
					}
				}
				none := [2]uint64{^uint64(0), ^uint64(0)}
				if pid := s.ServerPid(); pid > 0 {
					_, _, _ = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_FSIZE, uintptr(unsafe.Pointer(&none)), 0, 0, 0)
				}
			}()
			e.Label("limit lifted again")
		}
	}
	rounds := 1
	if c.Again {
		rounds = 2
	}
	labels := 0
	for round := 0; round < rounds; round++ {
		acks, inflight, err := crashRound(e, c, s, w, round)
		if err != nil {
			return err
		}
		if acks > 0 && inflight {
			labels++
		}
		e.LabelN("acknowledged commands", acks)
	}
	if labels > 0 {
		e.NonTrivial()
	}
	return nil
}

// rewrittenSize finds out how large the rewritten file is, with a copy of the log.
func (c *CrashCase) rewrittenSize(e *fw.Env, s *rs.Server) (int64, error) {
	dir := filepath.Join(e.Scratch, "size")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return 0, fw.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	log, err := os.ReadFile(s.AofPath())
	if err != nil {
		return 0, fw.Infra("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, c.Cfg.AofName), log, 0o644); err != nil {
		return 0, fw.Infra("%v", err)
	}
	p := rs.NewServer(e, dir, c.Cfg)
	defer p.Stop()
	if err := p.Start(e.Shard); err != nil {
		return 0, err
	}
	mark := p.Mark()
	defer mark.Close()
	x, err := p.Dial()
	if err != nil {
		return 0, rs.Classify(p, "connecting", err)
	}
	defer x.Close()
	if _, err := x.Do("bgrewriteaof"); err != nil {
		return 0, rs.Classify(p, "bgrewriteaof", err)
	}
	if !mark.Wait(10 * time.Second) {
		return 0, fw.Infra("no rewrite")
	}
	return p.AofSize(), nil
}

// crashRound runs the load, crashes, restarts and compares. w.Model is the dataset before the load; afterwards the one found.
func crashRound(e *fw.Env, c *CrashCase, s *rs.Server, w *rs.World, round int) (int, bool, error) {
	nc := len(c.Clients)
	cl := make([]*crashClient, nc)
	var conns []*rs.Conn
	closeAll := func() {
		for _, x := range conns {
			x.Close()
		}
		conns = nil
	}
	defer closeAll()
	dialBy := time.Now().Add(20 * time.Second)
	for i := 0; i < nc+1; {
		x, err := s.Dial()
		if err == nil {
			conns = append(conns, x)
			i++
			continue
		}
		if dead, why := s.Dead(0); dead {
			if c.faulty() && round == 0 {
				break // the crash hit the start
			}
			return 0, false, fw.Viol("the server process ended: %s", why)
		}
		if time.Now().After(dialBy) {
			return 0, false, fw.Infra("cannot connect: %v", err)
		}
		time.Sleep(time.Millisecond)
	}
	for i := 0; i < c.Stalled; i++ {
		x, err := s.Dial()
		if err != nil {
			return 0, false, rs.Classify(s, "connecting", err)
		}
		defer x.Close()
		if err := x.Write(rs.Encode([]string{"select", "3"}) + strings.Repeat(rs.Encode([]string{"get", "stall"}), 16)); err != nil {
			return 0, false, rs.Classify(s, "sending", err)
		}
	}
	logged := s.AofSize() // nothing is sent yet
	done := make(chan int, nc+1)
	stop := make(chan struct{})
	for i := range cl {
		cl[i] = &crashClient{states: []*rs.Model{w.Model.Clone()}, logged: logged}
		if i >= len(conns) {
			done <- i
			continue
		}
		go func(i int, x *rs.Conn) {
			defer func() { done <- i }()
			k := cl[i]
			m := w.Model.Clone()
			sess := &rs.Sess{DB: i}
			if r, err := x.Do("select", itoa(i)); err != nil || !r.IsOK() {
				return
			}
			ops := c.Clients[i]
			if round > 0 && len(ops) > 30 {
				ops = ops[:30]
			}
			for a := 0; a < len(ops); a += max(c.Depth, 1) {
				b := min(a+max(c.Depth, 1), len(ops))
				var sb strings.Builder
				for _, o := range ops[a:b] {
					sb.WriteString(rs.Encode(o.Strs()))
				}
				t0 := rs.NowMs()
				k.sent = b
				if x.Write(sb.String()) != nil {
					break
				}
				failed := false
				for _, o := range ops[a:b] {
					r, err := x.Recv()
					if err != nil {
						failed = true
						break
					}
					// every reply is what the model says, except after the crash
					if err := m.Step(sess, o.Strs(), r, t0, rs.NowMs()); err != nil {
						k.err = err
						return
					}
					k.states = append(k.states, m.Clone())
					k.acked++
					if c.torn() {
						k.logged = s.AofSize()
					}
				}
				if failed {
					break
				}
			}
			// what was sent but not answered may or may not have been executed
			for n := k.acked; n < k.sent; n++ {
				t := rs.NowMs()
				if !m.Apply(sess, ops[n].Strs(), t) {
					break
				}
				k.states = append(k.states, m.Clone())
			}
		}(i, conns[i])
	}
	rewriter := make(chan struct{})
	var rconn *rs.Conn // closeAll empties conns
	if len(conns) > nc {
		rconn = conns[nc]
	}
	go func() {
		defer close(rewriter)
		if c.RewriteU == 0 || rconn == nil {
			return
		}
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(c.RewriteU) * time.Microsecond):
			}
			if _, err := rconn.Do("bgrewriteaof"); err != nil {
				return
			}
		}
	}()
	if c.faulty() && round == 0 {
		// wait for the injected crash; if the call does not happen often enough, crash now
		limit := time.Now().Add(time.Duration(c.KillU)*time.Microsecond + 400*time.Millisecond)
		for time.Now().Before(limit) {
			if dead, _ := s.Dead(2 * time.Millisecond); dead {
				switch {
				case c.FileLimit > 0:
					e.Label("ended after a short write")
				case c.Error != "":
					e.Label("ended after " + c.Error + " from " + c.Syscall)
				default:
					e.Label("crash at entry of " + c.Syscall)
				}
				break
			}
		}
	} else {
		spin := time.Now().Add(time.Duration(c.KillU) * time.Microsecond)
		for time.Now().Before(spin) {
			if d := time.Until(spin); d > 2*time.Millisecond {
				time.Sleep(d - time.Millisecond)
			}
		}
	}
	// a crash that nobody asked for
	if dead, why := s.Dead(0); dead && !(c.faulty() && round == 0) {
		return 0, false, fw.Viol("the server process ended: %s", why)
	}
	if out := s.Output(); !(c.fails() && round == 0) && strings.Contains(out, "panic") {
		return 0, false, fw.Viol("the server panicked: %s", out)
	}
	if c.Signal != 0 {
		if err := c.stop(s, false); err != nil {
			return 0, false, err
		}
	} else if err := s.Kill(syscall.SIGKILL); err != nil {
		return 0, false, err
	}
	close(stop)
	for i := 0; i < nc; i++ {
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			return 0, false, fw.Infra("client does not end")
		}
	}
	closeAll()
	<-rewriter
	inflight, acks := false, 0
	for i, k := range cl {
		if k.err != nil {
			if v, ok := k.err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("client %d before the crash: %s", i, v.Msg)
			}
			return 0, false, k.err
		}
		acks += k.acked
		if k.acked < len(c.Clients[i]) {
			inflight = true
		}
	}
	if len(tempFiles(e.Scratch)) > 0 {
		e.Label("crash during a rewrite")
	}
	s.Wrap = nil
	if c.torn() && round == 0 {
		// the crash may as well have come while what followed the last reply was written
		var kept int64
		ok := true
		for _, k := range cl {
			ok = ok && k.logged >= 0
			kept = max(kept, k.logged)
		}
		if size := s.AofSize(); ok && size > kept {
			if err := os.Truncate(s.AofPath(), kept+(size-kept)*int64(c.TornPm)/1000); err != nil {
				return 0, false, fw.Infra("%v", err)
			}
			e.Label("crash while the log was written")
		}
	}
	for _, us := range c.StartsU {
		if err := s.StartProc(rs.FreePort(e.Shard)); err != nil {
			return 0, false, err
		}
		if us < 0 { // as soon as it is reachable, and from then on the signal must be handled
			if err := firstContact(s.Addr); err != nil {
				return 0, false, err
			}
			if err := c.stop(s, false); err != nil {
				return 0, false, err
			}
			e.Label("stopped as soon as reachable")
			continue
		}
		time.Sleep(time.Duration(us) * time.Microsecond)
		if err := c.stop(s, true); err != nil {
			return 0, false, err
		}
		e.Label("stopped while starting")
	}
	if err := s.Start(e.Shard); err != nil {
		if v, ok := err.(*fw.Violation); ok {
			v.Msg = "restart after the crash: " + v.Msg
		}
		return 0, false, err
	}
	d, err := w.Dump()
	if err != nil {
		return 0, false, err
	}
	now := rs.NowMs()
	next := w.Model.Clone()
	for i := 0; i < c.Cfg.Databases; i++ {
		if i >= nc { // the prefilled database does not change
			if diff := diffDB(w.Model, d, i, now); diff != "" {
				return 0, false, fw.Viol("after the crash, in a database without concurrent commands: %s", diff)
			}
			continue
		}
		k := cl[i]
		match := -1
		first := ""
		for n := k.acked; n < len(k.states); n++ {
			diff := diffDB(k.states[n], d, i, now)
			if diff == "" {
				match = n
				break
			}
			if first == "" {
				first = diff
			}
		}
		if match < 0 {
			state := "no prefix"
			for n := 0; n < k.acked; n++ {
				if diffDB(k.states[n], d, i, now) == "" {
					state = fmt.Sprintf("the first %d commands only", n)
				}
			}
			return 0, false, fw.Viol("after the crash database %d is the result of %s of its client's commands (%d acknowledged, %d sent): compared with the acknowledged ones, %s", i, state, k.acked, k.sent, first)
		}
		if c.Cfg.Fsync == "always" && c.Syscall == "fsync" && c.Error != "" && c.Stays && c.When == 1 && round == 0 {
			// no fsync has succeeded, so nothing that changed the dataset can have been acknowledged
			if diff := rs.Diff(w.Model.ObserveDB(i, now), k.states[k.acked].ObserveDB(i, now), rs.DiffOpts{Tol: 2100, Near: now}); diff != "" {
				return 0, false, fw.Viol("with appendfsync always and every fsync failing, %d commands were acknowledged in database %d: %s", k.acked, i, diff)
			}
			e.Label("every fsync failed")
		}
		next.DBs[i] = k.states[match].Clone().DBs[i]
	}
	w.Model = next
	return acks, inflight, nil
}

func tempFiles(dir string) []string {
	ents, _ := os.ReadDir(dir)
	var out []string
	for _, x := range ents {
		if strings.HasPrefix(x.Name(), "temp-") {
			out = append(out, x.Name())
		}
	}
	return out
}

// diffDB compares one database of the model with the dump.
func diffDB(m *rs.Model, d rs.Dump, db int, now int64) string {
	return rs.Diff(m.ObserveDB(db, now), rs.Dump{d[db]}, rs.DiffOpts{Tol: 2100, Near: now})
}

// ---- C20: torn tail

type TornCase struct {
	Cfg  rs.Cfg
	Ops  []rs.Op
	Cuts []TornCut
}

// TornCut cuts the file inside (or at the ends of) the records of one command.
type TornCut struct {
	Op    int // permille of the operations
	At    int // permille of the bytes of that operation; 1000: complete
	Back  int // further bytes cut off
	After []rs.Op
}

func (c *TornCase) Steps() int { return len(c.Ops) }
func (c *TornCase) Without(i, j int) any {
	n := *c
	n.Ops = append(append([]rs.Op{}, c.Ops[:i]...), c.Ops[j:]...)
	return &n
}

func genTorn(t *rapid.T, tier int) any {
	c := &TornCase{Cfg: genCfgAof(t)}
	c.Cfg.Pass = ""
	c.Cfg.AofName = "a.aof"
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), fw.Pick(t, "fillMax", []int{5, 130, 600}))
	longOp := func(t *rapid.T) rs.Op {
		for {
			o := genPersistOp(p, t, c.Cfg.Databases)
			if o.Each != nil {
				o.Each.N = min(o.Each.N, 10)
			}
			// no deadlines in the past: their records are written at any time
			if !pastOp(o) {
				return o
			}
		}
	}
	max := 25
	cuts := 6
	if tier == 1 {
		max, cuts = 80, 20
	}
	c.Ops = fw.Seq(t, "ops", 2, max, longOp)
	c.Cuts = fw.Seq(t, "cuts", 2, cuts, func(t *rapid.T) TornCut {
		x := TornCut{Op: fw.Uni(t, "op", 1001), At: fw.Uni(t, "at", 1001), Back: fw.Pick(t, "back", []int{0, 0, 0, 1, 2, 3})}
		if fw.Chance(t, "edge", 1, 3) {
			x.At = fw.Pick(t, "edgeAt", []int{0, 1000, 1000})
		}
		x.After = fw.Seq(t, "after", 0, 6, longOp)
		return x
	})
	return c
}

func runTorn(e *fw.Env, cc any) error {
	c := cc.(*TornCase)
	w, err := rs.World0(e, c.Cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	sizes := []int64{0}
	states := []*rs.Model{w.Model.Clone()}
	ops := rs.Expand(c.Ops)
	for i, o := range ops {
		o = absolute(o, rs.NowMs())
		if err := w.Exec([]rs.Op{o}, 1); err != nil {
			return err
		}
		_ = i
		sizes = append(sizes, w.Srv.AofSize())
		states = append(states, w.Model.Clone())
	}
	w.Close()
	if err := w.Srv.Kill(syscall.SIGKILL); err != nil {
		return err
	}
	log, err := os.ReadFile(w.Srv.AofPath())
	if err != nil {
		return fw.Infra("%v", err)
	}
	for i := range sizes {
		if sizes[i] > int64(len(log)) || (i > 0 && sizes[i] < sizes[i-1]) {
			return fw.Infra("the append-only file shrank")
		}
	}
	torn := 0
	for n, cut := range c.Cuts {
		i := cut.Op * len(ops) / 1000
		i = min(max(i, 1), len(ops))
		for i < len(ops) && sizes[i] == sizes[i-1] {
			i++
		}
		at := sizes[i-1] + (sizes[i]-sizes[i-1])*int64(cut.At)/1000 - int64(cut.Back)
		at = min(max(at, 0), int64(len(log)))
		k := 0
		for k+1 < len(sizes) && sizes[k+1] <= at {
			k++
		}
		if sizes[k] != at {
			torn++
		}
		dir := filepath.Join(e.Scratch, "cut"+strconv.Itoa(n))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return fw.Infra("%v", err)
		}
		if err := os.WriteFile(filepath.Join(dir, "a.aof"), log[:at], 0o644); err != nil {
			return fw.Infra("%v", err)
		}
		what := fmt.Sprintf("log of %d bytes cut at %d (inside the record of operation %d %s)", len(log), at, k, describeOp(ops, k))
		v := &rs.World{Srv: rs.NewServer(e, dir, c.Cfg), Model: states[k].Clone()}
		err := func() error {
			defer v.Srv.Stop()
			defer v.Close()
			if err := v.Srv.Start(e.Shard); err != nil {
				return err
			}
			d, err := v.Dump()
			if err != nil {
				return err
			}
			now := rs.NowMs()
			if diff := rs.Diff(v.Model.Observe(now), d, rs.DiffOpts{Tol: 2100, Near: now}); diff != "" {
				return fw.Viol("the dataset is not that of the %d complete commands: %s", k, diff)
			}
			if len(cut.After) == 0 {
				return nil
			}
			if err := v.Connect(1); err != nil {
				return err
			}
			for _, o := range cut.After {
				if err := v.Exec([]rs.Op{absolute(o, rs.NowMs())}, 1); err != nil {
					return err
				}
			}
			before, err := v.Dump()
			if err != nil {
				return err
			}
			for r := 0; r < 2; r++ {
				if err := v.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
					return err
				}
				after, err := v.Dump()
				if err != nil {
					return err
				}
				if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 1100, Near: rs.NowMs()}); diff != "" {
					return fw.Viol("commands executed after the restart are not reproduced by restart %d: %s", r+1, diff)
				}
			}
			return nil
		}()
		if err != nil {
			if x, ok := err.(*fw.Violation); ok {
				x.Msg = what + ": " + x.Msg
			}
			return err
		}
		_ = os.RemoveAll(dir)
	}
	e.LabelN("cuts", len(c.Cuts))
	e.LabelN("cuts inside a record", torn)
	if torn > 0 && len(ops) >= 2 {
		e.NonTrivial()
	}
	return nil
}

func describeOp(ops []rs.Op, k int) string {
	if k < len(ops) {
		return fw.Shorts(ops[k].Strs())
	}
	return "(none)"
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C18", New: func() any { return &CrashCase{} }, Gen: genCrash, Run: runCrash, Level: "fault_enumeration", QuickS: 35,
		Rule: "1-3 clients, each with 20-150 deterministic write commands of every type in a database of its own, pipelined up to 20 deep, next to prefilled data, BGREWRITEAOF in quick succession or automatic rewrites; the server is killed after a random time up to 23 ms or, by strace injection, at the entry of the n-th write, fsync, rename, unlink, open or close, and restarted; each database must be the result of a prefix of its client's commands that contains all acknowledged ones, in a third of the cases twice in a row; non-trivial: commands were acknowledged and others were not",
	})
	fw.Register(&fw.Prop{
		ID: "C34", New: func() any { return &CrashCase{} }, Gen: genFail, Run: runCrash, Level: "fault_enumeration", QuickS: 35,
		Rule: "the workloads of C18 while the disk fails: by strace injection the n-th write or fsync of the append-only file, rename, open, unlink or close (or all from the n-th on) fails with ENOSPC, EIO, EDQUOT, EMFILE or EACCES, or a file size limit cuts a write short, in a quarter of the cases one between the size of the log and that of the rewritten file; the server may end or go on; killed and restarted without the fault each database must be the result of a prefix of its client's commands that contains all acknowledged ones; non-trivial: commands were acknowledged and others were not",
	})
	fw.Register(&fw.Prop{
		ID: "C36", New: func() any { return &CrashCase{} }, Gen: genStop, Run: runCrash, QuickS: 35,
		Rule: "the workloads of C18, during which SIGTERM or SIGINT is sent after a random time up to 23 ms, with rewrites running, and in a third of the cases again up to six times 0-21 ms after a start or as soon as a starting server accepts a connection; the process must end within 15 s with exit status 0 (or by the signal, if that came before the server was up) and without a panic, and each database must then be the result of a prefix of its client's commands that contains all acknowledged ones; non-trivial: commands were acknowledged and others were not",
	})
	fw.Register(&fw.Prop{
		ID: "C20", New: func() any { return &TornCase{} }, Gen: genTorn, Run: runTorn, Level: "fault_enumeration",
		Rule: "logs of 2-25 (thorough 80) commands over several databases with arguments of any bytes; 2-6 (thorough 20) cuts at any byte of the record of any command; the server must start with the dataset of the complete commands, execute up to 6 further commands and reproduce them after two more restarts; non-trivial: a cut inside a record",
	})
}
