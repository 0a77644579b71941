package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C39: the configuration file changes while the server runs

type EditCase struct {
	Cfg    rs.Cfg
	Conns  int
	Script []EditStep
	End    string // how the server is stopped at last
	// Rewrites: BGREWRITEAOF may be among the operations.
	Rewrites bool `json:",omitempty"`
}

// EditStep is an operation or a change of the file.
type EditStep struct {
	Op    *rs.Op `json:",omitempty"`
	How   string `json:",omitempty"` // write, truncate, append, remove, rename, chmod
	Text  fw.B   `json:",omitempty"`
	Keep  int    `json:",omitempty"` // permille of the original text in front of Text
	Pause int    // milliseconds afterwards
}

func (c *EditCase) Steps() int { return len(c.Script) }
func (c *EditCase) Without(i, j int) any {
	n := *c
	n.Script = append(append([]EditStep{}, c.Script[:i]...), c.Script[j:]...)
	return &n
}

func genEdit(t *rapid.T, tier int) any {
	c := &EditCase{Conns: fw.Rng(t, "conns", 1, 2)}
	c.Cfg = genCfgAof(t)
	c.Cfg.Aof = fw.Chance(t, "aof", 2, 3)
	if c.Cfg.Aof && fw.Chance(t, "auto", 1, 3) {
		c.Cfg.Pct, c.Cfg.MinSize = fw.Pick(t, "cpct", []int{10, 100}), "1kb"
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), 130)
	text := func(t *rapid.T) string {
		switch fw.Uni(t, "tk", 5) {
		case 0:
			return fw.Bytes(t, "raw", 0, 200)
		case 1:
			return fw.Pick(t, "bad", []string{"port = \"abc\"\n", "port = -1\n", "port = 99999999\n", "databases = \"x\"\n", "databases = [1]\n", "appendonly = \"maybe\"\n", "port = ", "[", "= =", "auto-aof-rewrite-percentage = -5\n", "bind = 5\nport = {}\n", "requirepass = [\"a\"]\n", "appendonly = 7.5\n", "port = true\nport = false\n"})
		default:
			o := rs.Cfg{Databases: fw.Pick(t, "dbs", []int{1, 2, 16, 100}), Pass: fw.B(fw.Pick(t, "pw", []string{"", "other", "secret"})), Aof: fw.Chance(t, "aof2", 1, 2), AofName: fw.Pick(t, "name", []string{"b.aof", "a.aof", ""}), Fsync: fw.Pick(t, "fs", []string{"always", "no", "everysec", "never"}), Pct: fw.Pick(t, "pct", []int{0, 1, 100}), MinSize: fw.Pick(t, "min", []string{"1", "64mb", "x"})}
			return o.Toml(fw.Pick(t, "port", []int{1, 6379, 50000}))
		}
	}
	n := 14
	if tier == 1 {
		n = 40
	}
	c.Rewrites = c.Cfg.Aof && fw.Chance(t, "rewrites", 1, 2)
	c.Script = fw.Seq(t, "steps", 2, n, func(t *rapid.T) EditStep {
		if fw.Chance(t, "op", 3, 5) {
			o := genPersistOp(p, t, c.Cfg.Databases)
			if o.Each != nil {
				o.Each.N = min(o.Each.N, 100)
			}
			if pastOp(o) {
				o = cmd("get", "k:s")
			}
			if c.Rewrites && fw.Chance(t, "rw", 1, 4) {
				o = cmd("bgrewriteaof")
			}
			o.Conn = fw.Uni(t, "conn", c.Conns)
			return EditStep{Op: &o}
		}
		return EditStep{How: fw.Pick(t, "how", []string{"write", "write", "append", "append", "truncate", "remove", "rename", "rename", "chmod"}), Text: fw.B(text(t)), Keep: fw.Pick(t, "keep", []int{0, 0, 500, 900, 1000}), Pause: fw.Pick(t, "pause", []int{0, 2, 10, 30})}
	})
	c.End = fw.Pick(t, "end", []string{"kill", "term"})
	return c
}

func runEdit(e *fw.Env, cc any) error {
	c := cc.(*EditCase)
	w, err := rs.World0(e, c.Cfg, c.Conns)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if c.Cfg.Pass != "" {
		for i := range w.Conns {
			o := cmd("auth", string(c.Cfg.Pass))
			o.Conn = i
			if err := w.Exec([]rs.Op{o}, 1); err != nil {
				return err
			}
		}
	}
	conf := filepath.Join(e.Scratch, "c.toml")
	orig, err := os.ReadFile(conf)
	if err != nil {
		return fw.Infra("%v", err)
	}
	fds := w.Srv.Fds()
	mark := w.Srv.Mark()
	defer mark.Close()
	edits, ops := 0, 0
	what := ""
	for i, s := range c.Script {
		if s.Op != nil {
			ops++
			if err := w.Exec([]rs.Op{absolute(*s.Op, rs.NowMs())}, 1); err != nil {
				if v, ok := err.(*fw.Violation); ok {
					v.Msg = fmt.Sprintf("step %d, %s: %s", i, what, v.Msg)
				}
				return err
			}
			continue
		}
		edits++
		text := string(orig)[:len(orig)*s.Keep/1000] + string(s.Text)
		what = fmt.Sprintf("after the configuration file was changed (%s %q)", s.How, fw.Short(text))
		switch s.How {
		case "write":
			err = os.WriteFile(conf, []byte(text), 0o644)
		case "append":
			var f *os.File
			if f, err = os.OpenFile(conf, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				_, err = f.WriteString(string(s.Text))
				f.Close()
			}
		case "truncate":
			err = os.WriteFile(conf, nil, 0o644)
		case "remove":
			if err = os.Remove(conf); os.IsNotExist(err) {
				err = nil
			}
		case "rename":
			if err = os.WriteFile(conf+".new", []byte(text), 0o644); err == nil {
				err = os.Rename(conf+".new", conf)
			}
		case "chmod":
			if err = os.Chmod(conf, 0o600); os.IsNotExist(err) {
				err = nil
			}
		}
		if err != nil {
			return fw.Infra("%v", err)
		}
		e.Label("%s", s.How)
		time.Sleep(time.Duration(s.Pause) * time.Millisecond)
	}
	time.Sleep(15 * time.Millisecond)
	if dead, why := w.Srv.Dead(0); dead {
		return fw.Viol("%s the server ended: %s", what, why)
	}
	if err := w.CheckDump(what); err != nil {
		return err
	}
	if n := w.Srv.Fds(); n > fds+3 { // a rewrite may be running
		return fw.Late("%s the server has %d descriptors open, %d before", what, n, fds)
	}
	if c.Cfg.Aof && c.Cfg.Pct == 0 && !c.Rewrites && mark.Replaced() {
		return fw.Viol("%s the append-only file was rewritten, but the server was started without automatic rewrites", what)
	}
	if c.Cfg.Aof && c.Cfg.Pct > 0 && len(c.Script) > 0 {
		// every write doubles the file
		grow := w.Srv.Mark()
		defer grow.Close()
		for k := 0; k < 4 && !grow.Replaced(); k++ {
			n := max(int(w.Srv.AofSize())*(100+c.Cfg.Pct)/100, 2000)
			if n > 1<<20 {
				break
			}
			if err := w.Exec([]rs.Op{{Args: []fw.Arg{fw.A("set"), fw.A("grow:s"), {S: "g", N: n}}}}, 1); err != nil {
				return err
			}
			if k == 3 && !grow.Wait(5*time.Second) {
				return fw.Late("%s the append-only file of %d bytes is not rewritten any more, the server was started with percentage %d and minimum size %s", what, w.Srv.AofSize(), c.Cfg.Pct, c.Cfg.MinSize)
			}
		}
		e.Label("automatic rewrites checked")
	}
	if c.Cfg.Aof {
		before, err := w.Dump()
		if err != nil {
			return err
		}
		sig := syscall.SIGKILL
		if c.End == "term" {
			sig = syscall.SIGTERM
		}
		if err := w.Restart(e.Shard, sig, 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 2100, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("%s and a restart with the original file: %s", what, diff)
		}
	}
	if edits > 0 && ops > 0 {
		e.NonTrivial()
	}
	return nil
}

// ---- C40: no descriptors left

type ScarceCase struct {
	Cfg    rs.Cfg
	Spare  int // descriptors beyond those of the idle server
	Script []ScarceStep
	Direct bool `json:",omitempty"` // restart without another rewrite
}

// ScarceStep: connect, close one, or execute an operation on a connection that is being served.
type ScarceStep struct {
	Open  int    `json:",omitempty"`
	Close int    `json:",omitempty"` // permille+1 of the connections
	Reset bool   `json:",omitempty"`
	Op    *rs.Op `json:",omitempty"`
	At    int    // permille of the served connections
}

func (c *ScarceCase) Steps() int { return len(c.Script) }
func (c *ScarceCase) Without(i, j int) any {
	n := *c
	n.Script = append(append([]ScarceStep{}, c.Script[:i]...), c.Script[j:]...)
	return &n
}

func genScarce(t *rapid.T, tier int) any {
	c := &ScarceCase{Cfg: rs.Cfg{Databases: 3}, Spare: fw.Pick(t, "spare", []int{1, 2, 3, 4, 8, 20})}
	if fw.Chance(t, "aof", 2, 3) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "always", "everysec"})
		if fw.Chance(t, "auto", 1, 3) {
			c.Cfg.Pct, c.Cfg.MinSize = 100, "2kb"
		}
	}
	c.Direct = fw.Chance(t, "direct", 1, 2)
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), 130)
	n := 20
	if tier == 1 {
		n = 60
	}
	c.Script = fw.Seq(t, "steps", 2, n, func(t *rapid.T) ScarceStep {
		switch k := fw.Uni(t, "step", 10); {
		case k < 2:
			return ScarceStep{Open: fw.Pick(t, "open", []int{1, 2, 5, 12, 30})}
		case k < 4:
			return ScarceStep{Close: fw.Rng(t, "close", 1, 1000), Reset: fw.Chance(t, "reset", 1, 2)}
		case k == 4 && c.Cfg.Aof:
			o := cmd("bgrewriteaof")
			return ScarceStep{Op: &o, At: fw.Uni(t, "at", 1000)}
		default:
			o := genPersistOp(p, t, c.Cfg.Databases)
			if o.Each != nil {
				o.Each.N = min(o.Each.N, 100)
			}
			if pastOp(o) {
				o = cmd("get", "k:s")
			}
			return ScarceStep{Op: &o, At: fw.Uni(t, "at", 1000)}
		}
	})
	return c
}

func runScarce(e *fw.Env, cc any) error {
	c := cc.(*ScarceCase)
	w, err := rs.World0(e, c.Cfg, 0)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	time.Sleep(5 * time.Millisecond)
	base := w.Srv.Fds()
	if base < 5 {
		return fw.Infra("cannot count descriptors")
	}
	// the limit is set on the running server, which then has only so many descriptors left
	lim := &rlimit{uint64(base + c.Spare), 1000}
	if err := prlimit(w.Srv.ServerPid(), syscall.RLIMIT_NOFILE, lim); err != nil {
		return fw.Infra("prlimit: %v", err)
	}
	type cl struct {
		conn   *rs.Conn
		sess   *rs.Sess
		served bool
	}
	var all []*cl
	defer func() {
		for _, x := range all {
			x.conn.Close()
		}
	}()
	// ask finds out whether a connection is served by now
	ask := func(x *cl, wait time.Duration) error {
		if x.served {
			return nil
		}
		_ = x.conn.C.SetReadDeadline(time.Now().Add(wait))
		r, err := rs.ReadReply(x.conn.BR)
		if err != nil {
			if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
				return nil
			}
			return rs.Classify(w.Srv, "a connection waiting for a descriptor", err)
		}
		if r.Str != "PONG" {
			return fw.Viol("PING answered by %s", r)
		}
		x.served = true
		return nil
	}
	refused, rewrites := 0, 0
	for i, s := range c.Script {
		switch {
		case s.Open > 0:
			for k := 0; k < s.Open && len(all) < 100; k++ {
				conn, err := w.Srv.Dial()
				if err != nil {
					return rs.Classify(w.Srv, "connecting", err)
				}
				x := &cl{conn: conn, sess: &rs.Sess{}}
				all = append(all, x)
				if err := conn.Write(rs.Encode([]string{"ping"})); err != nil {
					return rs.Classify(w.Srv, "connecting", err)
				}
				if err := ask(x, 15*time.Millisecond); err != nil {
					return err
				}
				if !x.served {
					refused++
				}
			}
		case s.Close > 0:
			if len(all) > 0 {
				k := (s.Close - 1) * len(all) / 1000
				if s.Reset {
					all[k].conn.Reset()
				} else {
					all[k].conn.Close()
				}
				all = append(all[:k:k], all[k+1:]...)
				time.Sleep(2 * time.Millisecond)
				for _, x := range all {
					if err := ask(x, 200*time.Microsecond); err != nil {
						return err
					}
				}
			}
		default:
			var served []*cl
			for _, x := range all {
				if x.served {
					served = append(served, x)
				}
			}
			if len(served) == 0 {
				continue
			}
			x := served[s.At*len(served)/1000]
			w.Conns, w.Sess = []*rs.Conn{x.conn}, []*rs.Sess{x.sess}
			if s.Op.Args[0].Str() == "bgrewriteaof" {
				rewrites++
			}
			err := w.Exec([]rs.Op{absolute(*s.Op, rs.NowMs())}, 1)
			w.Conns, w.Sess = nil, nil
			if err != nil {
				if v, ok := err.(*fw.Violation); ok {
					v.Msg = fmt.Sprintf("step %d, %d of %d connections served with %d descriptors to spare: %s", i, len(served), len(all), c.Spare, v.Msg)
				}
				return err
			}
		}
	}
	time.Sleep(5 * time.Millisecond)
	if dead, why := w.Srv.Dead(0); dead {
		return fw.Viol("without descriptors the server ended: %s", why)
	}
	// when descriptors are free again, everything works
	lim = &rlimit{1000, 1000}
	if c.Spare > 4 && c.Spare%2 == 0 {
		// by closing connections: the served ones first
		for len(all) > 2 {
			k := 0
			for j, x := range all {
				if x.served {
					k = j
				}
			}
			all[k].conn.Close()
			all = append(all[:k:k], all[k+1:]...)
		}
	} else if err := prlimit(w.Srv.ServerPid(), syscall.RLIMIT_NOFILE, lim); err != nil {
		return fw.Infra("prlimit: %v", err)
	}
	for _, x := range all {
		if err := ask(x, rs.ReplyTimeout); err != nil {
			return err
		}
		if !x.served {
			return fw.Late("a connection that waited for a descriptor is not served although there are descriptors again")
		}
	}
	if err := w.CheckDump("with descriptors again"); err != nil {
		return err
	}
	if c.Cfg.Aof && !c.Direct {
		conn, err := w.Srv.Dial()
		if err != nil {
			return rs.Classify(w.Srv, "connecting", err)
		}
		// a rewrite that is still running answers differently
		mark := w.Srv.Mark()
		r, err := conn.Do("bgrewriteaof")
		conn.Close()
		if err != nil {
			mark.Close()
			return rs.Classify(w.Srv, "BGREWRITEAOF", err)
		}
		if r.Kind != '+' {
			mark.Close()
			return fw.Viol("BGREWRITEAOF replied %s with descriptors available again", r)
		}
		ok := mark.Wait(rs.ReplyTimeout)
		mark.Close()
		if !ok {
			return fw.Late("no rewrite finishes any more after descriptors were short")
		}
	}
	if c.Cfg.Aof {
		before, err := w.Dump()
		if err != nil {
			return err
		}
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 2100, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("after a restart: %s", diff)
		}
	}
	e.LabelN("connections that had to wait", refused)
	e.LabelN("rewrites without certain descriptors", rewrites)
	if refused > 0 || rewrites > 0 {
		e.NonTrivial()
	}
	return nil
}

// ---- C41: transient failures of system calls

type FlakyCase struct {
	Cfg   rs.Cfg
	Conns int
	Depth int
	Fault []Flaw
	Ops   []rs.Op
	News  int // connections opened on the way
}

// Flaw: every Step-th call from the First one on fails with Error.
type Flaw struct {
	Call, Error string
	First, Step int
}

func (c *FlakyCase) Steps() int { return len(c.Ops) }
func (c *FlakyCase) Without(i, j int) any {
	n := *c
	n.Ops = append(append([]rs.Op{}, c.Ops[:i]...), c.Ops[j:]...)
	return &n
}

func genFlaky(t *rapid.T, tier int) any {
	c := &FlakyCase{Cfg: rs.Cfg{Databases: 3}, Conns: fw.Rng(t, "conns", 1, 3), Depth: fw.Pick(t, "depth", depths), News: fw.Rng(t, "news", 0, 4)}
	if fw.Chance(t, "aof", 1, 2) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "always", "everysec"})
	}
	calls := []Flaw{{Call: "read", Error: "EINTR"}, {Call: "write", Error: "EINTR"}, {Call: "epoll_wait", Error: "EINTR"}, {Call: "accept4", Error: "EINTR"}, {Call: "accept4", Error: "ECONNABORTED"}, {Call: "accept4", Error: "EMFILE"}, {Call: "accept4", Error: "EAGAIN"}, {Call: "read", Error: "EAGAIN"}}
	if !c.Cfg.Aof {
		calls = append(calls, Flaw{Call: "write", Error: "EAGAIN"}, Flaw{Call: "write", Error: "EAGAIN"})
	} else {
		calls = append(calls, Flaw{Call: "fsync", Error: "EINTR"})
	}
	used := map[string]bool{}
	big := fw.Chance(t, "big", 1, 4) // replies that are sent in several parts
	if big {
		calls = append(calls, Flaw{Call: "write", Error: "EINTR"}, Flaw{Call: "write", Error: "EINTR"}, Flaw{Call: "write", Error: "EINTR"})
		if !c.Cfg.Aof {
			calls = append(calls, Flaw{Call: "write", Error: "EAGAIN"}, Flaw{Call: "write", Error: "EAGAIN"})
		}
	}
	for n := fw.Rng(t, "flaws", 1, 3); n > 0; n-- {
		f := fw.Pick(t, "flaw", calls)
		f.First, f.Step = fw.Rng(t, "first", 15, 30), fw.Rng(t, "every", 2, 5)
		if f.Call == "accept4" { // there are not so many of them, and each thread counts its own
			f.First = fw.Rng(t, "firstAccept", 1, 4)
			c.News = max(c.News, fw.Rng(t, "moreNews", 2, 6))
		}
		if !used[f.Call] {
			used[f.Call] = true
			c.Fault = append(c.Fault, f)
		}
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), fw.Pick(t, "fillMax", []int{10, 600}))
	n := 40
	if tier == 1 {
		n = 150
	}
	c.Ops = fw.Seq(t, "ops", 4, n, func(t *rapid.T) rs.Op {
		o := genPersistOp(p, t, c.Cfg.Databases)
		if fw.Chance(t, "any", 1, 2) {
			o = p.GenAny(t)
		}
		if o.Each != nil {
			o.Each.N = min(o.Each.N, 50)
		}
		if pastOp(o) || o.Args[0].Str() == "bgrewriteaof" {
			o = cmd("ping")
		}
		o.Conn = fw.Uni(t, "conn", c.Conns)
		return o
	})
	if big {
		size := fw.Pick(t, "bigN", []int{700000, 3000000, 6000000})
		at := fw.Uni(t, "bigAt", len(c.Ops))
		ops := append([]rs.Op{}, c.Ops[:at]...)
		o := rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("big"), {S: "abcdefg", N: size}}}
		o.Conn = fw.Uni(t, "conn", c.Conns)
		ops = append(ops, o)
		n := fw.Rng(t, "gets", 2, 6)
		for _, x := range append(c.Ops[at:], make([]rs.Op, n)...) {
			if x.Args != nil {
				ops = append(ops, x)
			}
			if n > 0 && fw.Chance(t, "getHere", 2, 3) {
				n--
				g := cmd("get", "big")
				g.Conn = o.Conn // others may be in another database
				ops = append(ops, g)
			}
		}
		c.Ops = ops
	}
	return c
}

func runFlaky(e *fw.Env, cc any) error {
	c := cc.(*FlakyCase)
	s := rs.NewServer(e, e.Scratch, c.Cfg)
	defer s.Stop()
	s.NoLimit = true // the shell would be traced as well
	s.Wrap = []string{"strace", "-f", "-qq", "-o", filepath.Join(e.Scratch, "trace")}
	trace := "trace="
	var inject []string
	for i, f := range c.Fault {
		if i > 0 {
			trace += ","
		}
		trace += f.Call
		inject = append(inject, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d+%d", f.Call, f.Error, f.First, f.Step))
	}
	s.Wrap = append(append(s.Wrap, "-e", trace), inject...)
	if err := s.Start(e.Shard); err != nil {
		return err
	}
	w := &rs.World{Srv: s, Model: rs.NewModel(c.Cfg.Databases, "")}
	defer w.Close()
	if err := w.Connect(c.Conns); err != nil {
		return err
	}
	ops := c.Ops
	for k := 0; k <= c.News; k++ {
		n := len(ops)
		if k < c.News {
			n = len(c.Ops) / (c.News + 1)
		}
		part := make([]rs.Op, 0, n)
		for _, o := range ops[:n] {
			part = append(part, absolute(o, rs.NowMs()))
		}
		ops = ops[n:]
		if err := w.Exec(part, c.Depth); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("with %v: %s", c.Fault, v.Msg)
			}
			return err
		}
		if k < c.News {
			x, err := s.Dial()
			if err != nil {
				return rs.Classify(s, "connecting", err)
			}
			old := w.Conns[k%c.Conns]
			w.Conns[k%c.Conns], w.Sess[k%c.Conns] = x, &rs.Sess{}
			old.Close()
		}
	}
	if err := w.CheckDump(fmt.Sprintf("with %v", c.Fault)); err != nil {
		return err
	}
	if c.Cfg.Aof {
		before, err := w.Dump()
		if err != nil {
			return err
		}
		s.Wrap = nil
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 2100, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("with %v: after a restart: %s", c.Fault, diff)
		}
	}
	b, _ := os.ReadFile(filepath.Join(e.Scratch, "trace"))
	n := 0
	for i := 0; i+10 < len(b); i++ {
		if b[i] == '(' && string(b[i:i+10]) == "(INJECTED)" {
			n++
		}
	}
	e.LabelN("failed calls", n)
	for _, line := range strings.Split(string(b), "\n") {
		if strings.Contains(line, "accept4(") && strings.Contains(line, "(INJECTED)") {
			e.Label("failed accepts")
		}
	}
	if n >= 3 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C39", New: func() any { return &EditCase{} }, Gen: genEdit, Run: runEdit,
		Rule: "2-14 (thorough 40) steps: persistent write commands on 1-2 connections, and changes of the configuration file of the running server (written, appended to, truncated, removed, replaced by a rename, chmod) to other valid settings, wrong types or random bytes; the server must go on with its settings, replies and dataset as in the model, not open more descriptors, and be restarted with the original file; non-trivial: at least one change and one command",
	})
	fw.Register(&fw.Prop{
		ID: "C40", New: func() any { return &ScarceCase{} }, Gen: genScarce, Run: runScarce, Level: "fault_enumeration", QuickS: 35,
		Rule: "2-20 (thorough 60) steps on a server with 1-20 descriptors to spare: connections opened (up to 100) and closed, write commands on served ones, BGREWRITEAOF and automatic rewrites; served connections must be answered as by the model, and when descriptors are free again all waiting ones are served, a rewrite succeeds and a restart reproduces the dataset; non-trivial: a connection had to wait or a rewrite was asked for",
	})
	fw.Register(&fw.Prop{
		ID: "C41", New: func() any { return &FlakyCase{} }, Gen: genFlaky, Run: runFlaky, Level: "fault_enumeration",
		Rule: "4-40 (thorough 150) commands on 1-3 connections, also new ones, in a quarter of the cases with replies of 0.7-6 MB, while every 2nd to 7th read, write, epoll_wait, accept4 or fsync fails with EINTR, EAGAIN, ECONNABORTED or EMFILE by strace injection, up to three calls at once; replies, dataset and restart as in the model; non-trivial: at least 3 calls failed",
	})
}
