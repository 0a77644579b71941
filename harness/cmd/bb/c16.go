package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// PersistCase is a history over several runs of the server on one append-only file.
type PersistCase struct {
	Cfg   rs.Cfg
	Conns int
	Depth int
	Runs  []PersistRun
}

type PersistRun struct {
	Ops    []rs.Op // "bgrewriteaof" among them starts a rewrite
	Wait   bool    // wait for the end of rewrites before the end of the run
	Signal int     // 9, 15 or 2
	DownMs int     // before the next start
}

func (c *PersistCase) Steps() int {
	n := 0
	for _, p := range c.Runs {
		n += len(p.Ops)
	}
	return n
}

func (c *PersistCase) Without(i, j int) any {
	n := *c
	n.Runs = nil
	k := 0
	for _, p := range c.Runs {
		q := p
		q.Ops = nil
		for _, o := range p.Ops {
			if k < i || k >= j {
				q.Ops = append(q.Ops, o)
			}
			k++
		}
		n.Runs = append(n.Runs, q)
	}
	// runs without operations at the end add nothing
	for len(n.Runs) > 1 && len(n.Runs[len(n.Runs)-1].Ops) == 0 {
		n.Runs = n.Runs[:len(n.Runs)-1]
	}
	return &n
}

func newPersist() any { return &PersistCase{} }

func genCfgAof(t *rapid.T) rs.Cfg {
	c := rs.Cfg{Aof: true, Fsync: fw.Pick(t, "fsync", []string{"no", "no", "everysec", "always"})}
	c.AofName = fw.Pick(t, "name", []string{"a.aof", "a.aof", "appendonly.aof", "x y.aof", "temp.aof", "é.aof"})
	c.Databases = fw.Pick(t, "dbs", []int{1, 2, 12, 0, 30})
	if fw.Chance(t, "pass", 1, 6) {
		c.Pass = "secret"
	}
	return c
}

// genPersistOp draws operations over several databases.
func genPersistOp(p *rs.Pools, t *rapid.T, dbs int) rs.Op {
	if dbs == 0 {
		dbs = 16
	}
	key := func() string {
		return fw.Pick(t, "key", p.Keys) + fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"})
	}
	switch k := fw.Uni(t, "pop", 34); {
	case k == 33: // also over values of other kinds
		return cmd("set", key(), fw.Pick(t, "over", []string{"over", "", "\x00"}))
	case k == 32:
		if !fw.Chance(t, "huge", 1, 4) {
			return p.GenWrite(t)
		}
		name, k := "set", fw.Pick(t, "key", p.Keys)+":s"
		if fw.Chance(t, "hugeEl", 1, 2) {
			name, k = fw.Pick(t, "hugeCmd", []string{"rpush", "lpush"}), fw.Pick(t, "key", p.Keys)+":l"
		}
		return rs.Op{Args: []fw.Arg{fw.A(name), fw.A(k), {S: fw.B(fw.Pick(t, "hugeS", []string{"a", "\r\n", "*1"})), N: fw.Pick(t, "hugeN", []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3000000})}}}
	case k < 3:
		return cmd("select", itoa(fw.Pick(t, "db", []int{0, 0, dbs - 1, dbs / 2, min(11, dbs-1)})))
	case k >= 3 && k <= 5 && fw.Chance(t, "farSec", 1, 10):
		far := fw.Pick(t, "far", farSecs)
		switch k {
		case 3:
			return mixed(t, "expire", key(), far)
		case 4:
			return mixed(t, "expireat", key(), far)
		}
		return mixed(t, "setex", fw.Pick(t, "key", p.Keys)+":s", far, "sx")
	case k == 3:
		return mixed(t, "expire", key(), fw.Pick(t, "sec", []string{"1000", "1001", "999", "998", "5000", "-1", "100000"}))
	case k == 4:
		return mixed(t, "expireat", key(), fw.Pick(t, "at", []string{"99999999999", "@2000", "@-10", "1"}))
	case k == 5:
		return mixed(t, "setex", fw.Pick(t, "key", p.Keys)+":s", itoa(fw.Rng(t, "sec", 1000, 9000)), "sx")
	case k == 6:
		o := cmd("set", "many{}", "v{}")
		o.Each = &rs.Each{From: fw.Pick(t, "from", []int{0, 0, 100}), N: fw.Pick(t, "n", []int{5, 70, 130, 600})}
		return o
	case k == 7:
		o := cmd(fw.Pick(t, "fail", []string{"lpush", "sadd", "hset", "zadd"}), key(), "x", "y")
		return o
	case k == 8:
		return cmd("del", key(), key())
	case k == 9:
		return cmd("set", fw.Pick(t, "key", p.Keys)+":s", "sat", fw.Pick(t, "exat", []string{"exat", "EXAT"}), fw.Pick(t, "at", []string{"99999999999", "@2000", "@-10", "1"}))
	default:
		return p.GenWrite(t)
	}
}

func genPersist(rewrites bool) func(t *rapid.T, tier int) any {
	return func(t *rapid.T, tier int) any {
		c := &PersistCase{Cfg: genCfgAof(t), Conns: fw.Rng(t, "conns", 1, 3), Depth: fw.Pick(t, "depth", []int{1, 4, 40})}
		if rewrites && fw.Chance(t, "auto", 1, 4) {
			c.Cfg.Pct = fw.Pick(t, "pct", []int{1, 20, 100})
			c.Cfg.MinSize = fw.Pick(t, "min", []string{"1b", "1kb", "20kb"})
		}
		p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 4), fw.Pick(t, "fillMax", []int{10, 130, 600, 1100}))
		max := 40
		if tier == 1 {
			max = 150
		}
		runs := fw.Rng(t, "runs", 1, 4)
		for r := 0; r < runs; r++ {
			run := PersistRun{Signal: fw.Pick(t, "sig", []int{9, 9, 15, 2})}
			lo := 1
			if r > 0 {
				lo = 0
			}
			run.Ops = fw.Seq(t, "ops", lo, max, func(t *rapid.T) rs.Op {
				o := genPersistOp(p, t, c.Cfg.Databases)
				if rewrites && fw.Chance(t, "rw", 1, 12) {
					o = cmd("bgrewriteaof")
				}
				o.Conn = fw.Uni(t, "conn", c.Conns)
				return o
			})
			if r == 0 && fw.Chance(t, "huge", 1, 15) { // one command with very many changes
				x := fw.Pick(t, "hugeKind", [][2]string{{"rpush", "el"}, {"sadd", "el"}, {"hset", "fv"}, {"zadd", "zs"}, {"lpush", "el"}})
				o := cmd(x[0], "huge:"+x[0])
				o.Fill = &rs.Fill{Kind: x[1], N: fw.Pick(t, "hugeN", []int{30000, 65535, 65536, 70000})}
				run.Ops = append(run.Ops, o)
			}
			run.Wait = fw.Chance(t, "waitrw", 4, 5)
			c.Runs = append(c.Runs, run)
		}
		return c
	}
}

func signalOf(n int) syscall.Signal {
	switch n {
	case 15:
		return syscall.SIGTERM
	case 2:
		return syscall.SIGINT
	}
	return syscall.SIGKILL
}

// runPersist executes the runs. Without rewrites the replies are not judged (that is for other properties),
// only the datasets before and after each restart.
func runPersist(e *fw.Env, cc any, rewrites bool) error {
	c := cc.(*PersistCase)
	w, err := rs.World0(e, c.Cfg, max(c.Conns, 1))
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	w.Raw = !rewrites
	login := func() error {
		if c.Cfg.Pass == "" {
			return nil
		}
		for i, conn := range w.Conns {
			if _, err := conn.Do("auth", string(c.Cfg.Pass)); err != nil {
				return rs.Classify(w.Srv, "auth", err)
			}
			w.Sess[i].Auth = true
		}
		return nil
	}
	if err := login(); err != nil {
		return err
	}
	types := map[string]bool{}
	nrw, restarts := 0, 0
	for i, run := range c.Runs {
		var batch []rs.Op
		flush := func() error {
			err := w.Exec(batch, c.Depth)
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("run %d: %s", i, v.Msg)
			}
			batch = nil
			return err
		}
		mark := w.Srv.Mark()
		began := 0
		for _, o := range run.Ops {
			o = absolute(o, rs.NowMs())
			if o.Args[0].Str() != "bgrewriteaof" {
				batch = append(batch, o)
				types[strings.ToLower(o.Args[0].Str())] = true
				continue
			}
			// the rewrite is started in the middle of a pipelined batch
			batch = append(batch, o)
			began++
		}
		if err := flush(); err != nil {
			mark.Close()
			return err
		}
		done := began == 0 || !run.Wait || mark.Wait(20*time.Second)
		mark.Close()
		if began > 0 && run.Wait {
			if !done {
				if dead, why := w.Srv.Dead(0); dead {
					return fw.Viol("run %d: the server process ended during a rewrite: %s", i, why)
				}
				return fw.Late("run %d: BGREWRITEAOF has not replaced the append-only file after 20 s", i)
			}
			nrw += began
			settle(w.Srv)
		}
		before, err := w.Dump()
		if err != nil {
			return err
		}
		// the live dataset is what the commands made it
		now := rs.NowMs()
		if d := rs.Diff(w.Model.Observe(now), before, rs.DiffOpts{Tol: 2100, Near: now}); rewrites && d != "" {
			return fw.Viol("run %d: the live dataset differs from the model: %s", i, d)
		}
		if err := w.Restart(e.Shard, signalOf(run.Signal), time.Duration(run.DownMs)*time.Millisecond); err != nil {
			return err
		}
		restarts++
		if err := login(); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if d := rs.Diff(before, after, rs.DiffOpts{Tol: 1100, Near: rs.NowMs()}); d != "" {
			return fw.Viol("run %d: restarting on the append-only file (after signal %d) changed the dataset: %s", i, run.Signal, d)
		}
	}
	e.LabelN("restarts", restarts)
	e.LabelN("rewrites", nrw)
	n := 0
	for name := range types {
		if rs.IsWrite(name) {
			n++
		}
	}
	if rewrites {
		if nrw > 0 && n >= 3 {
			e.NonTrivial()
		}
	} else if n >= 4 {
		e.NonTrivial()
	}
	return nil
}

// settle waits until no rewrite replaces the file any more.
func settle(s *rs.Server) {
	for k := 0; k < 60; k++ {
		m := s.Mark()
		size := s.AofSize()
		time.Sleep(8 * time.Millisecond)
		same := !m.Replaced() && size == s.AofSize()
		m.Close()
		if same {
			return
		}
	}
}

// ---- C17: a rewrite of a large dataset under load

type RewriteCase struct {
	Cfg     rs.Cfg
	Prefill []rs.Op
	Clients [][]rs.Op // concurrent programs on disjoint keys, run over and over while rewrites take place
	Rounds  int
	After   []rs.Op
	Signal  int
}

func (c *RewriteCase) Steps() int {
	n := len(c.Prefill) + len(c.After)
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (c *RewriteCase) Without(i, j int) any {
	n := *c
	k := 0
	keep := func(ops []rs.Op) (out []rs.Op) {
		for _, o := range ops {
			if k < i || k >= j {
				out = append(out, o)
			}
			k++
		}
		return
	}
	n.Prefill = keep(c.Prefill)
	n.Clients = nil
	for _, x := range c.Clients {
		n.Clients = append(n.Clients, keep(x))
	}
	n.After = keep(c.After)
	return &n
}

func genRewrite(t *rapid.T, tier int) any {
	c := &RewriteCase{Cfg: genCfgAof(t), Signal: fw.Pick(t, "sig", []int{9, 9, 15, 2})}
	c.Cfg.Pass = ""
	if c.Cfg.Databases == 1 {
		c.Cfg.Databases = 2
	}
	dbs := c.Cfg.Databases
	if dbs == 0 {
		dbs = 16
	}
	c.Rounds = fw.Rng(t, "rounds", 1, 3)
	each := cmd("set", "bulk{}", "v{}")
	each.Each = &rs.Each{N: fw.Pick(t, "bulk", []int{10, 1000, 4000})}
	c.Prefill = append(c.Prefill, each)
	for _, k := range []string{"rpush", "sadd", "hset", "zadd"} {
		if fw.Chance(t, "big", 2, 3) {
			o := cmd(k, "big"+k)
			o.Fill = &rs.Fill{Kind: map[string]string{"rpush": "el", "sadd": "el", "hset": "fv", "zadd": "zs"}[k], N: fw.Pick(t, "n", []int{63, 64, 65, 127, 128, 129, 192, 1025, 3000, 12000}), Mode: fw.Uni(t, "mode", 4)}
			c.Prefill = append(c.Prefill, o)
		}
	}
	// values of all kinds and databases, odd ones among them
	q := rs.NewPools(t, 3, 130)
	for i := range q.Keys {
		q.Keys[i] = "p" + q.Keys[i]
	}
	for _, v := range []string{"", " ", "\r\n", "\x00", "$-1\r\n"} {
		q.Els = append(q.Els, fw.A(v))
	}
	c.Prefill = append(c.Prefill, fw.Seq(t, "prefill", 0, 40, func(t *rapid.T) rs.Op { return genPersistOp(q, t, dbs) })...)
	clients := fw.Rng(t, "clients", 1, 3)
	for i := 0; i < clients; i++ {
		// each client works in databases and on keys of its own, so that its own order determines the result
		p := rs.NewPools(t, 2, 130)
		for k := range p.Keys {
			p.Keys[k] = "c" + itoa(i) + p.Keys[k]
		}
		prog := fw.Seq(t, "prog", 5, 60, func(t *rapid.T) rs.Op {
			if fw.Chance(t, "sel", 1, 8) {
				return cmd("select", itoa(fw.Pick(t, "db", []int{0, 1, dbs - 1})))
			}
			if fw.Chance(t, "exp", 1, 10) {
				return cmd("expire", fw.Pick(t, "key", p.Keys)+fw.Pick(t, "sfx", []string{":s", ":l", ":z"}), fw.Pick(t, "sec", []string{"1000", "-1"}))
			}
			if i == 0 && fw.Chance(t, "touchbig", 1, 3) {
				return fw.Pick(t, "touch", []rs.Op{cmd("lpop", "bigrpush"), cmd("rpush", "bigrpush", "n1", "n2"), cmd("lpush", "bigrpush", "n3"), cmd("srem", "bigsadd", "e1", "e2"), cmd("sadd", "bigsadd", "new"), cmd("spop", "bigsadd"),
					cmd("hset", "bighset", "f1", "changed", "fnew", "x"), cmd("hdel", "bighset", "f2"), cmd("zadd", "bigzadd", "5", "m1", "-3", "mnew"), cmd("zrem", "bigzadd", "m2"), cmd("zremrangebyrank", "bigzadd", "0", "1"),
					cmd("set", "bulk7", "changed"), cmd("expire", "bulk8", "-1"), cmd("expire", "bulk9", "3000")})
			}
			return p.GenWrite(t)
		})
		c.Clients = append(c.Clients, prog)
	}
	p := rs.NewPools(t, 2, 20)
	c.After = fw.Seq(t, "after", 0, 10, func(t *rapid.T) rs.Op { return genPersistOp(p, t, dbs) })
	return c
}

func runRewrite(e *fw.Env, cc any) error {
	c := cc.(*RewriteCase)
	w, err := rs.World0(e, c.Cfg, len(c.Clients)+1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	main := len(c.Clients)
	for i := range c.Prefill {
		c.Prefill[i].Conn = main
	}
	for i := range c.After {
		c.After[i].Conn = main
	}
	if err := w.Exec(c.Prefill, 200); err != nil {
		return err
	}
	during := 0
	for round := 0; round < max(c.Rounds, 1); round++ {
		mark := w.Srv.Mark()
		defer mark.Close()
		r, err := w.Conns[main].Do("bgrewriteaof")
		if err != nil {
			return rs.Classify(w.Srv, "bgrewriteaof", err)
		}
		if r.IsErr() {
			return fw.Viol("bgrewriteaof replied %s", r)
		}
		// the programs interleave deterministically, command by command, while the rewrite runs
		longest := 0
		for _, p := range c.Clients {
			longest = max(longest, len(p))
		}
		for k := 0; k < longest; k++ {
			for i, p := range c.Clients {
				if k >= len(p) {
					continue
				}
				o := p[k]
				o.Conn = i
				if err := w.Exec([]rs.Op{o}, 1); err != nil {
					if v, ok := err.(*fw.Violation); ok {
						v.Msg = fmt.Sprintf("round %d, client %d, during a rewrite: %s", round, i, v.Msg)
					}
					return err
				}
				if !mark.Replaced() {
					during++
				}
			}
		}
		if !mark.Wait(20 * time.Second) {
			if dead, why := w.Srv.Dead(0); dead {
				return fw.Viol("round %d: the server process ended during a rewrite: %s", round, why)
			}
			return fw.Late("round %d: BGREWRITEAOF has not replaced the append-only file after 20 s", round)
		}
	}
	if err := w.Exec(c.After, 1); err != nil {
		return err
	}
	before, err := w.Dump()
	if err != nil {
		return err
	}
	now := rs.NowMs()
	if d := rs.Diff(w.Model.Observe(now), before, rs.DiffOpts{Tol: 1100, Near: now}); d != "" {
		return fw.Viol("the live dataset differs from the model after %d rewrites: %s", c.Rounds, d)
	}
	for k := 0; k < 2; k++ {
		if err := w.Restart(e.Shard, signalOf(c.Signal), 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if d := rs.Diff(before, after, rs.DiffOpts{Tol: 1100, Near: rs.NowMs()}); d != "" {
			return fw.Viol("restart %d after %d rewrites changed the dataset: %s", k, c.Rounds, d)
		}
	}
	e.LabelN("rewrites", c.Rounds)
	e.LabelN("restarts", 2)
	e.LabelN("commands executed while a rewrite was running", during)
	if during >= 3 {
		e.NonTrivial()
	}
	return nil
}

// C17 has two kinds of cases.
type C17Case struct {
	Hist *PersistCase `json:",omitempty"`
	Load *RewriteCase `json:",omitempty"`
}

func (c *C17Case) Steps() int {
	if c.Hist != nil {
		return c.Hist.Steps()
	}
	return c.Load.Steps()
}

func (c *C17Case) Without(i, j int) any {
	if c.Hist != nil {
		return &C17Case{Hist: c.Hist.Without(i, j).(*PersistCase)}
	}
	return &C17Case{Load: c.Load.Without(i, j).(*RewriteCase)}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C16", New: newPersist, Gen: genPersist(false),
		Run:  func(e *fw.Env, c any) error { return runPersist(e, c, false) },
		Rule: "histories of up to 40 (thorough 150) write commands of every type per run with arguments of any bytes up to 200000 long, over 1-30 databases from 1-3 connections, pipelined up to 40 deep, in 1-4 successive runs on one append-only file ended by SIGKILL, SIGTERM or SIGINT; the dataset read before each stop equals the one read after the restart; non-trivial: at least 4 different write commands",
	})
	fw.Register(&fw.Prop{
		ID: "C17", New: func() any { return &C17Case{} }, QuickS: 35,
		Gen: func(t *rapid.T, tier int) any {
			if fw.Chance(t, "load", 1, 2) {
				return &C17Case{Load: genRewrite(t, tier).(*RewriteCase)}
			}
			return &C17Case{Hist: genPersist(true)(t, tier).(*PersistCase)}
		},
		Run: func(e *fw.Env, c any) error {
			x := c.(*C17Case)
			switch {
			case x.Hist != nil:
				return runPersist(e, x.Hist, true)
			case x.Load != nil:
				return runRewrite(e, x.Load)
			}
			return nil
		},
		Rule: "either histories as for C16 with BGREWRITEAOF anywhere in pipelined batches and automatic rewrites with small thresholds, or a prefilled dataset (up to 4000 keys and values of 3000 elements) that 1-3 clients change while 1-3 rewrites run; live dataset compared with the model, and before and after 1-4 restarts; non-trivial: a rewrite completed and 3 different write commands, or at least 3 commands executed while a rewrite was running",
	})
}
