package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C33: background work under the race detector

type RaceCase struct {
	Cfg      rs.Cfg
	Prefill  []rs.Op
	Clients  [][]rs.Op // run over and over
	Ms       int
	RewriteM int // ms between BGREWRITEAOFs, 0: none
	// LullMs: clients send their whole program at once and then pause for so long.
	LullMs int `json:",omitempty"`
	// SlowMs: every fsync takes so much longer, so that the background sync is still running when a rewrite has ended.
	SlowMs int `json:",omitempty"`
}

func (c *RaceCase) Steps() int {
	n := len(c.Prefill)
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (c *RaceCase) Without(i, j int) any {
	n := *c
	k := 0
	keep := func(ops []rs.Op) (out []rs.Op) {
		for _, o := range ops {
			if k < i || k >= j {
				out = append(out, o)
			}
			k++
		}
		return
	}
	n.Prefill = keep(c.Prefill)
	n.Clients = nil
	for _, x := range c.Clients {
		n.Clients = append(n.Clients, keep(x))
	}
	return &n
}

func genRace(t *rapid.T, tier int) any {
	c := &RaceCase{Cfg: rs.Cfg{Databases: 3, AofName: "a.aof"}}
	c.Cfg.Aof = fw.Chance(t, "aof", 5, 6)
	c.Cfg.Fsync = fw.Pick(t, "fsync", []string{"no", "everysec", "everysec", "always"})
	if fw.Chance(t, "auto", 1, 2) {
		c.Cfg.Pct, c.Cfg.MinSize = fw.Pick(t, "pct", []int{1, 20}), fw.Pick(t, "min", []string{"1b", "4kb"})
	}
	c.Ms = fw.Pick(t, "ms", []int{250, 600, 1300})
	c.RewriteM = fw.Pick(t, "rw", []int{0, 2, 10, 50})
	if c.Cfg.Pct == 0 && c.RewriteM == 0 {
		c.RewriteM = 5
	}
	if c.Cfg.Aof && c.Cfg.Fsync == "everysec" && fw.Chance(t, "lull", 1, 2) {
		// the first writes after a pause of a second are synced at once, while a rewrite ends
		c.LullMs, c.Ms, c.RewriteM = fw.Pick(t, "lullMs", []int{1005, 1020}), fw.Pick(t, "lullTotal", []int{2400, 3500}), fw.Pick(t, "lullRw", []int{0, 1, 2})
		if c.RewriteM == 0 {
			c.RewriteM = -1
		}
	}
	if c.Cfg.Aof && c.Cfg.Fsync == "everysec" && fw.Chance(t, "slow", 1, 4) {
		c.SlowMs = fw.Pick(t, "slowMs", []int{2, 20, 60})
		c.Ms = max(c.Ms, 1300)
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), 130)
	each := cmd("set", "bulk{}", "v{}")
	each.Each = &rs.Each{N: fw.Pick(t, "bulk", []int{0, 100, 2000, 6000})}
	if each.Each.N > 0 {
		c.Prefill = append(c.Prefill, each)
	}
	for _, k := range p.Keys {
		for _, x := range [][3]string{{"rpush", ":l", "el"}, {"sadd", ":S", "el"}, {"hset", ":h", "fv"}, {"zadd", ":z", "zs"}} {
			o := cmd(x[0], k+x[1])
			o.Fill = &rs.Fill{Kind: x[2], N: fw.Pick(t, "n", []int{10, 200, 1100})}
			c.Prefill = append(c.Prefill, o)
		}
	}
	for n := fw.Rng(t, "clients", 1, 4); n > 0; n-- {
		lo, hi := 5, 40
		if c.LullMs > 0 {
			lo, hi = 20, 80
		}
		c.Clients = append(c.Clients, fw.Seq(t, "prog", lo, hi, func(t *rapid.T) rs.Op {
			switch fw.Uni(t, "k", 12) {
			case 0:
				return genDeadlineOp(p, t, true)
			case 1:
				return cmd("select", itoa(fw.Uni(t, "db", 3)))
			case 2:
				o := cmd("set", "bulk"+itoa(fw.Uni(t, "b", 8000)), "new")
				return o
			}
			return p.GenAny(t)
		}))
	}
	return c
}

func runRace(e *fw.Env, cc any) error {
	c := cc.(*RaceCase)
	s := rs.NewServer(e, e.Scratch, c.Cfg)
	s.NoLimit = true // the race detector reserves a lot of address space
	s.Env = []string{"GORACE=halt_on_error=0 log_path=" + filepath.Join(e.Scratch, "race")}
	defer s.Stop()
	if c.SlowMs > 0 {
		s.Wrap = []string{"strace", "-f", "--seccomp-bpf", "-qq", "-o", "/dev/null", "-e", "trace=fsync", "-e", "inject=fsync:delay_enter=" + itoa(c.SlowMs*1000)}
		e.Label("slow fsync")
	}
	if err := s.Start(e.Shard); err != nil {
		return err
	}
	w := &rs.World{Srv: s, Model: rs.NewModel(3, ""), Raw: true}
	if err := w.Connect(len(c.Clients) + 2); err != nil {
		return err
	}
	defer w.Close()
	main := len(c.Clients)
	for i := range c.Prefill {
		c.Prefill[i].Conn = main
	}
	if err := w.Exec(c.Prefill, 200); err != nil {
		return err
	}
	end := time.Now().Add(time.Duration(c.Ms) * time.Millisecond)
	var wg sync.WaitGroup
	errs := make([]error, len(c.Clients)+1)
	counts := make([]int, len(c.Clients)+1)
	first := s.Mark()
	defer first.Close()
	for i := range c.Clients {
		if len(c.Clients[i]) == 0 {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			conn := w.Conns[i]
			var reqs []string
			for _, o := range c.Clients[i] {
				reqs = append(reqs, rs.Encode(absolute(o, rs.NowMs()).Strs()))
			}
			all := strings.Join(reqs, "")
			for c.LullMs > 0 && time.Now().Before(end) {
				if err := conn.Write(all); err != nil {
					errs[i] = rs.Classify(s, fmt.Sprintf("client %d", i), err)
					return
				}
				for k := range reqs {
					if _, err := conn.Recv(); err != nil {
						errs[i] = rs.Classify(s, fmt.Sprintf("client %d, command %d %s", i, k, fw.Shorts(c.Clients[i][k].Strs())), err)
						return
					}
					counts[i]++
				}
				time.Sleep(time.Duration(c.LullMs) * time.Millisecond)
			}
			for time.Now().Before(end) {
				for k, r := range reqs {
					if err := conn.Write(r); err != nil {
						errs[i] = rs.Classify(s, fmt.Sprintf("client %d, command %d", i, k), err)
						return
					}
					if _, err := conn.Recv(); err != nil {
						errs[i] = rs.Classify(s, fmt.Sprintf("client %d, command %d %s", i, k, fw.Shorts(c.Clients[i][k].Strs())), err)
						return
					}
					counts[i]++
				}
			}
		}(i)
	}
	if c.RewriteM != 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				time.Sleep(time.Duration(c.RewriteM) * time.Millisecond)
				if _, err := w.Conns[main].Do("bgrewriteaof"); err != nil {
					errs[len(c.Clients)] = rs.Classify(s, "bgrewriteaof", err)
					return
				}
				counts[len(c.Clients)]++
			}
		}()
	}
	wg.Wait()
	if err := raceReport(e.Scratch); err != nil {
		return err
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	replaced := first.Replaced()
	// a rewrite finishes
	mark := s.Mark()
	defer mark.Close()
	by := time.Now().Add(30 * time.Second)
	for !mark.Replaced() {
		if _, err := w.Conns[main+1].Do("bgrewriteaof"); err != nil {
			return rs.Classify(s, "bgrewriteaof after the load", err)
		}
		if time.Now().After(by) {
			return fw.Late("BGREWRITEAOF after the load does not finish within 30 s")
		}
		time.Sleep(3 * time.Millisecond)
	}
	if r, err := w.Conns[main+1].Do("ping"); err != nil || r.IsErr() {
		return rs.Classify(s, "ping after the load", err)
	}
	if err := raceReport(e.Scratch); err != nil {
		return err
	}
	n := 0
	for _, k := range counts[:len(c.Clients)] {
		n += k
	}
	e.LabelN("commands", n)
	e.LabelN("BGREWRITEAOF sent", counts[len(c.Clients)])
	e.Label("appendonly=%v appendfsync=%s", c.Cfg.Aof, c.Cfg.Fsync)
	if n >= 50 && replaced {
		e.NonTrivial()
	}
	return nil
}

// raceReport is a violation if the race detector has found something.
func raceReport(dir string) error {
	m, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range m {
		b, err := os.ReadFile(f)
		if err == nil && strings.Contains(string(b), "DATA RACE") {
			if len(b) > 3000 {
				b = b[:3000]
			}
			return fw.Viol("the race detector reports:\n%s", b)
		}
	}
	b, _ := os.ReadFile(filepath.Join(dir, "out.txt"))
	if strings.Contains(string(b), "DATA RACE") {
		if len(b) > 3000 {
			b = b[:3000]
		}
		return fw.Viol("the race detector reports:\n%s", b)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C33", New: func() any { return &RaceCase{} }, Gen: genRace, Run: runRace, Race: true, Workers: 12, QuickS: 35,
		Rule: "a server built with the race detector, prefilled with values of all types, 1-4 clients that run random commands of all types with deadlines on shared keys for 0.25-1.3 s while rewrites are requested every 2-50 ms or triggered automatically, or in bursts after pauses of a second, with every appendfsync setting and with appendonly off; no race report, the server answers, and a rewrite requested afterwards finishes; non-trivial: at least 50 commands and a rewrite finished during the load",
	})
}
