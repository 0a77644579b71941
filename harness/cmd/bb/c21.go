package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C21: deadlines across restarts and rewrites

type DeadCase struct {
	Fsync  string
	Bulk   int  // keys that make a rewrite take some time
	Heavy  bool `json:",omitempty"` // as well, lists with many elements
	Depth  int
	Phases []DeadPhase
}

type DeadPhase struct {
	WaitMs int // before the phase
	// Mass: so many keys with one deadline, of which not all can be removed when it passes
	Mass int `json:",omitempty"`
	Ops  []rs.Op
	// Then: a rewrite ("bgrewriteaof" sent AtMs after the next deadline, or at once) and a restart.
	Rewrite bool
	During  []rs.Op `json:",omitempty"` // while the rewrite runs
	Await   bool    // wait for the end of the rewrite
	AtNext  bool    // at the time of the next deadline (if within 2.5 s) instead of at once
	OffMs   int
	Restart int // signal, 0: none
	DownMs  int
}

func (c *DeadCase) Steps() int {
	n := 0
	for _, p := range c.Phases {
		n += len(p.Ops) + len(p.During)
	}
	return n
}

func (c *DeadCase) Without(i, j int) any {
	n := *c
	n.Phases = nil
	k := 0
	for _, p := range c.Phases {
		q := p
		q.Ops, q.During = nil, nil
		for x, o := range append(append([]rs.Op{}, p.Ops...), p.During...) {
			if k < i || k >= j {
				if x < len(p.Ops) {
					q.Ops = append(q.Ops, o)
				} else {
					q.During = append(q.During, o)
				}
			}
			k++
		}
		n.Phases = append(n.Phases, q)
	}
	return &n
}

func genDead(t *rapid.T, tier int) any {
	c := &DeadCase{Fsync: fw.Pick(t, "fsync", []string{"no", "everysec", "always"}), Depth: fw.Pick(t, "depth", []int{1, 5, 40})}
	c.Bulk = fw.Pick(t, "bulk", []int{0, 0, 500, 3000})
	n, ops := fw.Rng(t, "phases", 2, 3), 50
	if tier == 1 {
		n, ops = fw.Rng(t, "phases", 2, 6), 120
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 4), 20)
	anyKey := func() string {
		return fw.Pick(t, "key", p.Keys) + fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"})
	}
	for i := 0; i < n; i++ {
		ph := DeadPhase{}
		if i > 0 {
			ph.WaitMs = fw.Pick(t, "wait", []int{0, 0, 300, 1050, 2050})
		}
		ph.Ops = fw.Seq(t, "ops", 2, ops, func(t *rapid.T) rs.Op {
			switch fw.Uni(t, "kind", 10) {
			case 0:
				return cmd("select", itoa(fw.Uni(t, "db", 2)))
			case 1:
				return cmd("expire", anyKey(), fw.Pick(t, "far", []string{"100", "5000"}))
			case 2, 3:
				return p.GenWrite(t)
			}
			return genDeadlineOp(p, t, true)
		})
		for k := fw.Uni(t, "burst", 10); k > 0; k-- {
			ph.Ops = append(ph.Ops, cmd("expire", anyKey(), fw.Pick(t, "bsec", []string{"1", "1", "2", "3"})))
		}
		ph.Rewrite = fw.Chance(t, "rewrite", 1, 2)
		if fw.Chance(t, "during", 1, 3) { // keys of a large dataset expire and are created again while the rewrite runs
			ph.Rewrite = true
			c.Heavy = true
			sfx := []string{":s", ":h", ":l", ":S", ":z"}
			for k := fw.Rng(t, "dying", 1, 4); k > 0; k-- {
				key := fw.Pick(t, "key", p.Keys) + fw.Pick(t, "sfx", sfx)
				el := fw.Pick(t, "el", []string{"d0", "d1", "d2"})
				write := func(el string) rs.Op {
					switch key[len(key)-2:] {
					case ":s":
						return cmd("set", key, el)
					case ":h":
						return cmd("hset", key, el, "v")
					case ":l":
						return cmd("rpush", key, el)
					case ":S":
						return cmd("sadd", key, el)
					default:
						return cmd("zadd", key, "1", el)
					}
				}
				ph.Ops = append(ph.Ops, write(el), cmd("expireat", key, "@1"))
				switch fw.Uni(t, "then", 4) {
				case 0:
					ph.During = append(ph.During, cmd("ttl", key))
				case 1:
					ph.During = append(ph.During, cmd("del", key), write(el+"n"))
				default:
					ph.During = append(ph.During, write(el+"n"))
				}
			}
			ph.OffMs = fw.Rng(t, "offD", -25, 2)
		}
		ph.Await = fw.Chance(t, "await", 3, 4)
		if ph.AtNext = fw.Chance(t, "atnext", 1, 3) || ph.During != nil; ph.During == nil {
			ph.OffMs = fw.Rng(t, "off", -4, 3)
		}
		if fw.Chance(t, "restart", 3, 4) {
			ph.Restart = fw.Pick(t, "sig", []int{9, 9, 15, 2})
			ph.DownMs = fw.Pick(t, "down", []int{0, 0, 200, 1100, 2100})
		}
		if fw.Chance(t, "mass", 1, 16) {
			ph.Mass = fw.Pick(t, "massN", []int{3000, 10000, 20000})
			ph.Rewrite, ph.During, ph.Await, ph.AtNext, ph.OffMs = fw.Chance(t, "massRw", 3, 4), nil, true, true, fw.Rng(t, "massOff", 1, 10)
			ph.Restart, ph.DownMs = 9, 0
		}
		c.Phases = append(c.Phases, ph)
	}
	return c
}

// waitSure waits until no deadline is near.
func waitSure(w *rs.World) {
	for k := 0; k < 200; k++ {
		until, amb := w.Model.Ambiguous(rs.NowMs(), 60)
		if !amb {
			return
		}
		time.Sleep(time.Duration(max(until-rs.NowMs(), 1)+1) * time.Millisecond)
	}
}

func runDead(e *fw.Env, cc any) error {
	c := cc.(*DeadCase)
	w, err := rs.World0(e, rs.Cfg{Databases: 3, Aof: true, AofName: "a.aof", Fsync: c.Fsync}, 2)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if c.Bulk > 0 {
		o := cmd("set", "bulk{}", "v{}")
		o.Each = &rs.Each{N: c.Bulk}
		o.Conn = 1
		o2 := cmd("select", "2")
		o2.Conn = 1
		if err := w.Exec([]rs.Op{o2, o}, 300); err != nil {
			return err
		}
	}
	if c.Heavy {
		ops := []rs.Op{cmd("select", "2")}
		for k := 0; k < 4; k++ {
			o := cmd("rpush", "heavy"+itoa(k))
			o.Fill = &rs.Fill{Kind: "el", N: 25000}
			ops = append(ops, o)
		}
		for k := range ops {
			ops[k].Conn = 1
		}
		if err := w.Exec(ops, 5); err != nil {
			return err
		}
	}
	restarts, rewrites, died, lived, atDeadline, during, mass := 0, 0, 0, 0, 0, 0, 0
	for i, p := range c.Phases {
		time.Sleep(time.Duration(p.WaitMs) * time.Millisecond)
		if err := execTimed(w, p.Ops, c.Depth); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("phase %d (after %d restarts and %d rewrites): %s", i, restarts, rewrites, v.Msg)
			}
			return err
		}
		if p.Mass > 0 {
			o := cmd("set", "mass{}", "v", "exat", strconv.FormatInt(rs.NowMs()/1000+2, 10))
			o.Each = &rs.Each{N: p.Mass}
			o.Conn = 1
			sel := cmd("select", "2")
			sel.Conn = 1
			if err := w.Exec([]rs.Op{sel, o}, 500); err != nil {
				return err
			}
			mass++
		}
		if p.AtNext {
			if d := w.Model.NextDeadline(rs.NowMs()); d > 0 && d+int64(p.OffMs)-rs.NowMs() < 2500 {
				time.Sleep(time.Duration(d+int64(p.OffMs)-rs.NowMs()) * time.Millisecond)
				atDeadline++
			}
		}
		if p.Rewrite {
			mark := w.Srv.Mark()
			r, err := w.Conns[1].Do("bgrewriteaof")
			if err != nil {
				mark.Close()
				return rs.Classify(w.Srv, "bgrewriteaof", err)
			}
			if r.IsErr() {
				mark.Close()
				return fw.Viol("bgrewriteaof replied %s", r)
			}
			if err := execNear(w, p.During, 1, 4); err != nil {
				mark.Close()
				if v, ok := err.(*fw.Violation); ok {
					v.Msg = fmt.Sprintf("phase %d, during a rewrite: %s", i, v.Msg)
				}
				return err
			}
			if len(p.During) > 0 && !mark.Replaced() {
				during++
			}
			done := !p.Await || mark.Wait(20*time.Second)
			mark.Close()
			if !done {
				if dead, why := w.Srv.Dead(0); dead {
					return fw.Viol("phase %d: the server process ended during a rewrite: %s", i, why)
				}
				return fw.Late("phase %d: BGREWRITEAOF has not replaced the append-only file after 20 s", i)
			}
			if p.Await {
				rewrites++
			}
		}
		if p.Restart != 0 {
			n := w.Model.Keys()
			if err := w.Restart(e.Shard, signalOf(p.Restart), time.Duration(p.DownMs)*time.Millisecond); err != nil {
				return err
			}
			restarts++
			w.Model.Widen()
			waitSure(w)
			w.Model.Purge(rs.NowMs())
			died += n - w.Model.Keys()
			for _, d := range w.Model.DBs[:2] {
				for _, v := range d {
					if v.HasD {
						lived++
					}
				}
			}
			if err := w.CheckDump(fmt.Sprintf("phase %d, after restart %d (%d rewrites completed)", i, restarts, rewrites)); err != nil {
				return err
			}
		}
	}
	waitSure(w)
	if err := w.CheckDump(fmt.Sprintf("at the end (after %d restarts and %d rewrites)", restarts, rewrites)); err != nil {
		return err
	}
	// the log has one more chance to bring something back
	if err := w.Restart(e.Shard, signalOf(9), 0); err != nil {
		return err
	}
	w.Model.Widen()
	waitSure(w)
	if err := w.CheckDump(fmt.Sprintf("after a last restart (%d restarts and %d rewrites before)", restarts, rewrites)); err != nil {
		return err
	}
	e.LabelN("restarts", restarts+1)
	e.LabelN("rewrites", rewrites)
	e.LabelN("rewrites or restarts at a deadline", atDeadline)
	e.LabelN("rewrites that outlasted keys expiring and being created again", during)
	e.LabelN("thousands of keys expiring at once", mass)
	e.LabelN("keys that expired around a restart", died)
	e.LabelN("keys with a deadline alive after a restart", lived)
	sets := 0
	for _, p := range c.Phases {
		for _, o := range p.Ops {
			switch strings.ToLower(o.Args[0].Str()) {
			case "expire", "expireat", "setex":
				sets++
			}
		}
	}
	if sets >= 3 && restarts+rewrites > 0 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C21", New: func() any { return &DeadCase{} }, Gen: genDead, Run: runDead, Workers: 28, QuickS: 35,
		Rule: "2-3 (thorough 6) phases of up to 60 (130) commands of all types in two databases with deadlines in the past and 1-3, 100 and 5000 s ahead, keys being created again after they expire, each phase followed by real waiting, a rewrite and a restart (also exactly at a deadline, with up to 2.1 s of downtime, with up to 20000 keys of one deadline, and with keys expiring and being created again while the rewrite of 100000 list elements runs); replies and dataset compared with a model that knows each deadline to the millisecond, or after a restart to the second; non-trivial: at least 3 deadlines set and at least one restart or completed rewrite between phases",
	})
}
