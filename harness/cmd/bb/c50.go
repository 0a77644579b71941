package main

import (
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C50: nothing depends on how many there are

// ManyCase does a few things in large numbers.
type ManyCase struct {
	Cfg  rs.Cfg
	Acts []ManyAct
}

// ManyAct: "conns" opens N connections at once, each with a database and keys of its own, and uses them in an order given by Step;
// "keys" makes N keys of type T; "elems" adds N elements to one key, Per in one command; "take" removes elements at the ends or by name;
// "ask" reads at N places; "pipe" sends N requests before any reply is read; "value" stores and reads a value of N bytes; "dels" deletes N
// keys in one command; "dbs" selects and writes to every database; "rewrite" and "restart" follow the log.
type ManyAct struct {
	K    string
	T    string `json:",omitempty"`
	N    int    `json:",omitempty"`
	Per  int    `json:",omitempty"`
	Step int    `json:",omitempty"`
	DB   int    `json:",omitempty"`
	Mode int    `json:",omitempty"`
}

func (c *ManyCase) Steps() int { return len(c.Acts) }
func (c *ManyCase) Without(i, j int) any {
	n := *c
	n.Acts = append(append([]ManyAct{}, c.Acts[:i]...), c.Acts[j:]...)
	return &n
}

func genMany(t *rapid.T, tier int) any {
	c := &ManyCase{Cfg: rs.Cfg{Databases: fw.Pick(t, "dbs", []int{1, 2, 16, 300, 3000})}}
	if fw.Chance(t, "aof", 2, 3) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "everysec"})
	}
	big := 1
	if tier == 1 {
		big = 3
	}
	n := fw.Rng(t, "acts", 2, 6)
	for len(c.Acts) < n {
		a := ManyAct{K: fw.Pick(t, "kind", []string{"conns", "keys", "keys", "elems", "elems", "elems", "pipe", "value", "dbs", "rewrite", "restart", "dels"})}
		a.DB = fw.Uni(t, "db", c.Cfg.Databases)
		a.T = fw.Pick(t, "type", []string{"s", "h", "l", "S", "z"})
		a.Step = fw.Pick(t, "step", []int{1, 7, 997})
		a.Mode = fw.Uni(t, "mode", 4)
		switch a.K {
		case "conns":
			a.N = fw.Pick(t, "n", []int{200, 257, 600, 1030, 1500, 2500, 5000}) * big
		case "keys":
			a.N = fw.Pick(t, "n", []int{3000, 17000, 33000, 66000, 100000}) * big
			if a.T != "s" {
				a.N /= 2
			}
		case "elems":
			a.T = fw.Pick(t, "type", []string{"h", "l", "S", "z"})
			a.N = fw.Pick(t, "n", []int{5000, 20000, 40000, 66000, 140000}) * big
			a.Per = fw.Pick(t, "per", []int{100, 1000, 30000, 70000, 1 << 20})
		case "pipe":
			a.N = fw.Pick(t, "n", []int{3000, 20000, 70000, 100000}) * big
		case "value":
			a.N = fw.Pick(t, "n", []int{1 << 20, 5 << 20, 1<<24 + 1, 40 << 20})
		case "dels":
			a.N = fw.Pick(t, "n", []int{1000, 20000, 70000})
		}
		c.Acts = append(c.Acts, a)
		if a.K == "elems" && fw.Chance(t, "ask", 2, 3) {
			c.Acts = append(c.Acts, ManyAct{K: "ask", T: a.T, N: fw.Rng(t, "asks", 5, 30), DB: a.DB, Step: fw.Rng(t, "askAt", 1, 1<<20)})
			if fw.Chance(t, "take", 1, 2) {
				c.Acts = append(c.Acts, ManyAct{K: "take", T: a.T, N: fw.Pick(t, "takes", []int{1000, 10000, 66000}), DB: a.DB, Mode: fw.Uni(t, "takeMode", 4)})
			}
		}
	}
	return c
}

// big names of one database
func manyKey(typ string) string { return "many." + typ }

func each(n int, args ...string) rs.Op {
	o := rs.Cmd(args...)
	o.Each = &rs.Each{N: n}
	return o
}

func runMany(e *fw.Env, cc any) error {
	c := cc.(*ManyCase)
	w, err := rs.World0(e, c.Cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	base := w.Srv.Fds()
	large := 0
	for _, a := range c.Acts {
		e.Label("%s", a.K)
		if a.N >= 1000 {
			large++
		}
		if err := w.Exec([]rs.Op{cmd("select", itoa(a.DB))}, 1); err != nil {
			return err
		}
		var ops []rs.Op
		depth := 1000
		key := manyKey(a.T)
		switch a.K {
		case "conns":
			if err := manyConns(w, a); err != nil {
				return err
			}
			end := time.Now().Add(10 * time.Second)
			for w.Srv.Fds() > base+30 {
				if time.Now().After(end) {
					return fw.Late("%d descriptors are open 10 s after %d connections have been closed, %d before", w.Srv.Fds(), a.N, base)
				}
				time.Sleep(5 * time.Millisecond)
			}
		case "keys":
			switch a.T {
			case "h":
				ops = append(ops, each(a.N, "hset", "h{}", "f", "v{}"))
			case "l":
				ops = append(ops, each(a.N, "rpush", "l{}", "a", "v{}"))
			case "S":
				ops = append(ops, each(a.N, "sadd", "S{}", "v{}"))
			case "z":
				ops = append(ops, each(a.N, "zadd", "z{}", "{}", "m"))
			default:
				ops = append(ops, each(a.N, "set", "s{}", "v{}"))
			}
			if a.Mode == 1 {
				ops = append(ops, each(a.N/2, "expire", a.T+"{}", "100000"))
			}
			if a.Mode == 2 {
				ops = append(ops, each(a.N-a.N/8, "del", a.T+"{}"))
			}
		case "elems":
			for from := 0; from < a.N; from += a.Per {
				f := &rs.Fill{From: from, N: min(a.Per, a.N-from), Mode: a.Mode}
				name := map[string]string{"h": "hset", "l": "rpush", "S": "sadd", "z": "zadd"}[a.T]
				switch a.T {
				case "h":
					f.Kind = "fv"
				case "z":
					f.Kind = "zs"
				case "l":
					if a.Mode == 1 {
						name = "lpush"
					}
				}
				o := cmd(name, key)
				o.Fill = f
				ops = append(ops, o)
			}
			depth = 20
		case "take":
			depth = 10
			switch a.T {
			case "l":
				ops = append(ops, each(min(a.N, 20000), []string{"lpop", "rpop"}[a.Mode%2], key))
				depth = 1000
			default:
				o := cmd(map[string]string{"h": "hdel", "S": "srem", "z": "zrem"}[a.T], key)
				o.Fill = &rs.Fill{Kind: "e", From: 100, N: a.N, Pre: map[string]string{"h": "f", "S": "e", "z": "m"}[a.T]}
				if a.T == "z" && a.Mode == 1 {
					o = cmd("zremrangebyrank", key, "500", itoa(500+a.N))
				}
				if a.T == "z" && a.Mode == 2 {
					o = cmd("zremrangebyscore", key, "1", "100")
				}
				ops = append(ops, o)
			}
		case "ask":
			ops = append(ops, manyAsk(w, a, key)...)
			depth = 50
		case "pipe":
			depth = a.N
			ops = []rs.Op{each(a.N/3, "set", "p{}", "v{}"), each(a.N/3, "get", "p{}"), each(a.N/3, []string{"del", "ttl", "nosuch", "rpush"}[a.Mode], "p{}")}
			if a.Mode == 3 {
				ops[2] = each(a.N/3, "rpush", "plist", "{}")
			}
		case "value":
			v := rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("value"), {S: "v", N: a.N}}}
			if a.Mode == 1 {
				v = rs.Op{Args: []fw.Arg{fw.A("rpush"), fw.A("values"), {S: "v", N: a.N}, fw.A("w")}}
			}
			ops = []rs.Op{v, cmd("get", "value"), cmd("lrange", "values", "0", "-1")}
			depth = 1 + a.Mode%3
		case "dels":
			o := cmd("del")
			o.Fill = &rs.Fill{Kind: "e", N: a.N, Pre: a.T}
			ops = []rs.Op{o}
			depth = 1
		case "dbs":
			for i := range w.Model.DBs {
				ops = append(ops, cmd("select", itoa(i)), cmd("set", "db", itoa(i)))
				if i%100 == 99 {
					ops = append(ops, cmd("get", "db"))
				}
			}
		case "rewrite":
			if c.Cfg.Aof {
				m := w.Srv.Mark()
				if err := w.Exec([]rs.Op{cmd("bgrewriteaof")}, 1); err != nil {
					return err
				}
				ok := m.Wait(20 * time.Second)
				m.Close()
				if !ok {
					return fw.Late("a rewrite does not end within 20 s")
				}
			}
		case "restart":
			if c.Cfg.Aof {
				if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
					return err
				}
				w.Model.Widen()
				base = w.Srv.Fds()
			}
		default:
			return fw.Infra("act %q", a.K)
		}
		if err := w.Exec(ops, depth); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = a.K + ": " + v.Msg
			}
			return err
		}
	}
	if err := w.CheckDump("in the end"); err != nil {
		return err
	}
	if c.Cfg.Aof {
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		w.Model.Widen()
		if err := w.CheckDump("after a restart"); err != nil {
			return err
		}
	}
	if large > 0 {
		e.NonTrivial()
	}
	return nil
}

// manyAsk reads at places spread over the value.
func manyAsk(w *rs.World, a ManyAct, key string) (ops []rs.Op) {
	x := uint64(a.Step)
	next := func(n int) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int(x>>33) % max(n, 1)
	}
	size := 0
	if v := w.Model.DBs[a.DB][key]; v != nil {
		size = max(len(v.List), len(v.Hash), len(v.Set), len(v.Z))
	}
	for i := 0; i < a.N; i++ {
		k := next(size + size/10)
		s := strconv.Itoa(k)
		switch a.T {
		case "h":
			ops = append(ops, cmd("hget", key, "f"+s), cmd("hexists", key, "f"+s), cmd("hlen", key))
		case "l":
			ops = append(ops, cmd("lindex", key, s), cmd("lrange", key, s, itoa(k+next(40))), cmd("llen", key))
		case "S":
			ops = append(ops, cmd("sismember", key, "e"+s), cmd("scard", key))
		case "z":
			ops = append(ops, cmd("zscore", key, "m"+s), cmd("zrange", key, s, itoa(k+next(40))), cmd("zcount", key, itoa(next(300)), itoa(next(100000))))
		}
	}
	switch a.T {
	case "l":
		ops = append(ops, cmd("lrange", key, "0", "-1"))
	case "h":
		ops = append(ops, cmd("hkeys", key))
	case "S":
		ops = append(ops, cmd("smembers", key))
	case "z":
		ops = append(ops, cmd("zrangebyscore", key, "-inf", "+inf", "withscores"))
	}
	return ops
}

var (
	manyLock sync.Mutex
	manyDone = sync.NewCond(&manyLock)
	manyOpen int // connections of all workers
)

func manyConns(w *rs.World, a ManyAct) error {
	n := a.N
	// every worker's connections are open files of this process
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
		free := max(int(min(lim.Cur, 1<<20))-600, 10)
		n = min(n, free)
		manyLock.Lock()
		for manyOpen+n > free {
			manyDone.Wait()
		}
		manyOpen += n
		manyLock.Unlock()
		defer func() {
			manyLock.Lock()
			manyOpen -= n
			manyLock.Unlock()
			manyDone.Broadcast()
		}()
	}
	conns, sess := make([]*rs.Conn, n), make([]*rs.Sess, n)
	defer func() {
		for _, x := range conns {
			if x != nil {
				x.Close()
			}
		}
	}()
	for i := range conns {
		x, err := w.Srv.Dial()
		if err != nil {
			return rs.Classify(w.Srv, "connection "+itoa(i), err)
		}
		conns[i], sess[i] = x, &rs.Sess{}
	}
	at := func(k int) int { return k * a.Step % n }
	if n%a.Step == 0 {
		at = func(k int) int { return n - 1 - k }
	}
	all := func(what string, args func(i int) []string) error {
		// in two rounds: all requests, then all replies
		t0 := rs.NowMs()
		for k := 0; k < n; k++ {
			if i := at(k); conns[i] != nil {
				if err := conns[i].Send(args(i)...); err != nil {
					return rs.Classify(w.Srv, what, err)
				}
			}
		}
		for k := 0; k < n; k++ {
			i := at(k)
			if conns[i] == nil {
				continue
			}
			r, err := conns[i].Recv()
			if err != nil {
				return rs.Classify(w.Srv, what+" on connection "+itoa(i)+" of "+itoa(n), err)
			}
			if err := w.Model.Step(sess[i], args(i), r, t0, rs.NowMs()+1); err != nil {
				return prefixed(err, what+" on connection "+itoa(i)+" of "+itoa(n))
			}
		}
		return nil
	}
	dbs := len(w.Model.DBs)
	steps := []struct {
		what string
		args func(i int) []string
	}{
		{"select", func(i int) []string { return []string{"select", itoa((i + a.Mode) % dbs)} }},
		{"set", func(i int) []string {
			return []string{"set", "conn" + itoa(i), strings.Repeat("v", 1+a.Mode*500) + itoa(i)}
		}},
		{"get", func(i int) []string { return []string{"get", "conn" + itoa(i)} }},
		{"close", nil},
		{"get", func(i int) []string { return []string{"get", "conn" + itoa(i)} }},
	}
	for _, s := range steps {
		if s.args == nil {
			for i := range conns {
				if i%2 == a.Mode%2 {
					conns[i].Close()
					conns[i] = nil
				}
			}
			continue
		}
		if err := all(s.what, s.args); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C50", New: func() any { return &ManyCase{} }, Gen: genMany, Run: runMany, Workers: 6, QuickS: 35, CaseTimeout: 180 * time.Second,
		Rule: "2-6 acts in large numbers: up to 5000 connections at once, 100000 keys of a type, 140000 elements of a value (up to a million arguments in a command), 100000 requests before a reply is read, values of 40 MB, 70000 keys in one DEL, 3000 databases (thorough: three times as many of most), reads at random places and as a whole, removals, rewrites and restarts; every reply, the final dataset, and the one after a restart equal the model's; non-trivial: an act with a thousand or more",
	})
}
