package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C42: resources depend on the live data

type ChurnCase struct {
	Cfg    rs.Cfg
	Rounds int
	Acts   []Churn // what happens in every round
}

// Churn creates something and takes it away again.
type Churn struct {
	Kind  string
	N     int // elements
	Pad   int // bytes each
	Away  string
	Fresh bool // other names in every round
	Keep  bool `json:",omitempty"` // one small element stays in each hash, list, set and sorted set
	Db    int
}

func (c *ChurnCase) Steps() int { return len(c.Acts) }
func (c *ChurnCase) Without(i, j int) any {
	n := *c
	n.Acts = append(append([]Churn{}, c.Acts[:i]...), c.Acts[j:]...)
	return &n
}

// crowd is a number of keys whose table is very large. They come and go in the first and in the last round only.
const crowd = 70000

func genChurn(t *rapid.T, tier int) any {
	c := &ChurnCase{Cfg: rs.Cfg{Databases: 2}, Rounds: 8}
	if tier == 1 {
		c.Rounds = 25
	}
	if fw.Chance(t, "aof", 1, 2) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "everysec"})
	}
	c.Acts = fw.Seq(t, "acts", 1, 2, func(t *rapid.T) Churn {
		a := Churn{Kind: fw.Pick(t, "kind", []string{"keys", "keys", "hash", "list", "set", "zset", "value", "conns", "conns", "partial", "replies", "errors", "misses", "lapse", "lapse", "deadlines", "deadlines"}), Fresh: fw.Chance(t, "fresh", 1, 2), Db: fw.Uni(t, "db", 2)}
		a.N, a.Pad = fw.Pick(t, "n", []int{5000, 10000}), fw.Pick(t, "pad", []int{1000, 2000})
		switch a.Kind {
		case "hash", "set", "zset", "list":
			num := 1
			if a.Kind == "list" { // only a list has pages
				num = 2
			}
			if a.Keep = fw.Chance(t, "keep", num, num+1); a.Keep && fw.Chance(t, "few", num, num+1) {
				a.N, a.Pad = 400, 100000 // few elements, but big ones
			}
		}
		switch a.Kind {
		case "keys":
			a.Away = fw.Pick(t, "away", []string{"del", "expire", "setex"})
			a.Fresh = a.Fresh || a.Away == "setex" && fw.Chance(t, "freshSetex", 2, 3)
			if fw.Chance(t, "crowd", 1, 3) {
				a.N, a.Pad = crowd, 3
			}
		case "deadlines":
			a.Away = fw.Pick(t, "away", []string{"del", "set", "expire"})
			if fw.Chance(t, "crowd", 1, 3) {
				a.N, a.Pad = crowd, 3
			}
		case "hash", "set", "zset":
			a.Away = fw.Pick(t, "away", []string{"del", "each", "set"})
			if a.Keep {
				a.Away = "each"
			}
		case "list":
			a.Away = fw.Pick(t, "away", []string{"del", "lpop", "rpop", "set"})
			if a.Keep {
				a.Away = fw.Pick(t, "pop", []string{"rpop", "rpop", "lpop", "queue"})
			}
		case "value":
			a.N, a.Pad = 3, fw.Pick(t, "vpad", []int{1 << 20, 5 << 20})
			a.Away = fw.Pick(t, "away", []string{"del", "set"})
		case "conns":
			a.N = fw.Pick(t, "nc", []int{50, 300, 5000})
		case "partial":
			a.N, a.Pad = fw.Pick(t, "np", []int{20, 40}), fw.Pick(t, "ppad", []int{500000, 1 << 20})
		case "replies":
			a.N, a.Pad = fw.Pick(t, "nr", []int{4, 8}), 2<<20
		case "errors":
			a.Pad = 200
		case "misses":
			a.N, a.Pad = 300, 1<<17
		case "lapse":
			a.Fresh, a.Pad = true, 4000
		}
		return a
	})
	if fw.Chance(t, "pages", 1, 6) { // a page of a list that has lost all but one of its big elements
		c.Acts = []Churn{{Kind: "list", N: 400, Pad: 100000, Away: fw.Pick(t, "pagesAway", []string{"rpop", "rpop", "queue", "lpop"}), Keep: true, Fresh: true, Db: fw.Uni(t, "pagesDb", 2)}}
	}
	for i, a := range c.Acts {
		if a.Kind == "lapse" {
			c.Acts = c.Acts[i : i+1] // it waits
			break
		}
	}
	return c
}

// manyReq sends requests in batches and skips their replies, which must not be errors unless errs.
func manyReq(w *rs.World, c *rs.Conn, n int, errs bool, req func(i int) []string) error {
	const batch = 2000
	for i := 0; i < n; i += batch {
		var sb strings.Builder
		k := min(batch, n-i)
		for j := i; j < i+k; j++ {
			sb.WriteString(rs.Encode(req(j)))
		}
		if err := c.Write(sb.String()); err != nil {
			return rs.Classify(w.Srv, "sending", err)
		}
		for j := 0; j < k; j++ {
			r, err := c.Recv()
			if err != nil {
				return rs.Classify(w.Srv, fmt.Sprintf("reply to %s", fw.Shorts(req(i+j))), err)
			}
			if r.IsErr() != errs {
				return fw.Viol("%s replied %s", fw.Shorts(req(i+j)), r)
			}
		}
	}
	return nil
}

func (a Churn) name(round, index int) string {
	name := "k" + strconv.Itoa(index)
	if a.Fresh {
		name += "r" + strconv.Itoa(round)
	}
	return name
}

// remove deletes what the rounds have kept.
func (a Churn) remove(w *rs.World, c *rs.Conn, rounds, index int) error {
	if !a.Keep {
		return nil
	}
	if err := manyReq(w, c, 1, false, func(int) []string { return []string{"select", strconv.Itoa(a.Db)} }); err != nil {
		return err
	}
	return manyReq(w, c, rounds, false, func(i int) []string { return []string{"del", a.name(i, index)} })
}

// run performs one round.
func (a Churn) run(w *rs.World, c *rs.Conn, round, index int) error {
	name := a.name(round, index)
	pad := strings.Repeat("p", a.Pad)
	long := ""
	if a.Kind == "keys" || a.Kind == "deadlines" {
		long, pad = pad, "v"
	}
	el := func(i int) string { return name + ":" + strconv.Itoa(i) + pad }
	do := func(args ...string) error { return manyReq(w, c, 1, false, func(int) []string { return args }) }
	if err := do("select", strconv.Itoa(a.Db)); err != nil {
		return err
	}
	const per = 50 // elements per command
	coll := func(cmd string, each func(i int) []string) error {
		return manyReq(w, c, a.N/per, false, func(k int) []string {
			args := []string{cmd, name}
			for i := k * per; i < (k+1)*per; i++ {
				args = append(args, each(i)...)
			}
			return args
		})
	}
	away := func(cmd string) error {
		switch a.Away {
		case "del":
			return do("del", name)
		case "set":
			if err := do("set", name, "x"); err != nil {
				return err
			}
			return do("del", name)
		case "lpop", "rpop":
			return manyReq(w, c, a.N, false, func(int) []string { return []string{a.Away, name} })
		}
		return coll(cmd, func(i int) []string { return []string{el(i)} })
	}
	if a.Keep {
		anchor := map[string][]string{"hash": {"hset", name, "anchor", ""}, "list": {"rpush", name, "anchor"}, "set": {"sadd", name, "anchor"}, "zset": {"zadd", name, "0", "anchor"}}[a.Kind]
		if a.Kind != "list" || a.Fresh || round == 0 {
			if err := do(anchor...); err != nil {
				return err
			}
		}
	}
	switch a.Kind {
	case "keys":
		set := func(i int) []string { return []string{"set", name + ":" + strconv.Itoa(i) + long, pad} }
		if a.Away == "setex" {
			set = func(i int) []string { return []string{"setex", name + ":" + strconv.Itoa(i) + long, "1000", pad} }
		}
		if err := manyReq(w, c, a.N, false, set); err != nil {
			return err
		}
		return manyReq(w, c, a.N, false, func(i int) []string {
			if a.Away == "expire" {
				return []string{"expire", name + ":" + strconv.Itoa(i) + long, "-1"}
			}
			return []string{"del", name + ":" + strconv.Itoa(i) + long}
		})
	case "deadlines":
		for _, f := range []func(i int) []string{
			func(i int) []string { return []string{"setex", name + ":" + strconv.Itoa(i) + long, "5000", "v"} },
			func(i int) []string { return []string{"expire", name + ":" + strconv.Itoa(i) + long, "6000"} },
			func(i int) []string {
				switch a.Away {
				case "set":
					return []string{"set", name + ":" + strconv.Itoa(i) + long, "w"}
				case "expire":
					return []string{"expire", name + ":" + strconv.Itoa(i) + long, "0"}
				}
				return []string{"del", name + ":" + strconv.Itoa(i) + long}
			},
			func(i int) []string { return []string{"del", name + ":" + strconv.Itoa(i) + long} },
		} {
			if err := manyReq(w, c, a.N, false, f); err != nil {
				return err
			}
		}
		return nil
	case "hash":
		if err := coll("hset", func(i int) []string { return []string{el(i), pad} }); err != nil {
			return err
		}
		return away("hdel")
	case "list":
		if a.Away == "queue" { // in at the end, out at the front
			return manyReq(w, c, 2*a.N, false, func(i int) []string {
				if i%2 == 0 {
					return []string{"rpush", name, el(i)}
				}
				return []string{"lpop", name}
			})
		}
		if a.Away == "rpop" { // the anchor is at the front
			if err := coll("rpush", func(i int) []string { return []string{el(i)} }); err != nil {
				return err
			}
			return away("")
		}
		if a.Keep {
			if err := coll("lpush", func(i int) []string { return []string{el(i)} }); err != nil {
				return err
			}
			return away("")
		}
		if err := coll("rpush", func(i int) []string { return []string{el(i)} }); err != nil {
			return err
		}
		return away("")
	case "set":
		if err := coll("sadd", func(i int) []string { return []string{el(i)} }); err != nil {
			return err
		}
		return away("srem")
	case "zset":
		if err := coll("zadd", func(i int) []string { return []string{strconv.Itoa(i), el(i)} }); err != nil {
			return err
		}
		return away("zrem")
	case "value":
		for i := 0; i < a.N; i++ {
			if err := do("set", name, pad+strconv.Itoa(i)); err != nil {
				return err
			}
		}
		return away("")
	case "lapse": // nothing but the passage of time removes them
		if err := manyReq(w, c, a.N, false, func(i int) []string { return []string{"setex", name + ":" + strconv.Itoa(i), "1", pad} }); err != nil {
			return err
		}
		time.Sleep(1300 * time.Millisecond)
		return nil
	case "misses": // of keys that do not exist, with long names
		return manyReq(w, c, a.N, false, func(i int) []string {
			long := pad + strconv.Itoa(i)
			return [][]string{{"get", long}, {"del", long}, {"ttl", long}, {"expire", long, "100"}, {"llen", long}, {"lpop", long}, {"hget", long, long}, {"hdel", long, "f"}, {"srem", long, "x"}, {"smembers", long}, {"zscore", long, "m"}, {"zrem", long, "m"}, {"keys", "a" + long}, {"sunion", long, "b" + long}}[i%14]
		})
	case "errors":
		return manyReq(w, c, a.N/2, true, func(i int) []string { return []string{"nosuch" + strconv.Itoa(i), pad} })
	case "conns", "partial", "replies":
		if a.Kind == "replies" {
			if err := do("set", name, pad); err != nil {
				return err
			}
		}
		for i := 0; i < a.N; i++ {
			x, err := w.Srv.Dial()
			if err != nil {
				return rs.Classify(w.Srv, "connecting", err)
			}
			switch a.Kind {
			case "conns":
				_, err = x.Do("ping")
			case "partial": // most of a request
				err = x.Write("*3\r\n$3\r\nset\r\n$1\r\na\r\n$" + strconv.Itoa(a.Pad+10) + "\r\n" + pad)
			case "replies": // nobody reads them
				var sb strings.Builder
				sb.WriteString(rs.Encode([]string{"select", strconv.Itoa(a.Db)}))
				for k := 0; k < 5; k++ {
					sb.WriteString(rs.Encode([]string{"get", name}))
				}
				err = x.Write(sb.String())
			}
			if err == nil && i%2 == 0 {
				_, err = c.Do("ping") // the request is being executed
			}
			if i%3 == 0 || a.N > 1000 && i%20 != 0 { // a reset connection occupies no port
				x.Reset()
			} else {
				x.Close()
			}
			if err != nil {
				return rs.Classify(w.Srv, "short connection", err)
			}
		}
		if a.Kind == "replies" {
			return do("del", name)
		}
	}
	return nil
}

// rss is the resident memory of a process in bytes.
func rss(pid int) int64 {
	b, _ := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// idleCPU is the share of a processor that a process uses during a short time.
func idleCPU(pid int) float64 {
	ticks := func() int64 {
		b, _ := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
		f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
		if len(f) < 13 {
			return 0
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		return u + s
	}
	t, n := time.Now(), ticks()
	time.Sleep(300 * time.Millisecond)
	return float64(ticks()-n) / 100 / time.Since(t).Seconds()
}

func runChurn(e *fw.Env, cc any) error {
	c := cc.(*ChurnCase)
	w, err := rs.World0(e, c.Cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	conn := w.Conns[0]
	if err := manyReq(w, conn, 1, false, func(int) []string { return []string{"setex", "kept", "50000", "value"} }); err != nil {
		return err
	}
	fds := w.Srv.Fds()
	model := rs.NewModel(2, "")
	model.Apply(&rs.Sess{}, []string{"setex", "kept", "50000", "value"}, rs.NowMs())
	idle := idleCPU(w.Srv.ServerPid())
	const warm = 3
	var peak int64
	var logSize int64
	var rewritten bool
	for r := 0; r < c.Rounds; r++ {
		for i, a := range c.Acts {
			if a.N == crowd && r > 0 && r < c.Rounds-1 {
				continue
			}
			if err := a.run(w, conn, r, i); err != nil {
				return err
			}
		}
		if r == c.Rounds-1 {
			for i, a := range c.Acts {
				if err := a.remove(w, conn, c.Rounds, i); err != nil {
					return err
				}
			}
		}
		if c.Cfg.Aof {
			// passed deadlines are noticed by the background expiry or by reading all keys
			for _, db := range []string{"1", "0"} {
				if c.Acts[0].Kind == "lapse" && r < c.Rounds-1 {
					break // it is about the background
				}
				if err := manyReq(w, conn, 1, false, func(int) []string { return []string{"select", db} }); err != nil {
					return err
				}
				if _, err := conn.Do("keys", "*"); err != nil {
					return rs.Classify(w.Srv, "keys", err)
				}
			}
			m := w.Srv.Mark()
			if _, err := conn.Do("bgrewriteaof"); err != nil {
				m.Close()
				return rs.Classify(w.Srv, "BGREWRITEAOF", err)
			}
			ok := m.Wait(rs.ReplyTimeout)
			m.Close()
			if !ok {
				return fw.Late("rewrite %d does not finish", r)
			}
			rewritten = true
			logSize = w.Srv.AofSize()
		}
		m := rss(w.Srv.ServerPid())
		if r < warm {
			peak = max(peak, m)
		} else if grown := m - peak; grown > 60<<20 && grown > peak/2 {
			// the collector may be behind: the same work once more must not add to it
			time.Sleep(200 * time.Millisecond)
			if m = rss(w.Srv.ServerPid()); m-peak > 60<<20 && m-peak > peak/2 {
				return fw.Late("memory grows although everything is removed again: at most %d MB in the first %d rounds, %d MB after round %d of %+v", peak>>20, warm, m>>20, r, c.Acts)
			}
		}
	}
	for k := 0; ; k++ {
		now := idleCPU(w.Srv.ServerPid())
		if now < 0.4 || now < 5*idle {
			break
		}
		if k == 8 {
			return fw.Late("the idle server uses %.0f %% of a processor after everything was removed again, %.0f %% at first, after %+v", now*100, idle*100, c.Acts)
		}
	}
	if rewritten {
		if logSize > 300 {
			return fw.Viol("the rewritten log of one small key has %d bytes after everything else was removed", logSize)
		}
		if t := tempFiles(e.Scratch); len(t) > 0 {
			time.Sleep(50 * time.Millisecond)
			if t = tempFiles(e.Scratch); len(t) > 0 {
				return fw.Viol("temporary files left after all rewrites had finished: %v", t)
			}
		}
	}
	for k := 0; ; k++ {
		n := w.Srv.Fds()
		if n <= fds {
			break
		}
		if k > 100 {
			return fw.Viol("the server has %d descriptors open, %d at first", n, fds)
		}
		time.Sleep(10 * time.Millisecond)
	}
	for _, db := range []string{"0", "1"} {
		if _, err := conn.Do("select", db); err != nil {
			return rs.Classify(w.Srv, "select", err)
		}
		r, err := conn.Do("keys", "*")
		if err != nil {
			return rs.Classify(w.Srv, "keys", err)
		}
		want := "[]"
		if db == "0" {
			want = `["kept"]`
		}
		if r.String() != want {
			return fw.Viol("at the end KEYS in database %s replied %s", db, r)
		}
	}
	if c.Cfg.Aof {
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		d, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(model.Observe(rs.NowMs()), d, rs.DiffOpts{Tol: 2100, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("after a restart: %s", diff)
		}
	}
	for _, a := range c.Acts {
		e.Label("%s", a.Kind)
	}
	e.NonTrivial()
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C42", New: func() any { return &ChurnCase{} }, Gen: genChurn, Run: runChurn, QuickS: 35, CaseTimeout: 180e9,
		Rule: "8 (thorough 25) rounds of 1-2 kinds of churn: 5000-10000 keys of 1-2 kB, keys whose second is over, deadlines, hash fields, list, set or sorted-set elements, errors or commands on missing keys with names of 128 kB, values of 1-5 MB, 50-5000 connections, 20-40 requests of up to 1 MB never completed, up to 80 MB of replies never read; everything is removed again in each round, but for one element of some collections, with a rewrite if appendonly is on; after three rounds the resident memory must not grow by more than half and 60 MB; at the end no descriptors, temporary files, keys or log records may be left; non-trivial: every case",
	})
}
