package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C47: random picks

// PickCase changes keys and the members of sets, and draws at random in between.
type PickCase struct {
	Cfg  rs.Cfg
	Acts []PickAct
}

// PickAct: "put" makes keys From..From+N-1 of type T (with a deadline far ahead if Far), "drop" deletes them (with "lapse" they get
// a deadline in the past instead), "draw" draws keys until all have come; "sadd" and "srem" do so with the members of set Key;
// "spop" takes members out and puts them back until all have come, "drain" takes all; "db" selects another database; "rewrite"
// rewrites the log, "restart" restarts the server.
type PickAct struct {
	K    string
	T    byte `json:",omitempty"`
	Far  bool `json:",omitempty"`
	From int  `json:",omitempty"`
	N    int  `json:",omitempty"`
	Key  string
}

func (c *PickCase) Steps() int { return len(c.Acts) }
func (c *PickCase) Without(i, j int) any {
	n := *c
	n.Acts = append(append([]PickAct{}, c.Acts[:i]...), c.Acts[j:]...)
	return &n
}

const pickMax = 40 // elements a draw is done with

func genPick(t *rapid.T, tier int) any {
	c := &PickCase{Cfg: rs.Cfg{Databases: 2}}
	if fw.Chance(t, "aof", 1, 3) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", "no"
	}
	n := 14
	if tier == 1 {
		n = 40
	}
	c.Acts = fw.Seq(t, "acts", 3, n, func(t *rapid.T) PickAct {
		a := PickAct{K: fw.Pick(t, "kind", []string{"put", "put", "put", "drop", "drop", "draw", "draw", "draw", "sadd", "sadd", "srem", "spop", "spop", "drain", "db", "rewrite", "restart", "lapse", "grow", "sgrow"})}
		a.From, a.N = fw.Pick(t, "from", []int{0, 0, 1, 5, 20, 100}), fw.Pick(t, "n", []int{1, 1, 2, 3, 4, 5, 8, 16, 17, 33})
		a.Key = fw.Pick(t, "key", []string{"S0", "S1"})
		a.T = fw.Pick(t, "type", []byte("sshlSz"))
		a.Far = fw.Chance(t, "far", 1, 4)
		switch a.K {
		case "grow", "sgrow":
			a.From, a.N = 1000, fw.Pick(t, "many", []int{30, 100, 300, 1030, 2000})
		}
		return a
	})
	return c
}

type picker struct {
	e    *fw.Env
	srv  *rs.Server
	conn *rs.Conn
	db   int
	keys [2]map[string]bool
	sets [2]map[string]map[string]bool
	seen int
}

func (w *picker) pipe(reqs [][]string) ([]rs.Reply, error) {
	var out []rs.Reply
	for len(reqs) > 0 {
		n := min(len(reqs), 200)
		var sb strings.Builder
		for _, r := range reqs[:n] {
			sb.WriteString(rs.Encode(r))
		}
		reqs = reqs[n:]
		if err := w.conn.Write(sb.String()); err != nil {
			return nil, rs.Classify(w.srv, "sending", err)
		}
		for i := 0; i < n; i++ {
			r, err := w.conn.Recv()
			if err != nil {
				return nil, rs.Classify(w.srv, "reply", err)
			}
			out = append(out, r)
		}
	}
	return out, nil
}

// do sends commands that must not fail.
func (w *picker) do(reqs [][]string) error {
	rr, err := w.pipe(reqs)
	if err != nil {
		return err
	}
	for i, r := range rr {
		if r.IsErr() {
			return fw.Viol("%v replied %s", reqs[i], r)
		}
	}
	return nil
}

func pkey(i int) string { return fmt.Sprintf("key:%d", i) }
func pmem(i int) string { return fmt.Sprintf("m%d", i) }

// maxDraws: each of n elements comes with probability 4/(n+1)^2 at least when a bucket of a hash table and an element of it are
// drawn, so that one of them does not come in this many draws with probability n*e^-60 at most.
func maxDraws(n int) int { return 15 * (n + 1) * (n + 1) }

// coupon draws until all of want have come.
func (w *picker) coupon(what string, want map[string]bool, req func(k int) [][]string, pick func(k int, rr []rs.Reply) ([]rs.Reply, error)) error {
	seen := map[string]bool{}
	draws, step := 0, 8
	for len(seen) < len(want) {
		if draws > maxDraws(len(want)) {
			var miss []string
			for m := range want {
				if !seen[m] {
					miss = append(miss, m)
				}
			}
			slices.Sort(miss)
			return fw.Viol("%s: %v have not come in %d draws from %d elements", what, miss, draws, len(want))
		}
		rr, err := w.pipe(req(step))
		if err != nil {
			return err
		}
		if pick != nil {
			if rr, err = pick(step, rr); err != nil {
				return err
			}
		}
		for _, r := range rr {
			if r.Kind != '$' || r.Null || !want[r.Str] {
				return fw.Viol("%s replied %s, which is none of the %d elements", what, r, len(want))
			}
			seen[r.Str] = true
		}
		draws += step
		step = min(step*2, 1000)
	}
	w.e.LabelN("draws", draws)
	if len(want) > 1 {
		w.seen++
	}
	return nil
}

func runPick(e *fw.Env, cc any) error {
	c := cc.(*PickCase)
	srv := rs.NewServer(e, e.Scratch, c.Cfg)
	if err := srv.Start(e.Shard); err != nil {
		return err
	}
	defer srv.Stop()
	w := &picker{e: e, srv: srv}
	var err error
	if w.conn, err = srv.Dial(); err != nil {
		return rs.Classify(srv, "connecting", err)
	}
	defer func() { w.conn.Close() }()
	for i := range w.keys {
		w.keys[i], w.sets[i] = map[string]bool{}, map[string]map[string]bool{"S0": {}, "S1": {}}
	}
	for _, a := range c.Acts {
		if err := w.act(a, c.Cfg.Aof); err != nil {
			return err
		}
		e.Label("%s", a.K)
	}
	// in the end everything is drawn and taken
	for db := range w.keys {
		for _, k := range []string{"draw", "drain"} {
			for _, key := range []string{"S0", "S1"} {
				if db != w.db {
					if err := w.act(PickAct{K: "db"}, c.Cfg.Aof); err != nil {
						return err
					}
				}
				if k == "drain" || key == "S0" {
					if err := w.act(PickAct{K: k, Key: key}, c.Cfg.Aof); err != nil {
						return err
					}
				}
			}
		}
	}
	if w.seen > 0 {
		e.NonTrivial()
	}
	return nil
}

func (w *picker) act(a PickAct, aof bool) error {
	keys, sets := w.keys[w.db], w.sets[w.db]
	var reqs [][]string
	switch a.K {
	case "put":
		for i := a.From; i < a.From+a.N; i++ {
			k := pkey(i)
			reqs = append(reqs, []string{"del", k})
			switch a.T {
			case 'h':
				reqs = append(reqs, []string{"hset", k, "f", "v"})
			case 'l':
				reqs = append(reqs, []string{"rpush", k, "v"})
			case 'S':
				reqs = append(reqs, []string{"sadd", k, "v"})
			case 'z':
				reqs = append(reqs, []string{"zadd", k, "1", "v"})
			default:
				reqs = append(reqs, []string{"set", k, "v"})
			}
			if a.Far {
				reqs = append(reqs, []string{"expire", k, "100000"})
			}
			keys[k] = true
		}
		return w.do(reqs)
	case "drop", "lapse":
		for i := a.From; i < a.From+a.N; i++ {
			k := pkey(i)
			if a.K == "lapse" {
				reqs = append(reqs, []string{"expire", k, "-1"})
			} else {
				reqs = append(reqs, []string{"del", k})
			}
			delete(keys, k)
		}
		return w.do(reqs)
	case "grow":
		for _, verb := range []string{"set", "del"} {
			for i := a.From; i < a.From+a.N; i++ {
				r := []string{verb, pkey(i)}
				if verb == "set" {
					r = append(r, "v")
				}
				reqs = append(reqs, r)
			}
		}
		for i := a.From; i < a.From+a.N; i++ {
			delete(keys, pkey(i))
		}
		return w.do(reqs)
	case "sadd", "srem", "sgrow":
		add, rem := []string{"sadd", a.Key}, []string{"srem", a.Key}
		for i := a.From; i < a.From+a.N; i++ {
			add, rem = append(add, pmem(i)), append(rem, pmem(i))
			if a.K == "sadd" {
				sets[a.Key][pmem(i)] = true
			} else {
				delete(sets[a.Key], pmem(i))
			}
		}
		if a.K != "srem" {
			reqs = append(reqs, add)
		}
		if a.K != "sadd" {
			reqs = append(reqs, rem)
		}
		if len(sets[a.Key]) > 0 {
			keys[a.Key] = true
		} else {
			delete(keys, a.Key)
		}
		return w.do(reqs)
	case "draw":
		if len(keys) == 0 {
			rr, err := w.pipe([][]string{{"randomget"}})
			if err == nil && !rr[0].Null {
				err = fw.Viol("RANDOMGET replied %s, there is no key", rr[0])
			}
			return err
		}
		if len(keys) > pickMax {
			return nil
		}
		return w.coupon("RANDOMGET", keys, func(k int) [][]string { return slices.Repeat([][]string{{"randomget"}}, k) }, nil)
	case "spop":
		set := sets[a.Key]
		if len(set) == 0 || len(set) > pickMax {
			return nil
		}
		// pairs of SPOP and SADD of everything
		all := []string{"sadd", a.Key}
		for m := range set {
			all = append(all, m)
		}
		slices.Sort(all[2:])
		return w.coupon("SPOP", set, func(k int) [][]string {
			return slices.Repeat([][]string{{"spop", a.Key}, all}, min(k, 100))
		}, func(k int, rr []rs.Reply) ([]rs.Reply, error) {
			var out []rs.Reply
			for i := 0; i < len(rr); i += 2 {
				if r := rr[i+1]; r.Kind != ':' || r.Int != 1 {
					return nil, fw.Viol("SADD of all %d members after SPOP replied %s", len(set), r)
				}
				out = append(out, rr[i])
			}
			return out, nil
		})
	case "drain":
		set := sets[a.Key]
		rr, err := w.pipe(slices.Repeat([][]string{{"spop", a.Key}}, len(set)+1))
		if err != nil {
			return err
		}
		if r := rr[len(set)]; !r.Null {
			return fw.Viol("SPOP replied %s after all %d members", r, len(set))
		}
		for _, r := range rr[:len(set)] {
			if !set[r.Str] {
				return fw.Viol("SPOP replied %s, which is not a member any more", r)
			}
			delete(set, r.Str)
		}
		delete(keys, a.Key)
		rr, err = w.pipe([][]string{{"scard", a.Key}, {"get", a.Key}})
		if err == nil && (rr[0].Int != 0 || !rr[1].Null) {
			err = fw.Viol("after SPOP of all members SCARD replied %s and GET %s", rr[0], rr[1])
		}
		return err
	case "db":
		w.db = 1 - w.db
		return w.do([][]string{{"select", itoa(w.db)}})
	case "rewrite":
		if aof {
			return w.do([][]string{{"bgrewriteaof"}})
		}
	case "restart":
		if !aof {
			return nil
		}
		w.conn.Close()
		time.Sleep(20 * time.Millisecond)
		w.srv.Stop()
		if err := w.srv.Start(w.e.Shard); err != nil {
			return err
		}
		var err error
		if w.conn, err = w.srv.Dial(); err != nil {
			return rs.Classify(w.srv, "connecting", err)
		}
		return w.do([][]string{{"select", itoa(w.db)}})
	default:
		return fw.Infra("act %q", a.K)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C47", New: func() any { return &PickCase{} }, Gen: genPick, Run: runPick,
		Rule: "3-14 (thorough: 40) acts on one of two databases: keys of all types, with and without far deadlines, and members of two sets are added, removed, deleted by a deadline in the past, tables grown by up to 2000 elements and emptied again, the log rewritten, the server restarted; in between RANDOMGET is drawn until every key has come, SPOP and SADD of all members until every member has come, or a set is taken empty; at most 40 elements are drawn from, and an alarm is raised after 15(n+1)^2 draws, which a uniform choice of a non-empty bucket and of an element in it exceeds with a probability below 1e-24; every draw must be an element; non-trivial: a draw from two elements or more was completed",
	})
}
