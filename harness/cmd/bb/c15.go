package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ConcCase is one program per client.
type ConcCase struct {
	Aof     bool
	Setup   []rs.Op
	Clients [][]ConcOp
}

type ConcOp struct {
	Op     rs.Op
	PauseU int  `json:",omitempty"` // before
	Split  int  `json:",omitempty"` // percent of the request sent first, then a pause
	Join   bool `json:",omitempty"` // sent together with the operation before it
	LagU   int  `json:",omitempty"` // pause before the replies are read
}

func (c *ConcCase) Steps() int {
	n := 0
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (c *ConcCase) Without(i, j int) any {
	n := *c
	n.Clients = nil
	k := 0
	for _, x := range c.Clients {
		var y []ConcOp
		for _, o := range x {
			if k < i || k >= j {
				y = append(y, o)
			}
			k++
		}
		n.Clients = append(n.Clients, y)
	}
	return &n
}

func genConc(t *rapid.T, tier int) any {
	c := &ConcCase{Aof: fw.Chance(t, "aof", 1, 3)}
	for _, k := range []string{"S0", "S1"} {
		c.Setup = append(c.Setup, cmd("sadd", k, "a", "b", "c", "d"))
	}
	if fw.Chance(t, "large", 1, 3) { // replies of some size
		for _, x := range [][3]string{{"sadd", "S0", "el"}, {"rpush", "L", "el"}, {"hset", "H", "fv"}, {"zadd", "Z", "zs"}} {
			o := cmd(x[0], x[1])
			o.Fill = &rs.Fill{Kind: x[2], From: 100000, N: fw.Pick(t, "setupN", []int{0, 20, 40, 200}), Pad: fw.Pick(t, "setupPad", []int{0, 0, 1000})}
			if o.Fill.N > 0 {
				c.Setup = append(c.Setup, o)
			}
		}
	}
	c.Setup = append(c.Setup, cmd("rpush", "L", "a", "b", "c", "d", "e", "f"), cmd("set", "s", "0"), cmd("hset", "H", "a", "0", "b", "0"), cmd("zadd", "Z", "1", "a", "2", "b"))
	many := 0 // further keys
	if fw.Chance(t, "keys", 1, 3) {
		many = fw.Pick(t, "manyN", []int{3, 20, 60})
		for i := 0; i < many; i++ {
			c.Setup = append(c.Setup, cmd("set", "k"+strconv.Itoa(i), "0"))
		}
	}
	someKey := func(t *rapid.T) string { return "k" + strconv.Itoa(max(many-1-fw.Uni(t, "some", 3), 0)) }
	clients := fw.Rng(t, "clients", 2, 5)
	per := 14
	if tier == 1 {
		per = 22
	}
	val := 0
	op := func(t *rapid.T) ConcOp {
		val++
		v := strconv.Itoa(val)
		el := func() string { return fw.Pick(t, "el", []string{"a", "b", "c", "d"}) }
		set := func() string { return fw.Pick(t, "set", []string{"S0", "S1"}) }
		bulk := func(name, key, kind string) rs.Op {
			o := cmd(name, key)
			o.Fill = &rs.Fill{Kind: kind, From: val * 1000, N: fw.Pick(t, "n", []int{2, 3, 30, 200}), Pad: fw.Pick(t, "pad", []int{0, 0, 50})}
			return o
		}
		var o rs.Op
		kinds := 27
		if many > 0 {
			kinds = 33
		}
		switch fw.Uni(t, "op", kinds) {
		case 27, 28:
			o = cmd("del")
			o.Fill = &rs.Fill{Kind: "el", Pre: "k", N: many}
		case 29, 30:
			o = fw.Pick(t, "manyRead", []rs.Op{cmd("get", someKey(t)), cmd("get", someKey(t)), cmd("keys", "^k"), cmd("ttl", someKey(t))})
		case 31, 32:
			o = cmd("set", someKey(t), v)
		case 0, 1:
			o = cmd("set", "s", v)
		case 2, 3:
			o = cmd("get", "s")
		case 4:
			o = cmd("sadd", set(), el(), el(), "v"+v)
		case 5:
			o = cmd("srem", set(), el(), el())
		case 6:
			o = cmd("spop", set())
		case 7:
			o = cmd("sunion", "S0", "S1")
		case 8:
			o = cmd("sinter", "S0", "S1")
		case 9:
			o = cmd("sdiff", "S0", "S1")
		case 10:
			o = cmd("scard", set())
		case 11:
			o = cmd("rpush", "L", "x"+v, "y"+v)
		case 12:
			o = bulk("rpush", "L", "el")
		case 13:
			o = cmd(fw.Pick(t, "pop", []string{"lpop", "rpop"}), "L")
		case 14:
			o = cmd("lrange", "L", "0", "-1")
		case 15:
			o = cmd("llen", "L")
		case 16:
			o = cmd("hset", "H", "a", v, "b", v, "c", v)
		case 17:
			o = cmd("hget", "H", el())
		case 18:
			o = cmd("zadd", "Z", v, "a", v, "b", v, "c")
		case 19:
			o = cmd("zrange", "Z", "0", "-1")
			o.Args[3] = fw.A("1000")
			o.Args = append(o.Args, fw.A("withscores"))
		case 20:
			o = bulk("sadd", set(), "el")
		case 21, 22:
			o = cmd("smembers", set())
		case 23:
			o = fw.Pick(t, "read", []rs.Op{cmd("hkeys", "H"), cmd("hlen", "H"), cmd("zcard", "Z"), cmd("zscore", "Z", "a"), cmd("zcount", "Z", "-1", "5"), cmd("zrangebyscore", "Z", "-inf", "+inf"), cmd("lindex", "L", "0"), cmd("keys", "*"), cmd("sismember", set(), el())})
		case 24:
			o = fw.Pick(t, "write", []rs.Op{cmd("hdel", "H", el(), el()), cmd("zrem", "Z", el(), el()), cmd("zremrangebyscore", "Z", "0", "5"), cmd("lpush", "L", "p"+v, "q"+v), bulk("zadd", "Z", "zs"), bulk("hset", "H", "fv")})
		case 25:
			o = fw.Pick(t, "key", []rs.Op{cmd("del", "s", "L"), cmd("del", set(), "H", "Z"), cmd("set", set(), v), cmd("get", "s")})
		default:
			o = cmd("zremrangebyrank", "Z", "0", "0")
			if c.Aof && fw.Chance(t, "rw", 1, 3) {
				o = cmd("bgrewriteaof")
			}
		}
		x := ConcOp{Op: o, PauseU: fw.Pick(t, "pause", []int{0, 0, 0, 20, 100, 400})}
		if fw.Chance(t, "join", 1, 4) {
			x.Join = true
		}
		if fw.Chance(t, "lag", 1, 8) {
			x.LagU = fw.Pick(t, "lagU", []int{300, 3000})
		}
		if fw.Chance(t, "split", 1, 5) {
			x.Split = fw.Rng(t, "pct", 1, 99)
		}
		return x
	}
	for i := 0; i < clients; i++ {
		c.Clients = append(c.Clients, fw.Seq(t, "prog", 3, per, op))
	}
	return c
}

type linIn struct {
	client int
	seq    int // in the program of the client, which the server must follow
	args   []string
}

type linState struct {
	m    *rs.Model
	fp   string
	next [8]int // by client
}

func fingerprint(m *rs.Model) string {
	var sb strings.Builder
	d := m.Observe(0)[0]
	var keys []string
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := d[k]
		fmt.Fprintf(&sb, "%s|%s|%s|%s|%s\n", k, v.Kind, v.Str, strings.Join(v.List, ","), strings.Join(v.Vals, ","))
	}
	return sb.String()
}

func runConc(e *fw.Env, cc any) error {
	c := cc.(*ConcCase)
	cfg := rs.Cfg{Databases: 1}
	if c.Aof {
		cfg.Aof, cfg.AofName, cfg.Fsync = true, "a.aof", "no"
	}
	w, err := rs.World0(e, cfg, max(len(c.Clients), 1))
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec(c.Setup, 8); err != nil {
		return err
	}
	var mu sync.Mutex
	var hist []porcupine.Operation
	var firstErr error
	start := time.Now()
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for i, prog := range c.Clients {
		wg.Add(1)
		go func(i int, prog []ConcOp) {
			defer wg.Done()
			<-gate
			conn := w.Conns[i]
			for k := 0; k < len(prog); {
				o := prog[k]
				n := 1
				for k+n < len(prog) && prog[k+n].Join {
					n++
				}
				if o.PauseU > 0 {
					time.Sleep(time.Duration(o.PauseU) * time.Microsecond)
				}
				req := ""
				for _, x := range prog[k : k+n] {
					req += rs.Encode(x.Op.Strs())
				}
				call := time.Since(start).Nanoseconds()
				var err error
				if cut := len(req) * o.Split / 100; cut > 0 {
					if err = conn.Write(req[:cut]); err == nil {
						time.Sleep(150 * time.Microsecond)
						err = conn.Write(req[cut:])
					}
				} else {
					err = conn.Write(req)
				}
				if o.LagU > 0 {
					time.Sleep(time.Duration(o.LagU) * time.Microsecond)
				}
				for j := 0; j < n; j++ {
					args := prog[k+j].Op.Strs()
					var r rs.Reply
					if err == nil {
						r, err = conn.Recv()
					}
					ret := time.Since(start).Nanoseconds()
					mu.Lock()
					if err != nil {
						if firstErr == nil {
							firstErr = rs.Classify(w.Srv, fmt.Sprintf("client %d: %s", i, fw.Shorts(args)), err)
						}
						mu.Unlock()
						return
					}
					hist = append(hist, porcupine.Operation{ClientId: i, Input: linIn{i, k + j, args}, Call: call, Output: r, Return: ret})
					mu.Unlock()
				}
				k += n
			}
		}(i, prog)
	}
	close(gate)
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	// the final dataset must fit as well: read it as further operations
	for k, a := range [][]string{{"get", "s"}, {"smembers", "S0"}, {"smembers", "S1"}, {"lrange", "L", "0", "-1"}, {"hget", "H", "a"}, {"hget", "H", "b"}, {"hkeys", "H"}, {"zrange", "Z", "0", "1000", "withscores"}} {
		call := time.Since(start).Nanoseconds()
		r, err := w.Conns[0].Do(a...)
		if err != nil {
			return rs.Classify(w.Srv, "reading the final dataset", err)
		}
		hist = append(hist, porcupine.Operation{ClientId: 0, Input: linIn{0, 10000 + k, a}, Call: call, Output: r, Return: time.Since(start).Nanoseconds()})
	}
	now := rs.NowMs()
	m0 := w.Model.Clone()
	model := porcupine.Model{
		Init: func() interface{} { return linState{m: m0, fp: fingerprint(m0)} },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			s := state.(linState)
			a := in.(linIn)
			if a.seq < s.next[a.client] {
				return false, state
			}
			s.next[a.client] = a.seq + 1
			m := s.m.Clone()
			if err := m.Step(&rs.Sess{}, a.args, out.(rs.Reply), now, now); err != nil {
				return false, state
			}
			return true, linState{m, fingerprint(m), s.next}
		},
		Equal: func(a, b interface{}) bool {
			x, y := a.(linState), b.(linState)
			return x.fp == y.fp && x.next == y.next
		},
		DescribeOperation: func(in, out interface{}) string {
			return fmt.Sprintf("%s -> %s", fw.Shorts(in.(linIn).args), out.(rs.Reply))
		},
	}
	overlap := 0
	sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
	var maxRet int64
	for _, h := range hist {
		if h.Call < maxRet {
			overlap++
		}
		maxRet = max(maxRet, h.Return)
	}
	switch porcupine.CheckOperationsTimeout(model, hist, 8*time.Second) {
	case porcupine.Unknown:
		return fw.ErrInconclusive
	case porcupine.Illegal:
		var sb strings.Builder
		for _, h := range hist {
			fmt.Fprintf(&sb, "\n  client %d [%6d,%6d] us: %s -> %s", h.ClientId, h.Call/1000, h.Return/1000, fw.Shorts(h.Input.(linIn).args), h.Output.(rs.Reply))
		}
		s := sb.String()
		if len(s) > 6000 {
			s = s[:6000] + "..."
		}
		return fw.Viol("the history is not linearizable:%s", s)
	}
	e.LabelN("operations", len(hist))
	e.LabelN("overlapping operations", overlap)
	if overlap >= 5 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C15", New: func() any { return &ConcCase{} }, Gen: genConc, Run: runConc, QuickS: 35,
		Rule: "2-5 concurrent clients with 3-14 (thorough 22) commands each on one shared key per type and two sets, including multi-element and multi-key commands and requests sent in two parts, with AOF rewrites in some; the history of calls and replies, and the final dataset, are checked for linearizability by porcupine against the model; non-trivial: at least 5 operations overlap an earlier one",
	})
}
