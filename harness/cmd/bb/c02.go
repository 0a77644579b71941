package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C02: hostile bytes

// Hostile is one connection that sends chunks of bytes and ends in some way.
type Hostile struct {
	Chunks []fw.Arg
	PauseU int
	End    int // 0 close, 1 half-close, 2 reset, 3 stay open
	Read   bool
}

type HostileCase struct {
	Aof   bool
	Pass  bool
	Setup []rs.Op
	Conns []Hostile
}

func (c *HostileCase) Steps() int {
	n := len(c.Setup)
	for _, h := range c.Conns {
		n += len(h.Chunks)
	}
	return n
}

func (c *HostileCase) Without(i, j int) any {
	n := *c
	n.Setup, n.Conns = nil, nil
	k := 0
	keep := func() bool { k++; return k-1 < i || k-1 >= j }
	for _, o := range c.Setup {
		if keep() {
			n.Setup = append(n.Setup, o)
		}
	}
	for _, h := range c.Conns {
		g := h
		g.Chunks = nil
		for _, x := range h.Chunks {
			if keep() {
				g.Chunks = append(g.Chunks, x)
			}
		}
		if len(g.Chunks) > 0 || len(h.Chunks) == 0 {
			n.Conns = append(n.Conns, g)
		}
	}
	return &n
}

var hostileNums = []string{"0", "1", "2", "3", "-1", "-2", "-3", "-0", "+1", "", "abc", "1.5", "1e3", " 1", "1 ", "0x10", "nan", "NaN", "inf", "-inf", "(1", "63", "64", "100",
	"511", "512", "513", "1023", "1024", "1025", "1048576", "1048577", "536870912", "536870913", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775806", "9223372036854775808", "-9223372036854775808", "-9223372036854775807", "18446744073709551615", "18446744073709551616",
	"1e308", "1e309", "-1e309", "4611686018427387904", "9223372036854775", "9223372036854776", "4611686018427388", "99999999999999999999999999", "\x00", "1\r", "1\x00"}

// hostileCommand is a well-formed request whose arguments are extreme.
func hostileCommand(t *rapid.T) string {
	name := fw.Pick(t, "name", rs.Commands)
	if fw.Chance(t, "unknown", 1, 20) {
		name = fw.Pick(t, "odd", []string{"", "del", "DEL", "quit", "\x00", "get\x00", "flushall", "\r\n", " ", "*1"})
	}
	n := rs.Arity(name)
	if n < 0 {
		n = -n + fw.Pick(t, "more", []int{0, 0, 0, 1, 2, 3})
	}
	if n == 0 {
		n = 1
	}
	switch fw.Uni(t, "arity", 12) {
	case 0:
		n++
	case 1:
		n--
	}
	var args []string
	if n > 0 {
		args = append(args, name)
	}
	for i := 1; i < n; i++ {
		switch k := fw.Uni(t, "argk", 10); {
		case i == 1 && k < 8:
			args = append(args, fw.Pick(t, "key", []string{"ks", "kh", "kl", "kS", "kz", "kbig", "none", ""}))
		case k < 7:
			args = append(args, fw.Pick(t, "num", hostileNums))
		default:
			args = append(args, rs.GenArg(t, "arg", false).Str())
		}
	}
	return rs.Encode(args)
}

func hostileBytes(t *rapid.T) fw.Arg {
	a := func(s string) fw.Arg { return fw.A(s) }
	crlf := func() string {
		return fw.Pick(t, "crlf", []string{"\r\n", "\r\n", "\r\n", "\n", "\r", "", "\r\n\r\n", "\n\r"})
	}
	switch fw.Uni(t, "hk", 17) {
	case 0, 1, 2, 3, 4:
		return a(hostileCommand(t))
	case 5:
		return a("*" + fw.Pick(t, "n", hostileNums) + crlf())
	case 6:
		return a("*" + fw.Pick(t, "n", []string{"1", "2", "3"}) + "\r\n$" + fw.Pick(t, "n2", hostileNums) + crlf() + fw.Word(t, "w", 0, 5) + crlf())
	case 7:
		return a("$" + fw.Pick(t, "n", hostileNums) + crlf() + fw.Word(t, "w", 0, 5) + crlf())
	case 8:
		return a(fw.Bytes(t, "raw", 1, 60))
	case 9:
		return a(fw.Pick(t, "ctl", []string{"\r\n", "\n", "\r", "\x00", "*", "$", "*\r\n", "$\r\n", "*\n", "\r\n\r\n\r\n", "+OK\r\n", ":1\r\n", "-ERR x\r\n", " \r\n", "  \r\n", "x\r\n", "xx\r\n", "*-1\r\n", "$-1\r\n", "*0\r\n", "$0\r\n", "$0\r\n\r\n"}))
	case 10:
		return fw.Arg{S: fw.B(fw.Pick(t, "rep", []string{"a", "\x00", "\r", "\n", "*", "$", " ", "1", "*1\r\n", "$1\r\n", "\r\n", "a b "})), N: fw.Pick(t, "len", []int{100, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000, 200000})}
	case 11: // truncated
		s := hostileCommand(t)
		return a(s[:fw.Uni(t, "cut", len(s)+1)])
	case 12, 13: // mutated
		b := []byte(hostileCommand(t))
		for k := fw.Rng(t, "muts", 1, 3); k > 0 && len(b) > 0; k-- {
			p := fw.Uni(t, "pos", len(b))
			switch fw.Uni(t, "mut", 4) {
			case 0:
				b = append(b[:p:p], b[p+1:]...)
			case 1:
				b = append(b[:p:p], append([]byte{fw.Pick(t, "ins", []byte("\r\n*$0123456789-\x00a"))}, b[p:]...)...)
			case 2:
				b[p] = fw.Byte(t, "byte")
			default:
				q := fw.Rng(t, "dup", p, len(b))
				b = append(b[:q:q], b[p:]...)
			}
			if len(b) > 4000 {
				break
			}
		}
		return a(string(b))
	case 14: // inline
		return a(fw.Pick(t, "inl", []string{"ping", "xping", " ping", "xget ks", "get ks", "xset a b", "xlrange kl 0 -1", "xrpush kl", "x", "xselect -1", " lindex kl 99999999999999999999", "a  b"}) + crlf())
	case 15: // a big argument of which only a part follows
		return fw.Arg{S: fw.B("*3\r\n$3\r\nset\r\n$1\r\na\r\n$" + fw.Pick(t, "bl", []string{"100000", "4096", "5000", "1"}) + "\r\n" + strings.Repeat("z", fw.Pick(t, "part", []int{0, 1, 4095, 4096, 99999})))}
	default: // many requests at once
		s := hostileCommand(t)
		return fw.Arg{S: fw.B(s), N: min(len(s)*fw.Pick(t, "times", []int{2, 10, 100}), 60000)}
	}
}

const (
	ctlKey = "ctl:7Jq2vXw9LrBt5Zd1"
	ctlDB  = "3"
)

func genHostile(t *rapid.T, tier int) any {
	c := &HostileCase{Aof: fw.Chance(t, "aof", 1, 3), Pass: fw.Chance(t, "pass", 1, 10)}
	for _, o := range []rs.Op{cmd("set", "ks", "v"), cmd("hset", "kh", "f", "v", "g", "w"), cmd("rpush", "kl", "a", "b", "c"), cmd("sadd", "kS", "a", "b", "c"), cmd("zadd", "kz", "1", "a", "2", "b", "2", "c")} {
		if fw.Chance(t, "setup", 4, 5) {
			c.Setup = append(c.Setup, o)
		}
	}
	if fw.Chance(t, "bigl", 1, 2) {
		kind := fw.Pick(t, "kind", []string{"rpush", "sadd", "zadd", "hset"})
		o := cmd(kind, "kbig")
		f := map[string]string{"zadd": "zs", "hset": "fv"}[kind]
		if f == "" {
			f = "el"
		}
		o.Fill = &rs.Fill{Kind: f, N: fw.Pick(t, "bn", []int{64, 130, 513, 1025, 2100})}
		c.Setup = append(c.Setup, o)
	}
	max := 10
	if tier == 1 {
		max = 30
	}
	c.Conns = fw.Seq(t, "conns", 1, 5, func(t *rapid.T) Hostile {
		return Hostile{
			Chunks: fw.Seq(t, "chunks", 1, max, hostileBytes),
			PauseU: fw.Pick(t, "pause", []int{0, 0, 300, 1500}),
			End:    fw.Uni(t, "end", 4),
			Read:   fw.Chance(t, "read", 1, 2),
		}
	})
	return c
}

func runHostile(e *fw.Env, cc any) error {
	c := cc.(*HostileCase)
	cfg := rs.Cfg{Databases: 4}
	if c.Pass {
		cfg.Pass = "secret"
	}
	if c.Aof {
		cfg.Aof, cfg.AofName, cfg.Fsync = true, "a.aof", "no"
	}
	w, err := rs.World0(e, cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	ctl := w.Conns[0]
	want := func(what string, exp string, args ...string) error {
		r, err := ctl.Do(args...)
		if err != nil {
			return rs.Classify(w.Srv, what, err)
		}
		if got := r.String(); got != exp {
			return fw.Viol("%s: %s replied %s, expected %s", what, fw.Shorts(args), got, exp)
		}
		return nil
	}
	if c.Pass {
		if err := want("authenticating", "+\"OK\"", "auth", "secret"); err != nil {
			return err
		}
		w.Sess[0].Auth = true
	}
	if err := w.Exec(c.Setup, 1); err != nil {
		return err
	}
	for _, a := range [][]string{{"select", ctlDB}, {"set", ctlKey, "value\r\n1"}} {
		if err := want("preparing", "+\"OK\"", a...); err != nil {
			return err
		}
	}
	if err := want("preparing", ":3", "rpush", ctlKey+"l", "x", "y", "z"); err != nil {
		return err
	}
	check := func(what string) error {
		if err := want(what, rs.Reply{Kind: '$', Str: "value\r\n1"}.String(), "get", ctlKey); err != nil {
			return err
		}
		return want(what, `["x" "y" "z"]`, "lrange", ctlKey+"l", "0", "-1")
	}
	errs, closed := 0, 0
	var open []*rs.Conn
	defer func() {
		for _, o := range open {
			o.Close()
		}
	}()
	for i, h := range c.Conns {
		what := fmt.Sprintf("hostile connection %d", i)
		hc, err := w.Srv.Dial()
		if err != nil {
			return rs.Classify(w.Srv, what+": connecting", err)
		}
		open = append(open, hc)
		for _, ch := range h.Chunks {
			_ = hc.C.SetWriteDeadline(time.Now().Add(rs.ReplyTimeout))
			if _, err := hc.C.Write([]byte(ch.Str())); err != nil {
				break // the server may close the connection
			}
			if h.PauseU > 0 {
				time.Sleep(time.Duration(h.PauseU) * time.Microsecond)
			}
		}
		if h.Read {
			for k := 0; k < 200; k++ {
				_ = hc.C.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
				r, err := rs.ReadReply(hc.BR)
				if err != nil {
					if !strings.Contains(err.Error(), "timeout") {
						closed++
					}
					break
				}
				if r.IsErr() {
					errs++
				}
			}
		}
		switch h.End {
		case 0:
			hc.Close()
		case 1:
			hc.CloseWrite()
		case 2:
			hc.Reset()
		}
		if err := check("control connection after " + what); err != nil {
			return err
		}
	}
	// a fresh connection is served, and everything hostile requests may have stored can still be read
	nc, err := w.Srv.Dial()
	if err != nil {
		return rs.Classify(w.Srv, "connecting after the hostile connections", err)
	}
	defer nc.Close()
	if c.Pass {
		if _, err := nc.Do("auth", "secret"); err != nil {
			return rs.Classify(w.Srv, "new connection", err)
		}
	}
	if r, err := nc.Do("ping"); err != nil || r.Str != "PONG" {
		if err != nil {
			return rs.Classify(w.Srv, "PING on a new connection after the hostile ones", err)
		}
		return fw.Viol("PING on a new connection after the hostile ones was answered by %s", r)
	}
	// requests of the hostile connections may still be executing while the dataset is read
	for k := 0; ; k++ {
		if _, err = rs.TakeDump(w.Srv, nc, 4); err == nil {
			break
		}
		if dead, _ := w.Srv.Dead(0); dead || k >= 12 {
			return err
		}
		time.Sleep(time.Duration(10+k*40) * time.Millisecond)
	}
	if err := check("control connection at the end"); err != nil {
		return err
	}
	time.Sleep(3 * time.Millisecond) // let the cron run
	if dead, why := w.Srv.Dead(0); dead {
		return fw.Viol("the server process ended after the hostile connections: %s", why)
	}
	e.LabelN("error replies seen", errs)
	e.LabelN("connections closed by the server", closed)
	n := 0
	for _, h := range c.Conns {
		n += len(h.Chunks)
	}
	e.LabelN("chunks", n)
	if n >= 3 {
		e.NonTrivial()
	}
	return nil
}

// ---- C03: one well-formed reply per request, bytes come back

type ReplyCase struct {
	Depth int
	Setup []rs.Op
	Ops   []rs.Op  // arbitrary requests, one reply each
	Trips []fw.Arg // values for round trips
	// TripDepth is the number of requests sent at once in round trips, 0 for all.
	TripDepth int `json:",omitempty"`
}

func (c *ReplyCase) Steps() int { return len(c.Ops) + len(c.Trips) }
func (c *ReplyCase) Without(i, j int) any {
	n := *c
	n.Ops, n.Trips = nil, nil
	for k, o := range c.Ops {
		if k < i || k >= j {
			n.Ops = append(n.Ops, o)
		}
	}
	for k, o := range c.Trips {
		if k+len(c.Ops) < i || k+len(c.Ops) >= j {
			n.Trips = append(n.Trips, o)
		}
	}
	return &n
}

func genReply(t *rapid.T, tier int) any {
	c := &ReplyCase{Depth: fw.Pick(t, "depth", []int{1, 3, 20})}
	p := rs.NewPools(t, 2, 130)
	max := 40
	if tier == 1 {
		max = 200
	}
	odd := func() fw.Arg {
		if fw.Chance(t, "hn", 1, 4) {
			return fw.A(fw.Pick(t, "num", hostileNums))
		}
		return rs.GenArg(t, "arg", true)
	}
	c.Ops = fw.Seq(t, "ops", 0, max, func(t *rapid.T) rs.Op {
		switch k := fw.Uni(t, "kind", 10); {
		case k < 3:
			return p.GenAny(t)
		case k < 8: // a known command with arbitrary arguments
			name := fw.Pick(t, "name", rs.Commands)
			for name == "bgrewriteaof" || name == "select" {
				name = fw.Pick(t, "name", rs.Commands)
			}
			n := rs.Arity(name)
			if n < 0 {
				n = -n + fw.Uni(t, "more", 4)
			}
			o := cmd(name)
			for i := 1; i < n; i++ {
				switch {
				case i == 1 && fw.Chance(t, "key", 2, 3):
					o.Args = append(o.Args, fw.A(fw.Pick(t, "k", p.Keys)+fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"})))
				case fw.Chance(t, "numarg", 1, 3):
					o.Args = append(o.Args, fw.A(itoa(fw.Rng(t, "small", -2, 9))))
				default:
					o.Args = append(o.Args, odd())
				}
			}
			return o
		default:
			o := rs.Op{Args: []fw.Arg{odd()}}
			for k := fw.Uni(t, "n", 3); k > 0; k-- {
				o.Args = append(o.Args, odd())
			}
			return o
		}
	})
	c.Trips = fw.Seq(t, "trips", 1, 8, func(t *rapid.T) fw.Arg {
		if fw.Chance(t, "mid", 1, 3) {
			return fw.Arg{S: fw.B(fw.Word(t, "midw", 1, 7)), N: fw.Rng(t, "midn", 200, 4100)}
		}
		return rs.GenArg(t, "trip", true)
	})
	c.TripDepth = fw.Pick(t, "tripDepth", []int{0, 1, 1, 4})
	return c
}

func runReply(e *fw.Env, cc any) error {
	c := cc.(*ReplyCase)
	s := rs.NewServer(e, e.Scratch, rs.Cfg{Databases: 2})
	if err := s.Start(e.Shard); err != nil {
		s.Stop()
		return err
	}
	defer s.Stop()
	conn, err := s.Dial()
	if err != nil {
		return rs.Classify(s, "connecting", err)
	}
	defer conn.Close()
	special := false
	for i := 0; i < len(c.Ops); i += max(c.Depth, 1) {
		j := min(i+max(c.Depth, 1), len(c.Ops))
		var sb strings.Builder
		for k := i; k < j; k++ {
			sb.WriteString(rs.Encode(c.Ops[k].Strs()))
			sb.WriteString(rs.Encode([]string{fmt.Sprintf("no-such-%d", k)}))
			sb.WriteString(rs.Encode([]string{"ping"}))
		}
		if err := conn.Write(sb.String()); err != nil {
			return rs.Classify(s, "sending", err)
		}
		for k := i; k < j; k++ {
			what := fmt.Sprintf("operation %d %s", k, fw.Shorts(c.Ops[k].Strs()))
			r, err := conn.Recv()
			if err != nil {
				return rs.Classify(s, what, err)
			}
			if r.IsErr() {
				e.Label("error replies")
			}
			for n, want := range []byte{'-', '+'} {
				r2, err := conn.Recv()
				if err != nil {
					return rs.Classify(s, what+": sentinel requests after it", err)
				}
				if r2.Kind != want || (n == 1 && r2.Str != "PONG") {
					return fw.Viol("%s replied %s, and then %s where the reply to sentinel request %d (an unknown command, then PING) was expected: not exactly one reply per request", what, r, r2, n+1)
				}
			}
			for _, a := range c.Ops[k].Strs() {
				if strings.ContainsAny(a, "\r\n\x00") || a == "" || len(a) > 4000 {
					special = true
				}
			}
		}
	}
	if r, err := conn.Do("select", "1"); err != nil || !r.IsOK() {
		if err != nil {
			return rs.Classify(s, "select 1", err)
		}
		return fw.Viol("select 1 replied %s", r)
	}
	for i, tr := range c.Trips {
		v := tr.Str()
		if strings.ContainsAny(v, "\r\n\x00") || v == "" || len(v) > 4000 {
			special = true
		}
		if err := roundTrip(s, conn, i, v, c.TripDepth); err != nil {
			return err
		}
	}
	// what was stored long ago is still the same, for this client and for another
	fresh, err := s.Dial()
	if err != nil {
		return rs.Classify(s, "connecting", err)
	}
	defer fresh.Close()
	if r, err := fresh.Do("select", "1"); err != nil || !r.IsOK() {
		if err != nil {
			return rs.Classify(s, "select 1", err)
		}
		return fw.Viol("select 1 replied %s", r)
	}
	for i, tr := range c.Trips {
		for k, cn := range []*rs.Conn{conn, fresh} {
			if err := runSteps(s, cn, fmt.Sprintf("reading again, connection %d, %s", k, fw.Short(tr.Str())), kept(i, tr.Str())[5:], c.TripDepth); err != nil {
				return err
			}
		}
	}
	if special && len(c.Ops)+len(c.Trips) >= 3 {
		e.NonTrivial()
	}
	e.LabelN("requests", len(c.Ops))
	e.LabelN("round trips", len(c.Trips))
	return nil
}

func bulk(x string) func(rs.Reply) bool {
	return func(r rs.Reply) bool { return r.Kind == '$' && !r.Null && r.Str == x }
}

func arr(xs ...string) func(rs.Reply) bool {
	return func(r rs.Reply) bool {
		if r.Kind != '*' || len(r.Arr) != len(xs) {
			return false
		}
		for i, x := range xs {
			if !bulk(x)(r.Arr[i]) {
				return false
			}
		}
		return true
	}
}

func num(n int64) func(rs.Reply) bool {
	return func(r rs.Reply) bool { return r.Kind == ':' && r.Int == n }
}

func isOK(r rs.Reply) bool { return r.IsOK() }

func contains(x string) func(rs.Reply) bool {
	return func(r rs.Reply) bool {
		for _, a := range r.Arr {
			if a.Str == x {
				return true
			}
		}
		return false
	}
}

type tripStep struct {
	args []string
	ok   func(rs.Reply) bool
}

// kept stores v under keys that are not used otherwise (5 steps), and then reads it.
func kept(i int, v string) []tripStep {
	k := "KEEP:" + itoa(i)
	return []tripStep{
		{[]string{"set", k + "s", v}, isOK},
		{[]string{"hset", k + "h", v, v}, num(1)},
		{[]string{"rpush", k + "l", v, "x", v}, num(3)},
		{[]string{"sadd", k + "S", v}, num(1)},
		{[]string{"zadd", k + "z", "3", v}, num(1)},
		{[]string{"get", k + "s"}, bulk(v)},
		{[]string{"hget", k + "h", v}, bulk(v)},
		{[]string{"hkeys", k + "h"}, arr(v)},
		{[]string{"lrange", k + "l", "0", "-1"}, arr(v, "x", v)},
		{[]string{"smembers", k + "S"}, arr(v)},
		{[]string{"sismember", k + "S", v}, num(1)},
		{[]string{"zrange", k + "z", "0", "5"}, arr(v)},
		{[]string{"keys", "*"}, contains(k + "s")},
	}
}

// roundTrip stores v in every role and reads it with every command that returns it.
func roundTrip(s *rs.Server, c *rs.Conn, i int, v string, depth int) error {
	k := "RT:" + itoa(i)
	steps := []tripStep{
		{[]string{"set", k + "s", v}, isOK}, {[]string{"get", k + "s"}, bulk(v)},
		{[]string{"setex", k + "x", "1000", v}, isOK}, {[]string{"get", k + "x"}, bulk(v)},
		{[]string{"set", v, "kv"}, isOK}, {[]string{"get", v}, bulk("kv")}, {[]string{"keys", "*"}, contains(v)},
		{[]string{"hset", k + "h", v, "w"}, num(1)}, {[]string{"hset", k + "h", v, v}, num(0)},
		{[]string{"hget", k + "h", v}, bulk(v)}, {[]string{"hkeys", k + "h"}, arr(v)}, {[]string{"hexists", k + "h", v}, num(1)},
		{[]string{"hdel", k + "h", v}, num(1)},
		{[]string{"rpush", k + "l", "a", v, "b"}, num(3)}, {[]string{"lindex", k + "l", "1"}, bulk(v)},
		{[]string{"lrange", k + "l", "0", "-1"}, arr("a", v, "b")}, {[]string{"lpop", k + "l"}, bulk("a")}, {[]string{"lpop", k + "l"}, bulk(v)},
		{[]string{"lpush", k + "m", v}, num(1)}, {[]string{"rpop", k + "m"}, bulk(v)},
		{[]string{"sadd", k + "S", v}, num(1)}, {[]string{"sadd", k + "S", v}, num(0)}, {[]string{"sismember", k + "S", v}, num(1)},
		{[]string{"smembers", k + "S"}, arr(v)}, {[]string{"sunion", k + "S", k + "none"}, arr(v)}, {[]string{"sinter", k + "S", k + "S"}, arr(v)},
		{[]string{"sdiff", k + "S", k + "none"}, arr(v)}, {[]string{"spop", k + "S"}, bulk(v)},
		{[]string{"zadd", k + "z", "1", v}, num(1)}, {[]string{"zadd", k + "z", "2", v}, num(0)}, {[]string{"zrange", k + "z", "0", "5"}, arr(v)},
		{[]string{"zrangebyscore", k + "z", "1", "3"}, arr(v)}, {[]string{"zscore", k + "z", v}, func(r rs.Reply) bool { return !r.IsErr() && !r.Null }},
		{[]string{"zrem", k + "z", v}, num(1)},
	}
	steps = append(kept(i, v), steps...)
	return runSteps(s, c, "round trip of "+fw.Short(v), steps, depth)
}

func runSteps(s *rs.Server, c *rs.Conn, what string, steps []tripStep, depth int) error {
	if depth < 1 {
		depth = len(steps)
	}
	for ; len(steps) > 0; steps = steps[min(depth, len(steps)):] {
		batch := steps[:min(depth, len(steps))]
		var sb strings.Builder
		for _, x := range batch {
			sb.WriteString(rs.Encode(x.args))
		}
		if err := c.Write(sb.String()); err != nil {
			return rs.Classify(s, "sending", err)
		}
		for _, x := range batch {
			r, err := c.Recv()
			if err != nil {
				return rs.Classify(s, fw.Shorts(x.args), err)
			}
			if !x.ok(r) {
				return fw.Viol("%s: %s replied %s", what, fw.Shorts(x.args), r)
			}
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C02", New: func() any { return &HostileCase{} }, Gen: genHostile, Run: runHostile,
		Rule: "1-5 connections that send 1-10 (thorough 30) chunks of malformed, truncated, mutated or random bytes and of well-formed commands with extreme arguments against keys of every type (AOF on in a third of the cases), then close, half-close, reset or stay; after each, a control connection must read its data unchanged, at the end a new connection is served and every stored key is readable; non-trivial: at least 3 chunks",
	})
	fw.Register(&fw.Prop{
		ID: "C03", New: func() any { return &ReplyCase{} }, Gen: genReply, Run: runReply,
		Rule: "up to 40 (thorough 200) requests with arguments of any bytes, each followed by two sentinel requests whose replies must come next; 1-8 values stored and read back through every command that stores or returns bytes, one request or many per write, and read again by two clients at the end; non-trivial: at least 3 requests or round trips and one argument that is empty, longer than 4000 bytes or contains CR, LF or NUL",
	})
}
