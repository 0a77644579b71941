package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C13: errors change nothing

type ErrCase struct {
	Setup []rs.Op
	Bad   []rs.Op // one by one
	Dump  int     // dataset compared after this many
}

func (c *ErrCase) Steps() int { return len(c.Setup) + len(c.Bad) }
func (c *ErrCase) Without(i, j int) any {
	n := *c
	n.Setup, n.Bad = nil, nil
	for k, o := range c.Setup {
		if k < i || k >= j {
			n.Setup = append(n.Setup, o)
		}
	}
	for k, o := range c.Bad {
		if k+len(c.Setup) < i || k+len(c.Setup) >= j {
			n.Bad = append(n.Bad, o)
		}
	}
	return &n
}

var notInts = []string{"abc", "", "1.5", "1e3", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "0x10", "1 ", " 1", "1_000", "nan", "inf", "--1", "1\r\n", "\x00"}
var notFloats = []string{"abc", "", "nan", "NaN", "+nan", "1.2.3", "1 ", " 1", "--1", "1e", "one", "\x00", "1,5", "(1", "0x", "1\r\n2"}

var typed = []string{"k:s", "k:h", "k:l", "k:S", "k:z"}

// typeOf returns the suffix of the type a command works on, "" for any.
func typeOf(name string) string {
	switch name {
	case "del", "set", "setex", "expire", "expireat", "ttl", "keys", "ping", "select", "auth", "bgrewriteaof", "randomget":
		return ""
	case "get":
		return ":s"
	}
	switch name[0] {
	case 'h':
		return ":h"
	case 'l', 'r':
		return ":l"
	case 's':
		return ":S"
	}
	return ":z"
}

func genBadOp(t *rapid.T) rs.Op {
	word := func() string { return fw.Pick(t, "w", []string{"e0", "e1", "m1", "m2", "f0", "f1", "x", "", "é"}) }
	score := func() string { return fw.Pick(t, "sc", []string{"1", "2", "-3.5", "inf", "7"}) }
	ival := func() string { return fw.Pick(t, "iv", []string{"0", "1", "2", "5", "100"}) }
	// good builds a well-formed command on the given key
	good := func(name, key string) []string {
		a := []string{name}
		switch name {
		case "ping", "randomget":
			return a
		case "select":
			return append(a, "0")
		case "auth", "keys":
			return append(a, "*")
		}
		a = append(a, key)
		switch name {
		case "set":
			a = append(a, word())
		case "setex":
			a = append(a, "5000", word())
		case "expire":
			a = append(a, "5000")
		case "expireat":
			a = append(a, "99999999999")
		case "hset":
			for k := fw.Rng(t, "n", 1, 3); k > 0; k-- {
				a = append(a, word(), word())
			}
		case "hget", "hexists", "sismember", "zscore":
			a = append(a, word())
		case "hdel", "lpush", "rpush", "sadd", "srem", "zrem":
			for k := fw.Rng(t, "n", 1, 3); k > 0; k-- {
				a = append(a, word())
			}
		case "lindex":
			a = append(a, ival())
		case "lrange", "zrange", "zremrangebyrank":
			a = append(a, ival(), ival())
		case "zadd":
			for k := fw.Rng(t, "n", 1, 3); k > 0; k-- {
				a = append(a, score(), word())
			}
		case "zrangebyscore", "zremrangebyscore", "zcount":
			a = append(a, score(), score())
		case "sdiff", "sinter", "sunion":
			for k := fw.Rng(t, "n", 1, 2); k > 0; k-- {
				a = append(a, fw.Pick(t, "sk", []string{"k:S", "none", "q:S"}))
			}
		}
		return a
	}
	names := func() string {
		for {
			n := fw.Pick(t, "name", rs.Commands)
			if n != "bgrewriteaof" {
				return n
			}
		}
	}
	own := func(name string) string {
		if s := typeOf(name); s != "" {
			return fw.Pick(t, "p", []string{"k", "q", "absent"}) + s
		}
		return fw.Pick(t, "anykey", append([]string{"absent"}, typed...))
	}
	var a []string
	switch k := fw.Uni(t, "bad", 12); {
	case k < 4: // wrong type
		name := names()
		a = good(name, fw.Pick(t, "key", typed))
		if strings.HasPrefix(name, "s") && len(a) > 2 && (name == "sdiff" || name == "sinter" || name == "sunion") {
			i := fw.Rng(t, "pos", 1, len(a)-1)
			a[i] = fw.Pick(t, "key2", typed)
		}
	case k < 6: // arity
		name := names()
		a = good(name, own(name))
		if fw.Chance(t, "less", 1, 2) && len(a) > 1 {
			a = a[:fw.Rng(t, "keep", 1, len(a)-1)]
		} else {
			for n := fw.Rng(t, "extra", 1, 2); n > 0; n-- {
				a = append(a, word())
			}
		}
	case k == 6: // unknown
		a = []string{fw.Pick(t, "unk", []string{"", "nosuch", "sett", "set ", "s", "hget\x00", "flushall", "lset", "rename", "zincrby", "\r\n", "set\r\nx"})}
		a = append(a, fw.Pick(t, "uk", typed), word())
	case k < 10: // bad number
		name := fw.Pick(t, "numcmd", []string{"set", "setex", "expire", "expireat", "lindex", "lrange", "zrange", "zremrangebyrank", "zadd", "zadd", "zadd", "zrangebyscore", "zremrangebyscore", "zcount", "select"})
		a = good(name, own(name))
		var pos []int
		pool := notInts
		switch name {
		case "set":
			a = append(a, fw.Pick(t, "exat", []string{"exat", "EXAT", "ExAt"}), "99999999999")
			pos = []int{4}
		case "zadd":
			pool = notFloats
			for i := 2; i < len(a); i += 2 {
				pos = append(pos, i)
			}
		case "zrangebyscore", "zremrangebyscore", "zcount":
			pool = notFloats
			pos = []int{2, 3}
		case "lrange", "zrange", "zremrangebyrank":
			pos = []int{2, 3}
		case "select":
			pos = []int{1}
		default:
			pos = []int{2}
		}
		if name == "expire" || name == "expireat" || name == "setex" || name == "set" {
			pool = append(pool, strconv.FormatInt(math.MaxInt64, 10), strconv.FormatInt(math.MinInt64, 10), "9223372036854776")
		}
		a[fw.Pick(t, "pos", pos)] = fw.Pick(t, "badnum", pool)
	case k == 10: // odd pairs
		name := fw.Pick(t, "pair", []string{"hset", "zadd"})
		a = append(good(name, own(name)), score())
	default: // read commands, well-formed
		name := fw.Pick(t, "read", []string{"get", "ttl", "keys", "hget", "hexists", "hkeys", "hlen", "llen", "lindex", "lrange", "scard", "sismember", "smembers", "sdiff", "sinter", "sunion", "zrange", "zrangebyscore", "zcard", "zcount", "zscore", "ping", "randomget"})
		a = good(name, own(name))
	}
	o := rs.Cmd(a...)
	if fw.Chance(t, "upper", 1, 10) {
		o.Args[0].S = fw.B(strings.ToUpper(string(o.Args[0].S)))
	}
	return o
}

func genErr(t *rapid.T, tier int) any {
	c := &ErrCase{Dump: fw.Pick(t, "dump", []int{1, 1, 3})}
	fill := func(name, key, kind string) {
		o := cmd(name, key)
		if fw.Chance(t, "big", 1, 6) {
			o.Fill = &rs.Fill{Kind: kind, N: fw.Pick(t, "n", []int{65, 130, 600})}
		} else {
			o.Fill = &rs.Fill{Kind: kind, N: fw.Rng(t, "n", 1, 8)}
		}
		c.Setup = append(c.Setup, o)
	}
	for _, p := range []string{"k", "q"} {
		c.Setup = append(c.Setup, cmd("set", p+":s", "e1"))
		fill("hset", p+":h", "fv")
		fill("rpush", p+":l", "el")
		fill("sadd", p+":S", "el")
		fill("zadd", p+":z", "zs")
	}
	for _, k := range typed {
		if fw.Chance(t, "exp", 1, 3) {
			c.Setup = append(c.Setup, cmd("expire", k, "5000"))
		}
	}
	max := 16
	if tier == 1 {
		max = 60
	}
	c.Bad = fw.Seq(t, "bad", 2, max, genBadOp)
	return c
}

// isError tells whether the property demands an error for the command on the model's dataset: the model's own answer to it.
func runErr(e *fw.Env, cc any) error {
	c := cc.(*ErrCase)
	w, err := rs.World0(e, rs.Cfg{Databases: 2}, 2)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec(c.Setup, 1); err != nil {
		return err
	}
	before, err := rs.TakeDump(w.Srv, w.Conns[1], 2)
	if err != nil {
		return err
	}
	var since []string
	errs := 0
	compare := func() error {
		if len(since) == 0 {
			return nil
		}
		after, err := rs.TakeDump(w.Srv, w.Conns[1], 2)
		if err != nil {
			return err
		}
		if d := rs.Diff(before, after, rs.DiffOpts{Tol: 1100, Near: 0}); d != "" {
			return fw.Viol("the dataset changed by %s: %s", strings.Join(since, ", "), d)
		}
		since = nil
		return nil
	}
	for i, o := range c.Bad {
		args := o.Strs()
		if rs.IsWrite(args[0]) { // it may change the dataset rightly
			if err := compare(); err != nil {
				return err
			}
		}
		m := w.Model.Clone()
		t0 := rs.NowMs()
		r, err := w.Conns[0].Do(args...)
		if err != nil {
			return rs.Classify(w.Srv, fmt.Sprintf("operation %d %s", i, fw.Shorts(args)), err)
		}
		// the model knows which commands must fail
		if err := m.Step(&rs.Sess{}, args, r, t0, rs.NowMs()); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				if !r.IsErr() && !strings.HasSuffix(v.Msg, "expected an error") {
					continue // some other property; this one does not judge replies of well-formed commands
				}
				v.Msg = fmt.Sprintf("operation %d: %s", i, v.Msg)
			}
			return err
		}
		name := strings.ToLower(args[0])
		if !r.IsErr() && rs.IsWrite(name) {
			// a well-formed write: it is part of the history
			w.Model = m
			var err error
			if before, err = rs.TakeDump(w.Srv, w.Conns[1], 2); err != nil {
				return err
			}
			continue
		}
		if r.IsErr() {
			errs++
		}
		since = append(since, fw.Shorts(args)+" (reply "+r.String()+")")
		if len(since) >= max(c.Dump, 1) {
			if err := compare(); err != nil {
				return err
			}
		}
		if strings.EqualFold(name, "select") && !r.IsErr() {
			if _, err := w.Conns[0].Do("select", "0"); err != nil {
				return rs.Classify(w.Srv, "select 0", err)
			}
		}
	}
	if err := compare(); err != nil {
		return err
	}
	e.LabelN("errors", errs)
	e.LabelN("commands", len(c.Bad))
	if errs >= 2 {
		e.NonTrivial()
	}
	return nil
}

// ---- C14: deadlines

// TTLCase is a history in phases; real time passes between phases.
type TTLCase struct {
	Depth  int
	Phases []TTLPhase
}

type TTLPhase struct {
	WaitMs int // before the phase
	Ops    []rs.Op
}

func (c *TTLCase) Steps() int {
	n := 0
	for _, p := range c.Phases {
		n += len(p.Ops)
	}
	return n
}

func (c *TTLCase) Without(i, j int) any {
	n := *c
	n.Phases = nil
	k := 0
	for _, p := range c.Phases {
		q := TTLPhase{WaitMs: p.WaitMs}
		for _, o := range p.Ops {
			if k < i || k >= j {
				q.Ops = append(q.Ops, o)
			}
			k++
		}
		n.Phases = append(n.Phases, q)
	}
	return &n
}

// farSecs are seconds whose deadline is close to what fits into a number of milliseconds.
var farSecs = []string{"10000000000", "9000000000000", "2305843009213693", "4611684000000000", "4611686018427386", "4611686018427387"}

// tooFarSecs do not fit: the command must refuse them, and not take what is left of them modulo 2^64.
var tooFarSecs = []string{"9223372036854776", "13835058055282164", "18446744073709553", "36893488147419104", "-9223372036854777", "-18446744073709551"}

// genDeadlineOp draws an operation that sets or needs deadlines; "@n" in EXPIREAT and SET EXAT means n seconds from the time of execution.
func genDeadlineOp(p *rs.Pools, t *rapid.T, short bool) rs.Op {
	key := func() string {
		return fw.Pick(t, "key", p.Keys) + fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"})
	}
	sec := func() string {
		if fw.Chance(t, "farSec", 1, 20) {
			if fw.Chance(t, "tooFar", 1, 3) {
				return fw.Pick(t, "too", tooFarSecs)
			}
			return fw.Pick(t, "far", farSecs)
		}
		if short {
			return fw.Pick(t, "sec", []string{"1", "1", "1", "2", "0", "-1", "1000", "3"})
		}
		return fw.Pick(t, "sec", []string{"-1", "-1", "0", "-100", "1000", "5000"})
	}
	switch k := fw.Uni(t, "dop", 23); {
	case k < 4:
		return mixed(t, "expire", key(), sec())
	case k == 4:
		return mixed(t, "expireat", key(), "@"+sec())
	case k == 5:
		return mixed(t, "setex", fw.Pick(t, "key", p.Keys)+":s", sec(), "sx")
	case k < 8:
		return mixed(t, "ttl", key())
	case k == 8:
		return mixed(t, "keys", "*")
	case k == 9:
		return mixed(t, "randomget")
	case k == 10:
		return mixed(t, "set", fw.Pick(t, "key", p.Keys)+":s", "sat", fw.Pick(t, "exat", []string{"exat", "EXAT"}), "@"+sec())
	case k == 11:
		return mixed(t, "del", key(), key())
	case k == 12: // also over values of other kinds
		return mixed(t, "set", key(), "over")
	default:
		return p.GenAny(t)
	}
}

// mixed writes the name of a command in some case.
func mixed(t *rapid.T, args ...string) rs.Op {
	switch fw.Uni(t, "nameCase", 6) {
	case 0:
		args[0] = strings.ToUpper(args[0])
	case 1:
		args[0] = strings.ToUpper(args[0][:1]) + args[0][1:]
	}
	return cmd(args...)
}

// readOf draws a command that reads a key.
func readOf(t *rapid.T, key string) rs.Op {
	switch fw.Uni(t, "readOf", 12) {
	case 0, 1, 2, 3:
		return cmd("get", key+":s")
	case 4:
		return cmd("ttl", key+fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"}))
	case 5:
		return cmd("hkeys", key+":h")
	case 6:
		return cmd("hlen", key+":h")
	case 7:
		return cmd("lrange", key+":l", "0", "-1")
	case 8:
		return cmd("scard", key+":S")
	case 9:
		return cmd("smembers", key+":S")
	case 10:
		return cmd("zrange", key+":z", "0", "100")
	default:
		return cmd("keys", "*")
	}
}

func genTTL(t *rapid.T, tier int) any {
	c := &TTLCase{Depth: fw.Pick(t, "depth", []int{1, 5, 40, 40})}
	n, ops := fw.Rng(t, "phases", 2, 3), 90
	if tier == 1 {
		n, ops = fw.Rng(t, "phases", 2, 6), 200
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 5), 20)
	dbs := fw.Chance(t, "dbs", 1, 3)
	var probes []rs.Op
	for i := 0; i < n; i++ {
		ph := TTLPhase{}
		if i > 0 {
			ph.WaitMs = fw.Pick(t, "wait", []int{300, 1050, 1050, 1050, 1100, 2050})
		}
		ph.Ops = fw.Seq(t, "ops", 4, ops, func(t *rapid.T) rs.Op {
			if dbs && fw.Chance(t, "sel", 1, 8) {
				return cmd("select", itoa(fw.Uni(t, "db", 3)))
			}
			return genDeadlineOp(p, t, true)
		})
		for k := fw.Uni(t, "burst", 8); k > 0; k-- {
			ph.Ops = append(ph.Ops, cmd("expire", fw.Pick(t, "key", p.Keys)+fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"}), fw.Pick(t, "bsec", []string{"1", "1", "2"})))
		}
		for k := fw.Uni(t, "rebirths", 3); k > 0; k-- {
			kind := fw.Pick(t, "rbKind", []string{"s", "h", "l", "S", "z"})
			ph.Ops = append(ph.Ops, rs.Rebirth(t, fw.Pick(t, "rbKey", p.Keys)+":"+kind, kind[0], fw.Pick(t, "rbSec", []string{"1", "1", "2", "1000"}))...)
		}
		// the same reads before and after the time that passes between two phases, with no write in between; the last first
		for k := len(probes) - 1; k >= 0; k-- {
			ph.Ops = append([]rs.Op{probes[len(probes)-1-k]}, ph.Ops...)
		}
		probes = nil
		if fw.Chance(t, "probe", 2, 3) {
			probes = fw.Seq(t, "probes", 1, 6, func(t *rapid.T) rs.Op { return readOf(t, fw.Pick(t, "key", p.Keys)) })
			ph.Ops = append(ph.Ops, probes...)
		}
		c.Phases = append(c.Phases, ph)
	}
	return c
}

// absolute replaces "@n" by the unix time in n seconds.
func absolute(o rs.Op, now int64) rs.Op {
	i := 2
	if strings.EqualFold(o.Args[0].Str(), "set") {
		i = 4
	} else if !strings.EqualFold(o.Args[0].Str(), "expireat") {
		return o
	}
	if len(o.Args) == i+1 && strings.HasPrefix(string(o.Args[i].S), "@") {
		n, err := strconv.ParseInt(string(o.Args[i].S)[1:], 10, 64)
		if err == nil {
			q := o
			q.Args = append([]fw.Arg{}, o.Args...)
			q.Args[i] = fw.A(strconv.FormatInt(now/1000+n, 10))
			return q
		}
	}
	return o
}

// execTimed executes operations in batches of depth, waiting whenever a deadline is too close for the model to be sure.
func execTimed(w *rs.World, ops []rs.Op, depth int) error { return execNear(w, ops, depth, 60) }

// execNear keeps slack ms away from deadlines.
func execNear(w *rs.World, ops []rs.Op, depth int, slack int64) error {
	for i := 0; i < len(ops); i += max(depth, 1) {
		j := min(i+max(depth, 1), len(ops))
		for k := 0; k < 200; k++ {
			until, amb := w.Model.Ambiguous(rs.NowMs(), slack)
			if !amb {
				break
			}
			time.Sleep(time.Duration(max(until-rs.NowMs(), 1)+1) * time.Millisecond)
		}
		batch := make([]rs.Op, 0, j-i)
		now := rs.NowMs()
		for _, o := range ops[i:j] {
			// immediate deadlines of "now" cannot be told from the past by the millisecond
			o = absolute(o, now)
			if len(o.Args) >= 3 && string(o.Args[2].S) == "0" {
				switch strings.ToLower(o.Args[0].Str()) {
				case "expire", "setex":
					o.Args = append([]fw.Arg{}, o.Args...)
					o.Args[2] = fw.A("-1")
				}
			}
			batch = append(batch, o)
		}
		if err := w.Exec(batch, max(depth, 1)); err != nil {
			return err
		}
	}
	return nil
}

func runTTL(e *fw.Env, cc any) error {
	c := cc.(*TTLCase)
	w, err := rs.World0(e, rs.Cfg{Databases: 3}, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	exp, lived := 0, 0
	for i, p := range c.Phases {
		time.Sleep(time.Duration(p.WaitMs) * time.Millisecond)
		// what expired meanwhile was touched by nothing
		if i > 0 {
			for k := 0; k < 200; k++ {
				until, amb := w.Model.Ambiguous(rs.NowMs(), 60)
				if !amb {
					break
				}
				time.Sleep(time.Duration(max(until-rs.NowMs(), 1)+1) * time.Millisecond)
			}
			n := w.Model.Keys()
			w.Model.Purge(rs.NowMs())
			exp += n - w.Model.Keys()
			lived += w.Model.Keys()
			if i%2 == 1 {
				if err := w.CheckDump(fmt.Sprintf("after waiting before phase %d", i)); err != nil {
					return err
				}
			}
		}
		if err := execTimed(w, p.Ops, c.Depth); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("phase %d: %s", i, v.Msg)
			}
			return err
		}
	}
	if until, amb := w.Model.Ambiguous(rs.NowMs(), 60); amb {
		time.Sleep(time.Duration(until-rs.NowMs()+1) * time.Millisecond)
	}
	if err := w.CheckDump("after the history"); err != nil {
		return err
	}
	e.LabelN("keys expired while waiting", exp)
	e.LabelN("keys alive after waiting", lived)
	n := 0
	for _, p := range c.Phases {
		n += len(p.Ops)
	}
	e.LabelN("operations", n)
	if n >= 10 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C13", New: func() any { return &ErrCase{} }, Gen: genErr, Run: runErr,
		Rule: "two keys of every type (up to 600 elements, some with deadlines), then 2-16 (thorough 60) commands of the wrong type, arity, name or number in any position, partly valid multi-element commands, and read commands; each must fail where the model says so, and the dataset read back before and after is identical; non-trivial: at least 2 error replies",
	})
	fw.Register(&fw.Prop{
		ID: "C14", New: func() any { return &TTLCase{} }, Gen: genTTL, Run: runTTL, Workers: 24, QuickS: 35,
		Rule: "histories of EXPIRE, EXPIREAT, SETEX, SET EXAT, DEL, TTL and commands of all types in 1-3 databases with deadlines in the past and 1-3 s ahead, in 2-3 (thorough 6) phases separated by real waiting, pipelined up to 40 deep; replies and dataset compared with a model that knows each deadline to the millisecond (operations wait while a deadline is within 60 ms); non-trivial: at least 10 operations",
	})
}
