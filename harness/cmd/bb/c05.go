package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C05: isolation and release of connections

// LifeStep acts on one connection slot. A slot that is not open is opened first.
type LifeStep struct {
	Slot int
	// Kind: "req" a whole request with its reply, "frag" the first part of a request, "rest" the remainder of it with its reply,
	// "big" requests with large replies that are not read, "close", "half", "reset", "drain" reads the replies of "big"
	Kind string
	Op   rs.Op `json:",omitempty"`
	Cut  int   `json:",omitempty"` // percent
	N    int   `json:",omitempty"`
}

type LifeCase struct {
	Pass   bool
	Script []LifeStep
	Rounds int
	Crowd  int `json:",omitempty"` // further connections, open all the time
}

func (c *LifeCase) Steps() int { return len(c.Script) }
func (c *LifeCase) Without(i, j int) any {
	n := *c
	n.Script = append(append([]LifeStep{}, c.Script[:i]...), c.Script[j:]...)
	return &n
}

func genLife(t *rapid.T, tier int) any {
	c := &LifeCase{Pass: fw.Chance(t, "pass", 1, 3), Rounds: fw.Rng(t, "rounds", 2, 5)}
	if fw.Chance(t, "crowded", 1, 10) {
		c.Crowd = fw.Pick(t, "crowd", []int{60, 260, 520, 1050})
	}
	slots := fw.Rng(t, "slots", 2, 6)
	max := 50
	if tier == 1 {
		max = 150
	}
	req := func(slot int) rs.Op {
		switch fw.Uni(t, "req", 9) {
		case 0, 1:
			return cmd("select", itoa(fw.Rng(t, "db", 0, 4)))
		case 2:
			return cmd("auth", fw.Pick(t, "pw", []string{"secret", "secret", "wrong"}))
		case 3, 4:
			return cmd("set", "k"+itoa(fw.Uni(t, "k", 2)), fw.Word(t, "v", 1, 5))
		case 5, 6:
			return cmd("get", "k"+itoa(fw.Uni(t, "k", 2)))
		case 7:
			return rs.Op{Args: []fw.Arg{fw.A("rpush"), fw.A("l"), {S: "y", N: fw.Pick(t, "len", []int{1, 5000, 70000})}}}
		default:
			return cmd("llen", "l")
		}
	}
	c.Script = fw.Seq(t, "script", 3, max, func(t *rapid.T) LifeStep {
		s := LifeStep{Slot: fw.Uni(t, "slot", slots)}
		switch k := fw.Uni(t, "kind", 16); {
		case k < 6:
			s.Kind, s.Op = "req", req(s.Slot)
		case k < 9:
			s.Kind, s.Op, s.Cut = "frag", req(s.Slot), fw.Rng(t, "cut", 0, 100)
		case k < 11:
			s.Kind = "rest"
		case k == 11:
			s.Kind, s.N = "big", fw.Rng(t, "n", 1, 6)
		case k == 12:
			s.Kind = "drain"
		case k == 13:
			s.Kind = "close"
		case k == 14:
			s.Kind = "half"
		default:
			s.Kind = "reset"
		}
		return s
	})
	return c
}

type slot struct {
	c    *rs.Conn
	sess *rs.Sess
	rest string   // unsent part of a request
	args []string // that request
	big  int      // replies of "big" not read
	half bool
	sent time.Time
}

func runLife(e *fw.Env, cc any) error {
	c := cc.(*LifeCase)
	cfg := rs.Cfg{Databases: 5}
	if c.Pass {
		cfg.Pass = "secret"
	}
	w, err := rs.World0(e, cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	big := strings.Repeat("b", 3<<20)
	setup := []rs.Op{cmd("auth", "secret"), cmd("set", "big", big)}
	if err := w.Exec(setup, 1); err != nil {
		return err
	}
	slots := map[int]*slot{}
	defer func() {
		for _, s := range slots {
			s.c.Close()
		}
	}()
	step := func(what string, s *slot, args []string, t0 int64) error {
		r, err := s.c.Recv()
		if err != nil {
			return rs.Classify(w.Srv, what, err)
		}
		if err := w.Model.Step(s.sess, args, r, t0, rs.NowMs()); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = what + ": " + v.Msg
			}
			return err
		}
		return nil
	}
	drain := func(what string, s *slot) error {
		for ; s.big > 0; s.big-- {
			if err := step(what, s, []string{"get", "big"}, rs.NowMs()); err != nil {
				return err
			}
		}
		return nil
	}
	end := func(k int, how string) {
		s := slots[k]
		delete(slots, k)
		if how == "reset" {
			s.c.Reset()
		} else {
			s.c.Close()
		}
	}
	opened, frags, abrupt := 0, 0, 0
	round := func(n int) error {
		for i, st := range c.Script {
			what := fmt.Sprintf("round %d, step %d (%s on connection %d)", n, i, st.Kind, st.Slot)
			s := slots[st.Slot]
			if s != nil && s.half && st.Kind != "close" && st.Kind != "reset" {
				end(st.Slot, "close")
				s = nil
			}
			if s == nil {
				nc, err := w.Srv.Dial()
				if err != nil {
					return rs.Classify(w.Srv, what+": connecting", err)
				}
				s = &slot{c: nc, sess: &rs.Sess{}}
				slots[st.Slot] = s
				opened++
			}
			whole := func(args []string) error {
				if err := drain(what+": replies requested before", s); err != nil {
					return err
				}
				if s.rest != "" { // complete the request under way first
					rest, a := s.rest, s.args
					s.rest = ""
					t0 := rs.NowMs()
					if err := s.c.Write(rest); err != nil {
						return rs.Classify(w.Srv, what, err)
					}
					if err := step(what+": request that was under way", s, a, t0); err != nil {
						return err
					}
				}
				if args == nil {
					return nil
				}
				t0 := rs.NowMs()
				if err := s.c.Send(args...); err != nil {
					return rs.Classify(w.Srv, what, err)
				}
				return step(what, s, args, t0)
			}
			switch st.Kind {
			case "req":
				if err := whole(st.Op.Strs()); err != nil {
					return err
				}
			case "frag":
				if s.rest != "" {
					continue
				}
				req := rs.Encode(st.Op.Strs())
				cut := len(req) * st.Cut / 100
				if cut >= len(req) {
					cut = len(req) - 1
				}
				if err := s.c.Write(req[:cut]); err != nil {
					return rs.Classify(w.Srv, what, err)
				}
				s.rest, s.args = req[cut:], st.Op.Strs()
				frags++
			case "rest":
				if err := whole(nil); err != nil {
					return err
				}
			case "big":
				if s.rest != "" || s.big > 0 {
					continue
				}
				for k := 0; k < st.N; k++ {
					if err := s.c.Send("get", "big"); err != nil {
						return rs.Classify(w.Srv, what, err)
					}
					s.big++
				}
			case "drain":
				if err := drain(what, s); err != nil {
					return err
				}
			case "half":
				s.c.CloseWrite()
				s.half = true
				if s.big > 0 || s.rest != "" {
					abrupt++
				}
			default:
				if s.big > 0 || s.rest != "" {
					abrupt++
				}
				end(st.Slot, st.Kind)
			}
		}
		// check all open connections, then close them
		for k := 0; k < 10; k++ {
			s := slots[k]
			if s == nil {
				continue
			}
			if !s.half {
				what := fmt.Sprintf("round %d, connection %d at the end", n, k)
				if err := drain(what, s); err != nil {
					return err
				}
				if s.rest != "" {
					t0 := rs.NowMs()
					if err := s.c.Write(s.rest); err != nil {
						return rs.Classify(w.Srv, what, err)
					}
					if err := step(what+": request under way", s, s.args, t0); err != nil {
						return err
					}
				}
				for _, a := range [][]string{{"get", "k0"}, {"get", "k1"}, {"llen", "l"}} {
					t0 := rs.NowMs()
					if err := s.c.Send(a...); err != nil {
						return rs.Classify(w.Srv, what, err)
					}
					if err := step(what, s, a, t0); err != nil {
						return err
					}
				}
			}
			end(k, []string{"close", "reset"}[k%2])
		}
		return nil
	}
	settled := func(goal int) int {
		last := 1 << 30
		for i := 0; i < 1000; i++ {
			n := w.Srv.Fds()
			if n >= 0 && n < last {
				last = n
			}
			if last <= goal {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		return last
	}
	crowd := make([]*slot, c.Crowd)
	defer func() {
		for _, s := range crowd {
			if s != nil {
				s.c.Close()
			}
		}
	}()
	ask := func(round string, args func(i int) []string) error {
		for i := range crowd {
			what := fmt.Sprintf("%s on connection %d of %d others", round, i, c.Crowd)
			if crowd[i] == nil {
				nc, err := w.Srv.Dial()
				if err != nil {
					return rs.Classify(w.Srv, what, err)
				}
				crowd[i] = &slot{c: nc, sess: &rs.Sess{}}
			}
			t0 := rs.NowMs()
			if err := crowd[i].c.Send(args(i)...); err != nil {
				return rs.Classify(w.Srv, what, err)
			}
			if err := step(what, crowd[i], args(i), t0); err != nil {
				return err
			}
		}
		return nil
	}
	if err := ask("first request", func(i int) []string {
		if c.Pass {
			return []string{"auth", []string{"secret", "secret", "wrong"}[i%3]}
		}
		return []string{"select", itoa(i % 5)}
	}); err != nil {
		return err
	}
	// the descriptors open before any of these connections; one is the harness's own
	base := w.Srv.Fds()
	for i := 0; i < 3; i++ {
		time.Sleep(2 * time.Millisecond)
		base = min(base, w.Srv.Fds())
	}
	for n := 0; n < max(c.Rounds, 1); n++ {
		if err := round(n); err != nil {
			return err
		}
		if opened > 250 {
			break
		}
	}
	const slack = 1 // the Go runtime may open a descriptor of its own
	if err := ask("request", func(i int) []string { return []string{"get", "k" + itoa(i%2)} }); err != nil {
		return err
	}
	if got := settled(base + slack); got > base+slack {
		return fw.Late("the server had %d descriptors open, opened %d connections, and 10 s after all of them were closed has %d", base, opened, got)
	}
	if err := w.CheckDump("after all connections were closed"); err != nil {
		return err
	}
	e.LabelN("connections", opened)
	e.LabelN("fragments", frags)
	e.LabelN("others", c.Crowd)
	e.LabelN("closed with a request or replies under way", abrupt)
	if opened >= 4 && (frags > 0 || abrupt > 0) {
		e.NonTrivial()
	}
	return nil
}

// ---- C06: authentication

type AuthCase struct {
	Pass  string
	Conns int
	Depth int
	Crowd int // further connections, opened first
	Ops   []rs.Op
}

func (c *AuthCase) Steps() int { return len(c.Ops) }
func (c *AuthCase) Without(i, j int) any {
	n := *c
	n.Ops = append(append([]rs.Op{}, c.Ops[:i]...), c.Ops[j:]...)
	return &n
}

const marker = "s3kr1t-content"

func genAuth(t *rapid.T, tier int) any {
	c := &AuthCase{Conns: fw.Rng(t, "conns", 1, 4), Depth: fw.Pick(t, "depth", depths)}
	if fw.Chance(t, "crowd", 1, 6) {
		c.Crowd = fw.Rng(t, "others", 5, 150)
	}
	c.Pass = fw.Pick(t, "pass", []string{"secret", "secret", "a", "pa ss", "pass\"word\\", "пароль", "0", "LongPassword-0123456789-0123456789-0123456789", "auth", ""})
	max := 60
	if tier == 1 {
		max = 250
	}
	p := rs.NewPools(t, 2, 10)
	p.Els = append(p.Els, fw.A(marker), fw.A(marker+"2"))
	guess := func() string {
		g := []string{c.Pass, c.Pass, c.Pass, c.Pass, c.Pass + " ", c.Pass + "x", " " + c.Pass, strings.ToUpper(c.Pass), strings.ToLower(c.Pass), c.Pass + "\x00", c.Pass + "\r\n", "", "x", "*", c.Pass + c.Pass, ".*"}
		if c.Pass != "" {
			// of the same length with an altered beginning or end, and what a careless comparison may take for the password
			k := fw.Rng(t, "altered", 1, len(c.Pass))
			fill := strings.Repeat(fw.Pick(t, "fill", []string{"\x00", " ", "x", "\xff", "*"}), k)
			g = append(g, c.Pass[:len(c.Pass)-1], c.Pass[1:], c.Pass[:len(c.Pass)-k]+fill, fill+c.Pass[k:], fill, "\x00"+c.Pass, c.Pass[:len(c.Pass)-k])
		}
		return fw.Pick(t, "guess", g)
	}
	forms := fw.Chance(t, "forms", 1, 3) // also lines and bulk strings
	c.Ops = fw.Seq(t, "ops", 2, max, func(t *rapid.T) rs.Op {
		var o rs.Op
		switch k := fw.Uni(t, "op", 20); {
		case k < 5:
			o = cmd(fw.Pick(t, "auth", []string{"auth", "auth", "AUTH", "Auth"}), guess())
		case k == 5:
			o = fw.Pick(t, "bad", []rs.Op{cmd("auth"), cmd("auth", "a", "b"), cmd("auth", c.Pass, c.Pass), cmd("auth", c.Pass, "")})
		case k == 6:
			o = cmd("ping")
		case k == 7:
			o = cmd("select", itoa(fw.Rng(t, "db", -1, 3)))
		case k == 8:
			o = cmd("keys", "*")
		case k == 9:
			o = cmd("randomget")
		case k == 10:
			o = cmd("nosuch", "a")
		case k == 11:
			o = cmd("expire", fw.Pick(t, "key", p.Keys)+":s", fw.Pick(t, "sec", []string{"-1", "0", "1000"}))
		case k == 12:
			o = cmd("ttl", fw.Pick(t, "key", p.Keys)+":s")
		default:
			o = p.GenAny(t)
		}
		o.Conn = fw.Uni(t, "conn", c.Conns)
		if forms && fw.Chance(t, "form", 1, 2) {
			f := fw.Pick(t, "as", genForms(t))
			o.Form = &f
		}
		return o
	})
	return c
}

// decidable returns the operations without malformed AUTHs on connections that are authenticated: whether those stay
// authenticated is not specified.
func (c *AuthCase) decidable() []rs.Op {
	authed := map[int]bool{}
	var ops []rs.Op
	for _, o := range c.Ops {
		if args := o.Strs(); strings.ToLower(args[0]) == "auth" {
			if len(args) != 2 && authed[o.Conn] {
				continue
			}
			if len(args) == 2 {
				authed[o.Conn] = c.Pass == "" || args[1] == c.Pass
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func runAuth(e *fw.Env, cc any) error {
	c := cc.(*AuthCase)
	w, err := rs.World0(e, rs.Cfg{Databases: 3, Pass: fw.B(c.Pass)}, c.Conns)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	for i := 0; i < c.Crowd; i++ {
		o, err := w.Srv.Dial()
		if err != nil {
			return rs.Classify(w.Srv, "connecting", err)
		}
		defer o.Close()
		if i%2 == 0 || i > c.Crowd-4 {
			what, args := "AUTH with a wrong password", []string{"auth", c.Pass + "-"}
			if i%4 == 0 || i > c.Crowd-4 {
				what, args = "RANDOMGET without AUTH", []string{"randomget"}
			}
			r, err := o.Do(args...)
			if err != nil {
				return rs.Classify(w.Srv, what, err)
			}
			if c.Pass != "" && !r.IsErr() {
				return fw.Viol("%s on connection %d replied %s", what, c.Conns+i+1, r)
			}
		}
	}
	refused, auths := 0, 0
	w.OnReply = func(s *rs.Sess, args []string, r rs.Reply) error {
		if c.Pass != "" && !s.Auth && strings.ToLower(args[0]) != "auth" {
			refused++
			// the model demands an error; it must not quote stored data either
			if strings.Contains(r.Str, marker) && !strings.Contains(strings.Join(args, "\x00"), marker) {
				return fw.Viol("%s on an unauthenticated connection replied %s, which contains stored data", fw.Shorts(args), r)
			}
		}
		return nil
	}
	wasAuth := map[int]bool{}
	if err := w.Exec(c.decidable(), c.Depth); err != nil {
		return err
	}
	for i, s := range w.Sess {
		if s.Auth {
			auths++
			wasAuth[i] = true
		}
	}
	if err := w.CheckDump("after the history"); err != nil {
		return err
	}
	// new connections start unauthenticated
	nc, err := w.Srv.Dial()
	if err != nil {
		return rs.Classify(w.Srv, "connecting", err)
	}
	defer nc.Close()
	r, err := nc.Do("keys", "*")
	if err != nil {
		return rs.Classify(w.Srv, "keys on a new connection", err)
	}
	if c.Pass != "" && !r.IsErr() {
		return fw.Viol("KEYS on a new connection, which has not authenticated, replied %s", r)
	}
	if c.Pass == "" && r.IsErr() {
		return fw.Viol("KEYS on a new connection of a server without password replied %s", r)
	}
	e.LabelN("refused", refused)
	e.LabelN("authenticated connections", auths)
	if c.Pass == "" {
		e.Label("no password")
	}
	if refused > 0 || c.Pass == "" && len(c.Ops) >= 4 {
		e.NonTrivial()
	}
	return nil
}

// ---- C07: databases

func genDBs(t *rapid.T, tier int) any {
	h := &HistCase{Conns: fw.Rng(t, "conns", 1, 4), Depth: fw.Pick(t, "depth", depths)}
	h.Cfg.Databases = fw.Pick(t, "dbs", []int{0, 0, 1, 2, 2, 3, 3, 5, 12, 16, 17, 40, 40, 0, 16, 257})
	n := h.Cfg.Databases
	if n == 0 {
		n = 16
	}
	max := 70
	if tier == 1 {
		max = 300
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 3), 20)
	hot := []int{0, n - 1, n / 2, min(1, n-1), min(10, n-1)}
	timed := fw.Chance(t, "timed", 1, 6) // deadlines pass during the history
	if timed {
		max = 40
	}
	h.Ops = fw.Seq(t, "ops", 2, max, func(t *rapid.T) rs.Op {
		var o rs.Op
		key := func() string {
			return fw.Pick(t, "key", p.Keys) + fw.Pick(t, "sfx", []string{":s", ":s", ":h", ":l", ":S", ":z"})
		}
		switch k := fw.Uni(t, "op", 20); {
		case k < 6:
			o = cmd("select", itoa(fw.Pick(t, "db", hot)))
		case k == 6:
			o = cmd("select", fw.Pick(t, "baddb", []string{"-1", itoa(n), itoa(n + 1), "abc", "", "1e1", "1.0", "99999999999999999999", "-9223372036854775808", "1000000", "0x0", " 0"}))
		case k == 7:
			o = cmd("keys", "*")
		case k == 8:
			o = cmd("randomget")
		case k == 9:
			o = cmd("ttl", key())
		case k == 10:
			o = mixed(t, "expire", key(), fw.Pick(t, "sec", []string{"1000", "5000", "-1", "-5"}))
		case timed && k < 14:
			o = mixed(t, "expire", key(), fw.Pick(t, "near", []string{"1", "1", "2"}))
		case timed && k == 14:
			o = cmd("keys", "*")
			o.Wait = fw.Pick(t, "wait", []int{300, 700, 1000})
		case k == 11:
			o = mixed(t, "setex", key(), itoa(fw.Rng(t, "sec", 1000, 9000)), "x")
		default:
			o = p.GenAny(t)
		}
		o.Conn = fw.Uni(t, "conn", h.Conns)
		return o
	})
	if timed && n > 1 { // the same keys in two databases, only one of them expires
		a, b := fw.Pick(t, "dba", hot), fw.Pick(t, "dbb", hot)
		for _, k := range p.Keys {
			x, y := p.GenWrite(t), p.GenWrite(t)
			h.Ops = append(h.Ops, cmd("select", itoa(a)), x, cmd("set", k, "a"), cmd("expire", k, "1"), cmd("expire", x.Args[1].Str(), "1"),
				cmd("select", itoa(b)), y, cmd("set", k, "b"), cmd("expire", k, fw.Pick(t, "later", []string{"2", "2", "1000"})))
		}
		o := cmd("keys", "*")
		o.Wait = 1050
		h.Ops = append(h.Ops, o, cmd("select", itoa(a)), cmd("keys", "*"))
	}
	return h
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C05", New: func() any { return &LifeCase{} }, Gen: genLife, Run: runLife, Workers: 8,
		Rule: "scripts over 2-6 connection slots, repeated 2-5 times: whole requests, fragments of requests left pending, requests for 3 MB replies that are not read, close, half-close and reset at any point, with SELECT and AUTH, sometimes beside up to 1050 connections that stay; every reply is compared with the model of its own connection, and the number of descriptors of the server returns to its initial value; non-trivial: at least 4 connections and a fragment or an abrupt end",
	})
	fw.Register(&fw.Prop{
		ID: "C06", New: func() any { return &AuthCase{} }, Gen: genAuth, Run: runAuth,
		Rule: "histories of AUTH attempts (right, wrong, near misses) and commands of all kinds on 1-4 connections, with and without a password, compared with the model; refused replies must not contain stored data, the dataset at the end equals the model; non-trivial: at least one command refused, or a server without password",
	})
	fw.Register(&fw.Prop{
		ID: "C07", New: newHist, Gen: genDBs, Workers: 16,
		Rule: "histories of SELECT (valid and invalid) and commands of all types, with deadlines, on the same few keys in several of 1-257 databases from 1-4 connections, in some with deadlines that pass during the history, compared with the model; non-trivial: at least 2 databases selected and 2 write commands",
		Run: func(e *fw.Env, c any) error {
			h := c.(*HistCase)
			sel := map[string]bool{}
			for _, o := range h.Ops {
				if o.Args[0].Str() == "select" {
					sel[o.Args[1].Str()] = true
				}
			}
			if _, w := distinct(h.Ops); w >= 2 && len(sel) >= 2 {
				e.NonTrivial()
			}
			if !near(h.Ops) {
				return runHist(e, c, nil)
			}
			e.Label("deadlines passing")
			wd, err := rs.World0(e, h.Cfg, max(h.Conns, 1))
			if err != nil {
				return err
			}
			defer wd.Srv.Stop()
			defer wd.Close()
			waited := 0
			for i := 0; i < len(h.Ops); {
				j := i + 1
				for j < len(h.Ops) && h.Ops[j].Wait == 0 {
					j++
				}
				if waited += h.Ops[i].Wait; waited < 4000 {
					time.Sleep(time.Duration(h.Ops[i].Wait) * time.Millisecond)
				}
				if err := execTimed(wd, h.Ops[i:j], max(h.Depth, 1)); err != nil {
					return err
				}
				i = j
			}
			waitSure(wd)
			return wd.CheckDump("after the history")
		},
	})
}

// near tells whether deadlines may pass during the history.
func near(ops []rs.Op) bool {
	for _, o := range ops {
		if strings.EqualFold(o.Args[0].Str(), "expire") && len(o.Args) == 3 && len(o.Args[2].Str()) == 1 {
			return true
		}
	}
	return false
}
