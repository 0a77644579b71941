package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C35: loading a log

// LoadCase is a log made by hand and what is done with the server that loads it.
type LoadCase struct {
	Cfg    rs.Cfg
	Ops    []rs.Op
	Damage *LoadDamage `json:",omitempty"`
	After  []rs.Op
}

// LoadDamage changes the framing of one record.
type LoadDamage struct {
	Op   int // permille of the records
	Line int // permille of the header lines of the record
	Kind string
	To   fw.B
	By   int `json:",omitempty"` // added to the number
	Aim  int `json:",omitempty"` // permille: a length that ends before what looks like a header
}

func (c *LoadCase) Steps() int { return len(c.Ops) + len(c.After) }
func (c *LoadCase) Without(i, j int) any {
	n := *c
	n.Ops, n.After = nil, nil
	for k, o := range append(append([]rs.Op{}, c.Ops...), c.After...) {
		switch {
		case k >= i && k < j:
		case k < len(c.Ops):
			n.Ops = append(n.Ops, o)
		default:
			n.After = append(n.After, o)
		}
	}
	return &n
}

// pastOp tells whether the operation sets a deadline that may have passed already.
func pastOp(o rs.Op) bool {
	n := strings.ToLower(o.Args[0].Str())
	if (n == "expire" || n == "expireat") && len(o.Args) == 3 {
		switch o.Args[2].Str() {
		case "-1", "@-10", "1":
			return true
		}
	}
	if n == "set" && len(o.Args) == 5 {
		switch o.Args[4].Str() {
		case "@-10", "1":
			return true
		}
	}
	return false
}

// pieces writes a value that looks like a piece of a log.
func pieces(p *rs.Pools, t *rapid.T) rs.Op {
	v := ""
	for k := fw.Rng(t, "pieces", 1, 6); k > 0; k-- {
		v += fw.Pick(t, "piece", []string{"x", "\r\n", "$1\r\nk\r\n", "$0\r\n\r\n", "*2\r\n$3\r\nget\r\n", "*1\r\n$4\r\nping\r\n", "$2\r\n", "$4\r\nabcd", "x$2\r\nab", "$1\r\n"})
	}
	if fw.Chance(t, "pieceSet", 1, 2) {
		return cmd("set", fw.Pick(t, "key", p.Keys)+":s", v)
	}
	return cmd("rpush", fw.Pick(t, "key", p.Keys)+":l", v)
}

// framing reads a log strictly: "" if it is well-formed, "torn" if it ends inside a record, else what is wrong.
func framing(log string) string {
	pos := 0
	number := func(mark byte) (int, string) {
		i := strings.Index(log[pos:], "\r\n")
		switch {
		case pos < len(log) && log[pos] != mark:
			return 0, fmt.Sprintf("no %q at %d", mark, pos)
		case i < 0:
			return 0, "torn"
		}
		n, err := strconv.Atoi(log[pos+1 : pos+i])
		if err != nil || n < 0 || n == 0 && mark == '*' {
			return 0, fmt.Sprintf("bad number at %d", pos)
		}
		pos += i + 2
		return n, ""
	}
	for pos < len(log) {
		n, bad := number('*')
		if bad != "" {
			return bad
		}
		for ; n > 0; n-- {
			l, bad := number('$')
			if bad != "" {
				return bad
			}
			if l+2 > len(log)-pos {
				return "torn"
			}
			if pos += l + 2; log[pos-2:pos] != "\r\n" {
				return fmt.Sprintf("no line end at %d", pos-2)
			}
		}
	}
	return ""
}

func genLoad(t *rapid.T, tier int) any {
	c := &LoadCase{Cfg: genCfgAof(t)}
	n := c.Cfg.Databases
	if n == 0 {
		n = 16
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 4), fw.Pick(t, "fillMax", []int{10, 130, 600, 3000}))
	casing := func(t *rapid.T, o rs.Op) rs.Op {
		if !fw.Chance(t, "casing", 1, 3) {
			return o
		}
		name := []byte(o.Args[0].Str())
		for i := range name {
			if fw.Chance(t, "up", 1, 2) {
				name[i] = strings.ToUpper(string(name[i]))[0]
			}
		}
		o.Args = append([]fw.Arg{fw.A(string(name))}, o.Args[1:]...)
		return o
	}
	op := func(t *rapid.T) rs.Op {
		for {
			var o rs.Op
			switch fw.Uni(t, "lop", 42) {
			case 7: // wrong number of arguments
				name := fw.Pick(t, "any", rs.Commands)
				o = cmd(name)
				switch n := rs.Arity(name); {
				case n > 0 && fw.Chance(t, "more", 1, 2):
					for len(o.Args) < n+fw.Rng(t, "extra", 1, 2) {
						o.Args = append(o.Args, fw.A(fw.Pick(t, "key", p.Keys)+fw.Pick(t, "sfx", []string{"", ":s", ":h", ":l", ":S", ":z"})))
					}
				default:
					k := fw.Uni(t, "less", max(n, -n))
					for len(o.Args) < k {
						o.Args = append(o.Args, fw.A(fw.Pick(t, "key", p.Keys)+fw.Pick(t, "sfx", []string{"", ":s", ":h", ":l", ":S", ":z"})))
					}
				}
			case 8:
				o = fw.Pick(t, "service", []rs.Op{cmd("bgrewriteaof"), cmd("bgrewriteaof"), cmd("auth", "x"), cmd("auth", string(c.Cfg.Pass))})
			case 0:
				o = cmd(fw.Pick(t, "unknown", []string{"nosuch", "", "sets", "flushall", "multi"}), "a", "b")
			case 1:
				o = fw.Pick(t, "read", []rs.Op{cmd("ping"), cmd("get", "k"), cmd("keys", "*"), cmd("ttl", "k"), cmd("randomget")})
			case 2:
				o = cmd("set", fw.Pick(t, "key", p.Keys)+":s", "v", fw.Pick(t, "exat", []string{"exat", "EXAT", "Exat"}), strconv.FormatInt(4000000000+int64(fw.Uni(t, "at", 1000)), 10))
			case 3:
				o = cmd("del", fw.Pick(t, "key", p.Keys)+fw.Pick(t, "sfx", []string{":s", ":h", ":l", ":S", ":z"}), fw.Pick(t, "key", p.Keys)+":s")
			case 4:
				o = rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("big"), {S: fw.B(fw.Pick(t, "big", []string{"a", "\r\n", "*", "$"})), N: fw.Pick(t, "bigN", []int{4093, 65500, 65533, 65535, 65536, 65537, 131072, 1000000, 3000000})}}}
			case 6:
				o = pieces(p, t)
			case 5:
				o = cmd("rpush", "big:l")
				o.Fill = &rs.Fill{Kind: "el", N: fw.Pick(t, "n", []int{1, 1, 1023, 1023, 1025, 1025, 5000, 5000, 66000}), Pad: fw.Pick(t, "pad", []int{0, 50})}
			default:
				o = genPersistOp(p, t, c.Cfg.Databases)
				if o.Each != nil {
					o.Each.N = min(o.Each.N, 200)
				}
			}
			if !pastOp(o) && !strings.EqualFold(o.Args[0].Str(), "spop") {
				return casing(t, o)
			}
		}
	}
	max := 40
	if tier == 1 {
		max = 200
	}
	c.Ops = fw.Seq(t, "ops", 0, max, op)
	switch fw.Uni(t, "kind", 6) {
	case 0: // a database that is not configured any more
		if len(c.Ops) > 0 {
			i := fw.Uni(t, "selAt", len(c.Ops))
			c.Ops[i] = cmd("select", itoa(n+fw.Pick(t, "over", []int{0, 1, 10, 1000})))
		}
	case 1:
		c.Damage = &LoadDamage{Op: fw.Uni(t, "op", 1000), Line: fw.Uni(t, "line", 1000)}
		c.Damage.Kind = fw.Pick(t, "damage", []string{"mark", "mark", "digit", "minus", "line", "number", "number", "number", "end", "end"})
		c.Damage.Aim = fw.Uni(t, "where", 1000)
		if c.Damage.Kind == "number" {
			c.Damage.By = fw.Pick(t, "by", []int{-30, -20, -12, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 30})
			c.Damage.Aim = fw.Pick(t, "aim", []int{0, 1, 300, 600, 999})
			if fw.Chance(t, "late", 1, 2) {
				c.Damage.Op = 999 - fw.Uni(t, "lateOp", 100)
			}
			c.Ops = append(c.Ops, fw.Seq(t, "pieceOps", 0, 4, func(t *rapid.T) rs.Op {
				return pieces(p, t)
			})...)
		}
		c.Damage.To = fw.B(fw.Pick(t, "to", []string{"x", "\x00", ":", "+", "-", " ", "\xff"}))
	default:
		c.After = fw.Seq(t, "after", 0, 6, func(t *rapid.T) rs.Op {
			for {
				if o := genPersistOp(p, t, c.Cfg.Databases); !pastOp(o) {
					return o
				}
			}
		})
	}
	return c
}

// damaged changes a header line of a record so that it cannot be one.
func damaged(rec string, d *LoadDamage) string {
	// header lines: the first, and the one before each argument
	var at, ends []int
	pos := 0
	line := func() int {
		i := strings.Index(rec[pos:], "\r\n")
		n, _ := strconv.Atoi(rec[pos+1 : pos+i])
		at = append(at, pos)
		pos += i + 2
		return n
	}
	for n := line(); n > 0; n-- {
		pos += line() + 2
		ends = append(ends, pos-2)
	}
	i := at[d.Line*len(at)/1000]
	switch d.Kind {
	case "end": // the line end behind an argument
		i = ends[d.Line*len(ends)/1000]
		to := []string{"\n\n", "\r\r", "\n\r", string(d.To) + "\n", "\r" + string(d.To), "\n", "\r", "", "\x00\x00"}
		return rec[:i] + to[d.Aim*len(to)/1000] + rec[i+2:]
	case "digit":
		to := string(d.To)
		if to == "+" || to == "-" {
			to = "x"
		}
		return rec[:i+1] + to + rec[i+1:]
	case "number":
		end := i + strings.Index(rec[i:], "\r\n")
		n, _ := strconv.Atoi(rec[i+1 : end])
		if d.Aim > 0 {
			var to []int
			for q := end + 4; q < min(len(rec), end+200); q++ {
				if (rec[q] == '$' || rec[q] == '*') && rec[q-2:q] != "\r\n" {
					to = append(to, q-2-(end+2))
				}
			}
			if len(to) > 0 {
				return rec[:i+1] + strconv.Itoa(to[d.Aim*len(to)/1000]) + rec[end:]
			}
		}
		return rec[:i+1] + strconv.Itoa(max(n+d.By, 0)) + rec[end:]
	case "minus":
		return rec[:i+1] + "-" + rec[i+1:]
	case "line":
		return rec[:i] + string(d.To) + "\r\n" + rec[i:]
	default:
		return rec[:i] + string(d.To) + rec[i+1:]
	}
}

func runLoad(e *fw.Env, cc any) error {
	c := cc.(*LoadCase)
	ops := rs.Expand(c.Ops)
	w := &rs.World{Srv: rs.NewServer(e, e.Scratch, c.Cfg), Model: rs.NewModel(c.Cfg.Databases, "")}
	defer w.Srv.Stop()
	defer w.Close()
	var recs []string
	sess := &rs.Sess{}
	invalid := -1
	now := rs.NowMs()
	for i, o := range ops {
		o = absolute(o, now)
		args := o.Strs()
		recs = append(recs, rs.Encode(args))
		if invalid >= 0 {
			continue
		}
		if strings.EqualFold(args[0], "select") && len(args) == 2 {
			if n, err := strconv.Atoi(args[1]); err == nil && n >= len(w.Model.DBs) {
				invalid = i
				continue
			}
		}
		if !w.Model.Apply(sess, args, now) {
			return nil
		}
	}
	damage := c.Damage
	if damage != nil && len(recs) > 0 {
		i := damage.Op * len(recs) / 1000
		recs[i] = damaged(recs[i], damage)
	} else {
		damage = nil
	}
	log := strings.Join(recs, "")
	if damage != nil && (damage.Kind == "number" || damage.Kind == "end") {
		// another number may give another well-formed log, or one that looks cut off
		switch framing(log) {
		case "", "torn":
			return nil
		}
		if invalid >= 0 {
			return nil
		}
		e.Label("wrong: " + damage.Kind)
	}
	if err := os.WriteFile(w.Srv.AofPath(), []byte(log), 0o644); err != nil {
		return fw.Infra("%v", err)
	}
	if damage != nil || invalid >= 0 {
		what := "a log with broken framing"
		if damage == nil {
			what = fmt.Sprintf("a log that selects database %s of %d", ops[invalid].Args[1].Str(), len(w.Model.DBs))
		}
		if err := w.Srv.StartProc(rs.FreePort(e.Shard)); err != nil {
			return err
		}
		end := time.Now().Add(rs.StartupTimeout)
		for {
			dead, why := w.Srv.Dead(20 * time.Millisecond)
			if dead {
				if strings.HasPrefix(why, "exit status 0") {
					return fw.Viol("the server ended without an error on %s", what)
				}
				if strings.Contains(why, "killed by") || strings.Contains(why, "address already in use") {
					return fw.Infra("%s", why)
				}
				break
			}
			if x, err := w.Srv.Dial(); err == nil {
				_ = x.C.SetDeadline(time.Now().Add(5 * time.Second))
				_, err = x.Do("ping")
				x.Close()
				if err == nil {
					if damage != nil {
						return fw.Viol("the server starts on %s", what)
					}
					// not refused: then nothing of the other database may be found anywhere
					w.Model.Pass = string(c.Cfg.Pass)
					d, err := w.Dump()
					if err != nil {
						return err
					}
					if diff := rs.Diff(w.Model.Observe(now), d, rs.DiffOpts{Tol: 5100, Near: now}); diff != "" {
						return fw.Viol("the server starts on %s, and its dataset is not that of the commands before: %s", what, diff)
					}
					return nil
				}
			}
			if time.Now().After(end) {
				return fw.Late("the server neither starts nor ends on %s", what)
			}
		}
		got, err := os.ReadFile(w.Srv.AofPath())
		if err != nil || !bytes.Equal(got, []byte(log)) {
			return fw.Viol("the server refused %s, but changed the file", what)
		}
		if damage != nil {
			e.Label("refused: broken framing")
		} else {
			e.Label("refused: unknown database")
		}
		if len(recs) >= 2 {
			e.NonTrivial()
		}
		return nil
	}
	if err := w.Srv.Start(e.Shard); err != nil {
		return err
	}
	w.Model.Pass = string(c.Cfg.Pass)
	d, err := w.Dump()
	if err != nil {
		return err
	}
	if diff := rs.Diff(w.Model.Observe(now), d, rs.DiffOpts{Tol: 5100, Near: now}); diff != "" {
		return fw.Viol("the dataset is not that of the %d commands of the log: %s", len(ops), diff)
	}
	if got, err := os.ReadFile(w.Srv.AofPath()); err != nil || !bytes.Equal(got, []byte(log)) {
		return fw.Viol("loading changed the log")
	}
	if len(c.After) > 0 {
		// deadlines relative to the time of loading are known to the server only
		w.Model.Widen()
		if err := w.Connect(1); err != nil {
			return err
		}
		if c.Cfg.Pass != "" {
			if err := w.Exec([]rs.Op{cmd("auth", string(c.Cfg.Pass))}, 1); err != nil {
				return err
			}
		}
		for _, o := range c.After {
			if err := w.Exec([]rs.Op{absolute(o, rs.NowMs())}, 1); err != nil {
				return err
			}
		}
		before, err := w.Dump()
		if err != nil {
			return err
		}
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 30000, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("after further commands and a restart: %s", diff)
		}
	}
	e.LabelN("commands", len(ops))
	if len(ops) >= 3 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C35", New: func() any { return &LoadCase{} }, Gen: genLoad, Run: runLoad,
		Rule: "logs of 0-40 (thorough 200) hand-made records: write commands of every type in any letter case over several databases, arguments of any bytes up to 3 MB and up to 5000 per command, failing (also by their number of arguments), unknown, reading and service commands (BGREWRITEAOF, AUTH), with and without a password; the dataset after the start is that of the model, the file is unchanged, and up to 6 further commands survive another restart; one log in six selects a database that is not configured, and one in six has the framing of any one record broken (marker, wrong or no number, extra line): these must be refused without touching the file; non-trivial: at least 3 commands, or a refused log of at least 2",
	})
}
