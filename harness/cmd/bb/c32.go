package main

import (
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C32: thresholds of automatic rewrites

type AutoCase struct {
	Fsync  string
	Pct    int
	Min    int
	Steps_ []AutoStep `json:"Ops"`
}

type AutoStep struct {
	Kind string // "ops", "aim", "rewrite", "during" (a rewrite and commands while it runs), "restart"
	Ops  []rs.Op
	Aim  int // 0: min size, 1: min size + 1, 2: one byte below the growth threshold, 3: exactly the growth threshold
	Wait int // ms afterwards, if no rewrite is due
	Torn int `json:",omitempty"` // bytes of a torn command at the end of the file before a restart
}

func (c *AutoCase) Steps() int { return len(c.Steps_) }
func (c *AutoCase) Without(i, j int) any {
	n := *c
	n.Steps_ = append(append([]AutoStep{}, c.Steps_[:i]...), c.Steps_[j:]...)
	return &n
}

func genAuto(t *rapid.T, tier int) any {
	c := &AutoCase{Fsync: fw.Pick(t, "fsync", []string{"no", "no", "everysec", "always"})}
	c.Pct = fw.Pick(t, "pct", []int{0, 1, 10, 50, 100, 100, 101, 150, 300})
	c.Min = fw.Pick(t, "min", []int{0, 1, 100, 500, 1000, 4000, 20000})
	n := 30
	if tier == 1 {
		n = 100
	}
	key := func() string { return "k" + itoa(fw.Uni(t, "key", 6)) }
	one := func(t *rapid.T) rs.Op {
		switch fw.Uni(t, "op", 12) {
		case 0, 1:
			return cmd("rpush", "l", "a", "b", "c")
		case 2:
			return cmd("lpop", "l")
		case 3:
			return cmd("get", key())
		case 4:
			return cmd("sadd", "S", "a", "b", "c")
		case 5:
			return cmd("hset", "h", "f"+itoa(fw.Uni(t, "f", 30)), "v")
		case 6:
			return cmd("zadd", "z", itoa(fw.Uni(t, "sc", 10)), "m"+itoa(fw.Uni(t, "f", 30)))
		default:
			return rs.Op{Args: []fw.Arg{fw.A("set"), fw.A(key()), {S: "v", N: fw.Pick(t, "len", []int{1, 1, 10, 100, 100, 1000, 5000})}}}
		}
	}
	heavy := fw.Chance(t, "heavy", 1, 4) // a rewrite takes long enough to do something meanwhile
	c.Steps_ = fw.Seq(t, "steps", 3, n, func(t *rapid.T) AutoStep {
		s := AutoStep{Kind: "ops", Wait: fw.Pick(t, "wait", []int{0, 2, 6})}
		if heavy && fw.Chance(t, "during", 1, 3) {
			s.Kind = "during"
			for k := fw.Rng(t, "big", 1, 6); k > 0; k-- {
				s.Ops = append(s.Ops, rs.Op{Args: []fw.Arg{fw.A("set"), fw.A(key()), {S: "v", N: fw.Pick(t, "len", []int{10, 5000, 50000, 300000, 1000000})}}})
			}
			return s
		}
		switch k := fw.Uni(t, "kind", 16); {
		case k < 6:
			s.Ops = []rs.Op{one(t)}
		case k < 8:
			s.Ops = fw.Seq(t, "few", 2, 30, one)
		case k == 8:
			o := cmd("set", "k{}", "some value")
			o.Each = &rs.Each{N: fw.Pick(t, "n", []int{6, 50, 400})}
			for n := fw.Rng(t, "rep", 1, 6); n > 0; n-- {
				s.Ops = append(s.Ops, o)
			}
		case k == 9:
			// the keys are touched afterwards, so that the deletions are logged at once
			n := fw.Pick(t, "n", []int{6, 400})
			o, g := cmd("expire", "k{}", "-1"), cmd("get", "k{}")
			o.Each, g.Each = &rs.Each{N: n}, &rs.Each{N: n}
			s.Ops = []rs.Op{o, g}
			for _, k := range []string{"l", "h", "S", "z", "t"} {
				s.Ops = append(s.Ops, cmd("expire", k, "-1"), cmd("ttl", k))
			}
		case k == 10:
			s.Kind = "rewrite"
		case k == 11 && fw.Chance(t, "restart", 1, 2):
			s.Kind, s.Torn = "restart", fw.Pick(t, "torn", []int{0, 0, 1, 30, 600, 5000, 30000})
		default:
			s.Kind = "aim"
			s.Aim = fw.Uni(t, "aim", 4)
			s.Wait = 6
		}
		return s
	})
	if heavy {
		var fill []AutoStep
		for k := 0; k < 4; k++ {
			o := cmd("rpush", "heavy"+itoa(k))
			o.Fill = &rs.Fill{Kind: "el", N: 20000}
			fill = append(fill, AutoStep{Kind: "ops", Ops: []rs.Op{o}})
		}
		c.Steps_ = append(fill, c.Steps_...)
	}
	return c
}

// autoState follows the size of the file.
type autoState struct {
	c       *AutoCase
	w       *rs.World
	mark    *rs.AofMark
	base    int64 // size after the last rewrite; 0 in the beginning
	known   bool  // otherwise base is the size at the start of the server
	auto    int
	during  int
	refused int // steps above one threshold without a rewrite
}

// due tells whether a rewrite must happen at this size; known tells whether that is certain.
func (a *autoState) due(size int64) bool {
	if a.c.Pct == 0 || size <= int64(a.c.Min) {
		return false
	}
	return size*100 >= a.base*int64(100+a.c.Pct)
}

const autoLimit = 6 * time.Second

// errFresh: it is not clear whether a rewrite will happen.
var errFresh = errors.New("fresh")

// check looks at the file after some commands.
func (a *autoState) check(what string, wait int) error {
	size := a.mark.Size()
	if size < 0 {
		return fw.Infra("append-only file not found")
	}
	may := a.due(size)
	if !a.known && a.c.Pct > 0 && size > int64(a.c.Min) {
		may = true
	}
	must := a.due(size)
	if !may {
		time.Sleep(time.Duration(wait) * time.Millisecond)
		if a.mark.Replaced() {
			return fw.Viol("%s: the file of %d bytes was rewritten automatically, but the size after the previous rewrite is %d, the percentage %d and the minimum size %d", what, size, a.base, a.c.Pct, a.c.Min)
		}
		if size > int64(a.c.Min) || size*100 >= a.base*int64(100+a.c.Pct) {
			a.refused++
		}
		return nil
	}
	if !must {
		// after a restart either the size at the start or nothing is the base
		time.Sleep(30 * time.Millisecond)
		if !a.mark.Replaced() {
			return errFresh
		}
	} else if !a.mark.Wait(autoLimit) {
		if dead, why := a.w.Srv.Dead(0); dead {
			return fw.Viol("%s: the server process ended: %s", what, why)
		}
		return fw.Late("%s: the file of %d bytes is not rewritten within %v although the size after the previous rewrite is %d, the percentage %d and the minimum size %d", what, size, autoLimit, a.base, a.c.Pct, a.c.Min)
	}
	a.auto++
	a.renew()
	return nil
}

// manual rewrites the file by command. No other rewrite can be running.
func (a *autoState) manual() error {
	r, err := a.w.Conns[0].Do("bgrewriteaof")
	if err != nil {
		return rs.Classify(a.w.Srv, "bgrewriteaof", err)
	}
	if r.IsErr() {
		return fw.Viol("bgrewriteaof replied %s", r)
	}
	if !a.mark.Wait(15 * time.Second) {
		if dead, why := a.w.Srv.Dead(0); dead {
			return fw.Viol("the server process ended during a rewrite: %s", why)
		}
		return fw.Late("BGREWRITEAOF does not replace the append-only file")
	}
	a.renew()
	return nil
}

// renew remembers the file as it is after a rewrite.
func (a *autoState) renew() {
	a.mark.Close()
	a.mark = a.w.Srv.Mark()
	a.base = a.mark.Size()
	a.known = true
}

// restart: the size after the last rewrite is unknown, nothing is running as long as the file does not exceed the minimum.
func (a *autoState) restart(e *fw.Env) error {
	if err := a.w.Restart(e.Shard, signalOf(9), 0); err != nil {
		return err
	}
	a.mark.Close()
	a.mark = a.w.Srv.Mark()
	a.base, a.known = a.mark.Size(), false
	return nil
}

// fresh starts again with an empty file, when it is not clear what happened.
func (a *autoState) fresh(e *fw.Env) error {
	if err := a.w.Srv.Kill(syscall.SIGKILL); err != nil {
		return err
	}
	_ = os.Remove(a.w.Srv.AofPath())
	if err := a.restart(e); err != nil {
		return err
	}
	a.w.Model = rs.NewModel(2, "")
	a.base, a.known = 0, true
	return nil
}

func appendTo(path, text string) error {
	f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.WriteString(text)
	return err
}

func runAuto(e *fw.Env, cc any) error {
	c := cc.(*AutoCase)
	cfg := rs.Cfg{Databases: 2, Aof: true, AofName: "a.aof", Fsync: c.Fsync, Pct: c.Pct, MinSize: strconv.Itoa(c.Min)}
	w, err := rs.World0(e, cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	a := &autoState{c: c, w: w, known: true, mark: w.Srv.Mark()}
	defer func() { a.mark.Close() }()
	small := 0
	check := func(what string, wait int) error {
		err := a.check(what, wait)
		if err == errFresh {
			return a.fresh(e)
		}
		return err
	}
	for i, s := range c.Steps_ {
		what := fmt.Sprintf("step %d (%s)", i, s.Kind)
		switch s.Kind {
		case "restart":
			f := a.restart
			if a.mark.Size() > int64(c.Min) {
				f = a.fresh
			}
			if s.Torn > 0 {
				if err := w.Srv.Kill(syscall.SIGKILL); err != nil {
					return err
				}
				torn := "*3\r\n$3\r\nset\r\n$1\r\nt\r\n$50000\r\n" + strings.Repeat("t", 50000)
				if err := appendTo(w.Srv.AofPath(), torn[:s.Torn]); err != nil {
					return fw.Infra("%v", err)
				}
				e.Label("restarts with a torn tail")
			}
			if err := f(e); err != nil {
				return err
			}
		case "rewrite":
			if err := a.manual(); err != nil {
				return err
			}
		case "during":
			r, err := w.Conns[0].Do("bgrewriteaof")
			if err != nil {
				return rs.Classify(w.Srv, "bgrewriteaof", err)
			}
			if r.IsErr() {
				return fw.Viol("bgrewriteaof replied %s", r)
			}
			if err := w.Exec(s.Ops, 50); err != nil {
				return err
			}
			if a.mark.Replaced() { // too late for some of the commands
				if err := a.fresh(e); err != nil {
					return err
				}
				continue
			}
			if !a.mark.Wait(15 * time.Second) {
				if dead, why := a.w.Srv.Dead(0); dead {
					return fw.Viol("%s: the server process ended during a rewrite: %s", what, why)
				}
				return fw.Late("BGREWRITEAOF does not replace the append-only file")
			}
			a.renew()
			a.during++
			if err := check(what+", after the rewrite", 15); err != nil {
				return err
			}
		case "aim":
			// a command that brings the SELECT with it
			if err := w.Exec([]rs.Op{cmd("set", "t", "x")}, 1); err != nil {
				return err
			}
			if err := check(what+", before aiming", 6); err != nil {
				return err
			}
			size := a.mark.Size()
			target := int64(c.Min)
			switch s.Aim {
			case 1:
				target++
			case 2:
				target = (a.base*int64(100+c.Pct)+99)/100 - 1
			case 3:
				target = (a.base*int64(100+c.Pct) + 99) / 100
			}
			n := target - size - int64(len(rs.Encode([]string{"set", "t", ""})))
			for d := 0; d < 8 && n > 0 && int64(len(rs.Encode([]string{"set", "t", strings.Repeat("x", int(n))}))) != target-size; d++ {
				n--
			}
			if n < 1 || n > 200000 {
				continue
			}
			if err := w.Exec([]rs.Op{{Args: []fw.Arg{fw.A("set"), fw.A("t"), {S: "x", N: int(n)}}}}, 1); err != nil {
				return err
			}
			if a.mark.Size() == target {
				small++
			}
			if err := check(what+fmt.Sprintf(" at %d", target), s.Wait); err != nil {
				return err
			}
		default:
			ops := rs.Expand(s.Ops)
			if err := w.Exec(ops, 50); err != nil {
				return err
			}
			before := a.auto
			if err := check(what, s.Wait); err != nil {
				return err
			}
			if a.auto > before && len(ops) > 1 {
				// commands may have been executed after the switch, and another rewrite may be running
				if err := a.fresh(e); err != nil {
					return err
				}
			}
		}
	}
	time.Sleep(20 * time.Millisecond)
	if err := check("at the end", 20); err != nil {
		return err
	}
	if err := w.CheckDump("after the history"); err != nil {
		return err
	}
	e.LabelN("automatic rewrites", a.auto)
	e.LabelN("rewrites that outlasted commands", a.during)
	e.LabelN("steps above one threshold without a rewrite", a.refused)
	e.LabelN("sizes exactly at or next to a threshold", small)
	if a.refused > 0 && (a.auto > 0 || c.Pct == 0) {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C32", New: func() any { return &AutoCase{} }, Gen: genAuto, Run: runAuto,
		Rule: "3-30 (thorough 100) steps of single commands, bursts of up to 2400 overwriting commands, deletions, manual rewrites (also of large datasets, with up to 6 MB written while they run), restarts and commands sized so that the file ends exactly at or one byte next to a threshold, for percentages 0-300 and minimum sizes 0-20000; after each step the size of the file and the size after the last rewrite decide whether a rewrite must or must not happen; non-trivial: automatic rewrites happened (percentage above 0) and some step exceeded only one of the thresholds",
	})
}
