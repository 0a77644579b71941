package main

import (
	"fmt"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C49: time alone changes nothing but what has a deadline

// IdleCase: many clients, each with keys of its own, pause between and within their requests.
type IdleCase struct {
	Cfg     rs.Cfg
	Clients []IdleClient
	Restart bool
}

// IdleClient: Start is a list of commands sent at once.
type IdleClient struct {
	Start []rs.Op
	Acts  []IdleAct
}

// IdleAct: "op" sends a command after the pause; "cut" sends Cut percent of it before the pause and the rest after it; "unread" sends N requests
// for a large value and reads the replies after the pause; "half" does so with one that is the last of the connection.
type IdleAct struct {
	K   string
	Ms  int
	Op  rs.Op
	Cut int `json:",omitempty"`
	N   int `json:",omitempty"`
}

func (c *IdleCase) Steps() int { return len(c.Clients) }
func (c *IdleCase) Without(i, j int) any {
	n := *c
	n.Clients = append(append([]IdleClient{}, c.Clients[:i]...), c.Clients[j:]...)
	return &n
}

const idleBig = 300 << 10

func genIdle(t *rapid.T, tier int) any {
	total := 32000
	pauses := []int{300, 1000, 2000, 4000, 6000, 11000, 16000, 31000, 31000}
	if tier == 1 {
		total = 130000
		pauses = append(pauses, 61000, 61000, 125000)
	}
	c := &IdleCase{Cfg: rs.Cfg{Databases: 3}, Restart: fw.Chance(t, "restart", 1, 2)}
	if fw.Chance(t, "pass", 1, 4) {
		c.Cfg.Pass = "secret"
	}
	if fw.Chance(t, "aof", 1, 2) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "everysec", "always"})
		if fw.Chance(t, "auto", 1, 2) {
			c.Cfg.Pct, c.Cfg.MinSize = 100, "1b"
		}
	}
	few := 20
	if fw.Chance(t, "few", 1, 4) { // hardly anything happens on the server
		few = 0
	}
	for i := fw.Rng(t, "clients", max(1, few), 2*few+3); i > 0; i-- {
		n := len(c.Clients)
		p := rs.NewPools(t, 3, 130)
		for k := range p.Keys {
			p.Keys[k] = fmt.Sprintf("c%d.%d", n, k)
		}
		op := func() rs.Op {
			key := fw.Pick(t, "key", p.Keys) + fw.Pick(t, "typed", []string{"", ":s", ":h", ":l", ":S", ":z"})
			switch fw.Uni(t, "op", 8) {
			case 0:
				return cmd("get", key)
			case 1:
				return cmd("ttl", key)
			case 2:
				return cmd("setex", key, itoa(fw.Rng(t, "sec", 1, total/1000)), "v")
			case 3:
				return cmd("expire", key, itoa(fw.Rng(t, "sec", 1, total/1000)))
			case 4:
				return cmd("select", itoa(fw.Uni(t, "db", 3)))
			default:
				return p.GenWrite(t)
			}
		}
		x := IdleClient{}
		for k := fw.Rng(t, "start", 0, 5); k > 0; k-- {
			x.Start = append(x.Start, op())
		}
		for left := total; left > 0; {
			a := IdleAct{K: fw.Pick(t, "kind", []string{"op", "op", "cut", "cut", "unread"}), Ms: min(fw.Pick(t, "ms", pauses), left), Op: op()}
			left -= a.Ms
			a.Cut = fw.Rng(t, "cut", 1, 99)
			a.N = fw.Pick(t, "n", []int{1, 1, 4, 20})
			if left <= 0 && fw.Chance(t, "half", 1, 4) {
				a.K = "half"
			}
			x.Acts = append(x.Acts, a)
		}
		c.Clients = append(c.Clients, x)
	}
	return c
}

func (x *IdleClient) run(w *rs.World, login []rs.Op, name string) error {
	if err := w.Exec(login, 1); err != nil {
		return err
	}
	if err := w.Exec([]rs.Op{cmd("set", name+".big", strings.Repeat("b", idleBig))}, 1); err != nil {
		return err
	}
	home := 0 // database of the large value
	if err := w.Exec(x.Start, 3); err != nil {
		return err
	}
	conn, sess := w.Conns[0], w.Sess[0]
	clear := func() { // no deadline passes during the next request
		for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			if _, amb := w.Model.Ambiguous(rs.NowMs(), 150); !amb {
				return
			}
		}
	}
	for n, a := range x.Acts {
		pause := time.Duration(a.Ms) * time.Millisecond
		what := fmt.Sprintf("act %d: after a pause of %v", n, pause)
		switch a.K {
		case "op":
			time.Sleep(pause)
			clear()
			if err := w.Exec([]rs.Op{a.Op}, 1); err != nil {
				return prefixed(err, what)
			}
		case "cut":
			args := a.Op.Strs()
			req := rs.Encode(args)
			k := max(1, len(req)*a.Cut/100)
			if err := conn.Write(req[:k]); err != nil {
				return rs.Classify(w.Srv, what, err)
			}
			time.Sleep(pause)
			clear()
			t0 := rs.NowMs()
			if err := conn.Write(req[k:]); err != nil {
				return rs.Classify(w.Srv, what+" within a request", err)
			}
			r, err := conn.Recv()
			if err != nil {
				return rs.Classify(w.Srv, what+" within a request", err)
			}
			if err := w.Model.Step(sess, args, r, t0, rs.NowMs()+1); err != nil {
				return prefixed(err, what+" within the request")
			}
		case "unread", "half":
			if sess.DB != home {
				if err := w.Exec([]rs.Op{cmd("select", itoa(home))}, 1); err != nil {
					return err
				}
			}
			if err := conn.Write(strings.Repeat(rs.Encode([]string{"get", name + ".big"}), a.N)); err != nil {
				return rs.Classify(w.Srv, what, err)
			}
			if a.K == "half" {
				conn.CloseWrite()
			}
			time.Sleep(pause)
			for i := 0; i < a.N; i++ {
				r, err := conn.Recv()
				if err != nil {
					return rs.Classify(w.Srv, fmt.Sprintf("%s before reading, reply %d of %d", what, i, a.N), err)
				}
				if len(r.Str) != idleBig || strings.Trim(r.Str, "b") != "" {
					return fw.Viol("%s before reading, reply %d of %d is %s", what, i, a.N, r)
				}
			}
		default:
			return fw.Infra("act %q", a.K)
		}
	}
	return nil
}

func prefixed(err error, what string) error {
	if v, ok := err.(*fw.Violation); ok {
		v.Msg = what + ": " + v.Msg
	}
	return err
}

func runIdle(e *fw.Env, cc any) error {
	c := cc.(*IdleCase)
	srv := rs.NewServer(e, e.Scratch, c.Cfg)
	if err := srv.Start(e.Shard); err != nil {
		return err
	}
	defer srv.Stop()
	var login []rs.Op
	if c.Cfg.Pass != "" {
		login = []rs.Op{cmd("auth", string(c.Cfg.Pass))}
	}
	worlds := make([]*rs.World, len(c.Clients))
	errs := make([]error, len(c.Clients))
	var wg sync.WaitGroup
	for i := range c.Clients {
		w := &rs.World{Srv: srv, Model: rs.NewModel(c.Cfg.Databases, string(c.Cfg.Pass))}
		if err := w.Connect(1); err != nil {
			return err
		}
		defer w.Close()
		worlds[i] = w
	}
	for i := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = prefixed(c.Clients[i].run(worlds[i], login, "c"+itoa(i)), "client "+itoa(i))
		}()
	}
	wg.Wait()
	all := &rs.World{Srv: srv, Model: rs.NewModel(c.Cfg.Databases, string(c.Cfg.Pass))}
	long := 0
	for i, err := range errs {
		if err != nil {
			return err
		}
		for db, m := range worlds[i].Model.DBs {
			for k, v := range m {
				all.Model.DBs[db][k] = v
			}
		}
		for _, a := range c.Clients[i].Acts {
			e.Label("%s", a.K)
			if a.Ms >= 10000 {
				long++
			}
		}
	}
	e.LabelN("clients", len(c.Clients))
	e.LabelN("pauses of 10 s and more", long)
	if err := all.CheckDump("in the end"); err != nil {
		return err
	}
	if c.Restart && c.Cfg.Aof {
		if err := all.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		all.Model.Widen()
		if err := all.CheckDump("after a restart"); err != nil {
			return err
		}
		e.Label("restart")
	}
	if long > 0 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C49", New: func() any { return &IdleCase{} }, Gen: genIdle, Run: runIdle, QuickS: 30, ThoroughS: 300, CaseTimeout: 240 * time.Second,
		Rule: "1-3 or 20-43 clients at a time, each with keys of its own, pause for 0.3-31 s (thorough: up to 125 s) before a command, in the middle of one, before they read up to 6 MB of replies or after they have closed their side behind the last request; deadlines of 1-32 s run meanwhile; with and without password, appendonly, automatic rewrites and a restart; every reply and the dataset equal the model's; non-trivial: a client paused for 10 s or more",
	})
}
