package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/config"
	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/datastruct"
	"github.com/IfanTsai/metis/log"
	"github.com/IfanTsai/metis/server"
	"github.com/IfanTsai/metis/socket"
	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C51: instances in one process share nothing

// InstCase: several instances, each used by a goroutine of its own, in a process of its own that is built with the race detector.
type InstCase struct {
	Insts []Inst
	Same  int // how often each container or loop exists
}

// Inst is a container ("dict", "list", "set", "skip", "zset", "db"), an event loop ("loop") or a server ("server").
type Inst struct {
	K     string
	Ops   []InstOp `json:",omitempty"`
	Aof   string   `json:",omitempty"` // appendfsync of a server with a log
	Cmds  []rs.Op  `json:",omitempty"`
	Pause int      `json:",omitempty"` // microseconds between commands
}

// InstOp: what it does depends on the kind of instance. N is how often it is done, on K, K+1, ...
type InstOp struct {
	O uint8
	K int
	V int
	N int
}

func (c *InstCase) Steps() int {
	n := 0
	for _, i := range c.Insts {
		n += 1 + len(i.Ops) + len(i.Cmds)
	}
	return n
}

func (c *InstCase) Without(i, j int) any {
	n := &InstCase{Same: c.Same}
	at := 0
	gone := func() bool { at++; return at-1 >= i && at-1 < j }
	for _, x := range c.Insts {
		drop := gone()
		y := x
		y.Ops, y.Cmds = nil, nil
		for _, o := range x.Ops {
			if !gone() {
				y.Ops = append(y.Ops, o)
			}
		}
		for _, o := range x.Cmds {
			if !gone() {
				y.Cmds = append(y.Cmds, o)
			}
		}
		if !drop {
			n.Insts = append(n.Insts, y)
		}
	}
	return n
}

func genInst(t *rapid.T, tier int) any {
	c := &InstCase{Same: fw.Rng(t, "same", 1, 3)}
	servers := 0
	for i := fw.Rng(t, "insts", 1, 5); i > 0; i-- {
		x := Inst{K: fw.Pick(t, "inst", []string{"dict", "list", "set", "skip", "zset", "db", "loop", "server", "server", "server"})}
		most := 60
		if tier == 1 {
			most = 200
		}
		if x.K == "server" {
			servers++
			x.Aof = fw.Pick(t, "aof", []string{"", "no", "everysec", "always"})
			x.Pause = fw.Pick(t, "pause", []int{0, 0, 100, 1000})
			p := rs.NewPools(t, 4, 300)
			x.Cmds = fw.Seq(t, "cmds", 1, most, func(t *rapid.T) rs.Op {
				switch fw.Uni(t, "cmd", 30) {
				case 0:
					return rs.Cmd("bgrewriteaof")
				case 1:
					return rs.Cmd("RESTART")
				case 2:
					return rs.Cmd("RECONNECT")
				case 3:
					return rs.Cmd("select", strconv.Itoa(fw.Uni(t, "db", 3)))
				case 4:
					return rs.Cmd("KEYS", "*")
				default:
					return p.GenAny(t)
				}
			})
		} else {
			x.Ops = fw.Seq(t, "ops", 1, most, func(t *rapid.T) InstOp {
				return InstOp{O: uint8(fw.Uni(t, "o", 12)), K: fw.Rng(t, "k", 0, 60), V: fw.Rng(t, "v", 0, 30), N: fw.Pick(t, "n", []int{1, 1, 1, 10, 100, 1100})}
			})
		}
		c.Insts = append(c.Insts, x)
	}
	if servers < 2 && c.Same == 1 {
		c.Same = 2
	}
	return c
}

// instWork does the operations of a container or loop and returns what can be seen of it.
func instWork(x Inst) string {
	var out strings.Builder
	say := func(a ...any) { fmt.Fprintln(&out, a...) }
	var copies sync.WaitGroup
	defer copies.Wait()
	digests := []*string{}
	later := func(f func() string) { // a copy is read by another goroutine
		s := new(string)
		digests = append(digests, s)
		copies.Add(1)
		go func() {
			defer copies.Done()
			*s = f()
		}()
	}
	typ := &database.DictType{}
	key := func(k int) string { return "key" + strconv.Itoa(k) }
	dictStr := func(d *datastruct.Dict) string {
		var s []string
		it := datastruct.NewDictIterator(d)
		for e := it.Next(); e != nil; e = it.Next() {
			s = append(s, fmt.Sprint(e.Key, "=", e.Value))
		}
		it.Release()
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	listStr := func(q *datastruct.Quicklist) string {
		var s strings.Builder
		it := datastruct.NewQuicklistIterator(q)
		for v := it.Next(); v != nil; v = it.Next() {
			fmt.Fprint(&s, v, " ")
		}
		return s.String()
	}
	setStr := func(s *datastruct.Set) string {
		var m []string
		for _, v := range s.Range() {
			m = append(m, fmt.Sprint(v))
		}
		sort.Strings(m)
		return strings.Join(m, " ")
	}
	nodes := func(ns []*datastruct.SkiplistNode) string {
		var s strings.Builder
		for _, n := range ns {
			fmt.Fprint(&s, n.Member, ":", n.Score, " ")
		}
		return s.String()
	}
	els := func(ns []*datastruct.ZsetElement) string {
		var s strings.Builder
		for _, n := range ns {
			fmt.Fprint(&s, n.Member, ":", n.Score, " ")
		}
		return s.String()
	}
	each := func(o InstOp, most int, f func(k int)) {
		for i := 0; i < min(o.N, most); i++ {
			f(o.K + i)
		}
	}
	switch x.K {
	case "dict", "db":
		db := database.NewDatabase(0)
		for _, o := range x.Ops {
			d := db.Dict
			if x.K == "db" && o.V%3 == 0 {
				d = db.Expire
			}
			switch o.O {
			case 0, 1, 2, 3:
				each(o, 1100, func(k int) { say(d.Set(key(k), o.V)) })
			case 4, 5:
				each(o, 1100, func(k int) { say(d.Delete(key(k))) })
			case 6:
				each(o, 10, func(k int) { say(d.Get(key(k)), d.Find(key(k)) != nil) })
			case 7:
				each(o, 10, func(int) { say(d.GetRandomKey() != nil) })
			case 8:
				say(dictStr(d))
			case 9:
				if x.K == "db" {
					c := db.DeepCopy()
					later(func() string { return dictStr(c.Dict) + dictStr(c.Expire) })
				} else {
					c := d.DeepCopy()
					later(func() string { return dictStr(c) })
				}
			default:
				say(d.Size())
			}
		}
		say(dictStr(db.Dict), dictStr(db.Expire))
	case "list":
		q := datastruct.NewQuicklist()
		for _, o := range x.Ops {
			n := q.Len()
			switch o.O {
			case 0, 1:
				each(o, 1100, func(k int) { q.PushBack(key(k)) })
			case 2:
				each(o, 1100, func(k int) { q.PushFront(key(k)) })
			case 3:
				each(o, 10, func(k int) { say(q.Insert(k*37%(n+1), key(k))) })
			case 4:
				each(o, min(n, 700), func(int) { say(q.PopFront()) })
			case 5:
				each(o, min(n, 10), func(int) { say(q.PopBack()) })
			case 6:
				if n > 0 {
					say(q.Remove(o.K*37%n), q.Get(o.V*n/31))
				}
			case 7:
				say(q.Range(o.K, o.K+o.V))
			case 8:
				say(q.Find(key(o.K)))
			case 9:
				c := q.DeepCopy()
				later(func() string { return listStr(c) })
			default:
				say(q.Len())
			}
		}
		say(listStr(q))
	case "set":
		s, u := datastruct.NewSet(typ), datastruct.NewSet(typ)
		for _, o := range x.Ops {
			if o.V%3 == 0 {
				s, u = u, s
			}
			switch o.O {
			case 0, 1, 2:
				each(o, 1100, func(k int) { say(s.Add(key(k))) })
			case 3, 4:
				each(o, 1100, func(k int) { say(s.Delete(key(k))) })
			case 5:
				say(s.Contains(key(o.K)), s.Size() == 0 || s.GetRandom() != nil)
			case 6:
				say(setStr(s.Union(u)))
			case 7:
				say(setStr(s.Intersect(u)))
			case 8:
				say(setStr(s.Difference(u)))
			case 9:
				c := s.DeepCopy()
				later(func() string { return setStr(c) })
			default:
				say(setStr(s), s.Size())
			}
		}
	case "skip":
		s := datastruct.NewSkiplist()
		have := map[string]float64{}
		for _, o := range x.Ops {
			a, b := float64(o.V), float64(o.V+o.K/4)
			forget := func(ns []*datastruct.SkiplistNode) {
				say(nodes(ns))
				for _, n := range ns {
					delete(have, n.Member)
				}
			}
			switch o.O {
			case 0, 1, 2, 3:
				each(o, 300, func(k int) {
					if _, ok := have[key(k)]; !ok {
						have[key(k)] = float64(o.V + k%5)
						s.Insert(have[key(k)], key(k))
					}
				})
			case 4, 5:
				each(o, 300, func(k int) {
					if f, ok := have[key(k)]; ok {
						say(s.Delete(f, key(k)).Member)
						delete(have, key(k))
					}
				})
			case 6:
				forget(s.DeleteRangeByScore(a, a+1))
			case 7:
				forget(s.DeleteRangeByRank(int64(o.K+1), int64(o.K+3)))
			case 8:
				say(s.Count(a, b), s.HasInScoreRange(a, b), nodes(s.RangeByScore(a, b, -1, o.K%2 == 0)))
			case 9:
				say(nodes(s.RangeByRank(int64(o.K+1), int64(o.K+1+o.V), o.V%2 == 0)))
			case 10:
				say(s.GetRank(have[key(o.K)], key(o.K)))
			default:
				say(s.Length)
			}
		}
		say(nodes(s.RangeByRank(1, 1<<40, false)))
	case "zset":
		z := datastruct.NewZset(typ)
		for _, o := range x.Ops {
			a, b := float64(o.V), float64(o.V+o.K/4)
			switch o.O {
			case 0, 1, 2, 3:
				each(o, 300, func(k int) { say(z.Add(float64(o.V+k%5), key(k))) })
			case 4, 5:
				each(o, 300, func(k int) { say(z.Delete(key(k))) })
			case 6:
				say(els(z.DeleteRangeByScore(a, a+1)))
			case 7:
				say(els(z.DeleteRangeByRank(int64(o.K), int64(o.K+2))))
			case 8:
				say(z.Count(a, b), els(z.RangeByScore(a, b, -1, o.K%2 == 0)))
			case 9:
				c := z.DeepCopy()
				later(func() string { return els(c.RangeByRank(0, 1<<40, false)) })
			case 10:
				say(z.GetRank(key(o.K), o.V%2 == 0))
			default:
				say(z.Size(), els(z.RangeByRank(int64(o.K), int64(o.K+o.V), o.V%2 == 0)))
			}
		}
		say(els(z.RangeByRank(0, 1<<40, false)))
	case "loop":
		instLoop(x, say)
	}
	copies.Wait()
	for _, s := range digests {
		say(*s)
	}
	return out.String()
}

// instLoop runs an event loop with two pipes and timers that do one operation after the other.
func instLoop(x Inst, say func(a ...any)) {
	el, err := ae.NewEventLoop()
	if err != nil {
		say(err)
		return
	}
	var p [2][2]int
	for i := range p {
		if err := syscall.Pipe2(p[i][:], syscall.O_NONBLOCK|syscall.O_CLOEXEC); err != nil {
			say(err)
			return
		}
		defer syscall.Close(p[i][0])
		defer syscall.Close(p[i][1])
	}
	at, rounds := 0, 0
	var next func()
	reads := func(i int) ae.FileProc {
		return func(el *ae.EventLoop, fd socket.FD, data any) {
			buf := make([]byte, 100)
			n, err := fd.Read(buf)
			say("pipe", i, data, n, err, string(buf[:max(n, 0)]))
			next()
		}
	}
	next = func() {
		if at >= len(x.Ops) {
			el.Stop()
			return
		}
		o := x.Ops[at]
		at++
		i := o.K % 2
		switch o.O {
		case 0, 1, 2:
			syscall.Write(p[i][1], []byte(strings.Repeat("x", min(o.N, 50))))
		case 3, 4:
			if err := el.AddTimeEvent(ae.TypeTimeEventOnce, int64(o.V%3), func(el *ae.EventLoop, id int64, data any) {
				say("timer", id, data)
				next()
			}, o.K); err != nil {
				say(err)
				el.Stop()
			}
		case 5:
			say(el.RemoveFileEvent(socket.FD(p[i][0]), ae.TypeFileEventReadable), el.AddFileEvent(socket.FD(p[i][0]), ae.TypeFileEventReadable, reads(i), o.K))
			next()
		default:
			// the write end is ready at once
			if err := el.AddFileEvent(socket.FD(p[i][1]), ae.TypeFileEventWritable, func(el *ae.EventLoop, fd socket.FD, data any) {
				say("writable", i, data, el.RemoveFileEvent(fd, ae.TypeFileEventWritable))
				next()
			}, o.K); err != nil {
				say(err)
				el.Stop()
			}
		}
	}
	for i := range p {
		if err := el.AddFileEvent(socket.FD(p[i][0]), ae.TypeFileEventReadable, reads(i), i); err != nil {
			say(err)
		}
	}
	el.SetBeforeSleepProc(func(*ae.EventLoop) { rounds++ })
	next()
	say(el.Main(), rounds >= 0)
}

// instServer runs a server of this process and its only client.
func instServer(x Inst, name, dir string, port int) error {
	cfg := &config.Config{Host: "127.0.0.1", Port: uint16(port), DatabaseNum: 3, AofEnable: x.Aof != "", AofFilename: filepath.Join(dir, name), AofFsync: config.TypeAppnedFsync(x.Aof)}
	var srv *server.Server
	var done chan error
	start := func() {
		srv, done = server.NewServer(cfg), make(chan error, 1)
		s, d := srv, done
		go func() { d <- s.Run() }()
	}
	stop := func() error {
		srv.Stop()
		select {
		case err := <-done:
			return err
		case <-time.After(20 * time.Second):
			return fw.Late("Run does not return within 20 s after Stop")
		}
	}
	var conn *rs.Conn
	dial := func() error {
		var err error
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			if conn, err = rs.Dial("127.0.0.1:" + strconv.Itoa(port)); err == nil {
				return nil
			}
		}
		return fw.Late("no connection within 20 s: %v", err)
	}
	start()
	if err := dial(); err != nil {
		return err
	}
	model, sess := rs.NewModel(3, ""), &rs.Sess{}
	ask := func(args []string) error {
		t0 := rs.NowMs()
		r, err := conn.Do(args...)
		if err != nil {
			return fw.Late("%q: %v", args, err)
		}
		return model.Step(sess, args, r, t0, rs.NowMs()+1)
	}
	for i, o := range rs.Expand(x.Cmds) {
		args := o.Strs()
		what := fmt.Sprintf("command %d %.80q", i, args)
		switch {
		case args[0] == "RECONNECT":
			conn.Close()
			if err := dial(); err != nil {
				return err
			}
			sess = &rs.Sess{}
		case args[0] == "RESTART":
			if x.Aof == "" {
				continue
			}
			if err := stop(); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			conn.Close()
			start()
			if err := dial(); err != nil {
				return err
			}
			sess = &rs.Sess{}
			model.Widen()
		default:
			for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				if _, amb := model.Ambiguous(rs.NowMs(), 30); !amb {
					break
				}
			}
			if err := ask(args); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		time.Sleep(time.Duration(x.Pause) * time.Microsecond)
	}
	conn.Close()
	return stop()
}

// instances is the process in which a case runs.
func instances(file, dir string, ports []string) {
	b, err := os.ReadFile(file)
	var c InstCase
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	log.InitLogger(&config.Config{LogLevel: config.LogLevelError, LogFilepath: filepath.Join(dir, "log")})
	alone := make([]string, len(c.Insts))
	for i, x := range c.Insts {
		if x.K != "server" {
			alone[i] = instWork(x)
		}
	}
	errs := make([]error, len(c.Insts)*c.Same)
	var wg sync.WaitGroup
	begin := make(chan bool)
	for i, x := range c.Insts {
		for k := 0; k < c.Same; k++ {
			if x.K == "server" && k > 0 {
				break
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				name := fmt.Sprintf("%s %d", x.K, i)
				if x.K == "server" {
					port, _ := strconv.Atoi(ports[i])
					if err := instServer(x, strconv.Itoa(i)+".aof", dir, port); err != nil { // the logs are in one directory
						errs[i*c.Same] = fmt.Errorf("%s: %w", name, err)
					}
				} else if got := instWork(x); got != alone[i] {
					a, b := strings.Split(alone[i], "\n"), strings.Split(got, "\n")
					n := 0
					for n < len(a)-1 && n < len(b)-1 && a[n] == b[n] {
						n++
					}
					errs[i*c.Same+k] = fw.Viol("%s: beside others, result %d is %.200q, alone it was %.200q", name, n, b[n], a[n])
				}
			}()
		}
	}
	close(begin)
	wg.Wait()
	for _, err := range errs {
		if err == nil {
			continue
		}
		var v *fw.Violation
		switch {
		case errors.As(err, &v) && v.Soft:
			fmt.Printf("LATE %v\n", err)
		case errors.As(err, &v):
			fmt.Printf("BROKEN %v\n", err)
		default:
			fmt.Printf("LATE %v\n", err)
		}
		return
	}
	fmt.Println("HELD")
}

func runInst(e *fw.Env, cc any) error {
	c := cc.(*InstCase)
	b, err := json.Marshal(c)
	if err != nil {
		return fw.Infra("%v", err)
	}
	file := filepath.Join(e.Scratch, "case")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return fw.Infra("%v", err)
	}
	args := []string{"instances", file, e.Scratch}
	busy := 0
	for _, x := range c.Insts {
		port := 0
		if x.K == "server" {
			for port = 0; port == 0 || strings.Contains(strings.Join(args, " ")+" ", " "+strconv.Itoa(port)+" "); port = rs.FreePort(e.Shard) {
			}
			busy++
			e.LabelN("commands", len(x.Cmds))
		} else {
			busy += c.Same
		}
		e.Label("%s", x.K)
		args = append(args, strconv.Itoa(port))
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Dir = e.Scratch
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := rs.StartCmd(cmd); err != nil {
		return fw.Infra("%v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	inTime := timer.Stop()
	res := strings.TrimSpace(out.String())
	tail := errOut.String()
	if len(tail) > 3000 {
		tail = tail[:3000]
	}
	switch {
	case !inTime:
		return fw.Late("not done within 60 s")
	case strings.Contains(tail, "WARNING: DATA RACE"):
		return fw.Viol("%d instances in one process: the race detector reports:\n%s", busy, tail)
	case strings.HasPrefix(res, "BROKEN "):
		return fw.Viol("%s", res[7:])
	case strings.HasPrefix(res, "LATE "):
		return fw.Late("%s", res[5:])
	case err != nil:
		return fw.Late("%d instances in one process, it ends: %v\n%s%s", busy, err, res, tail)
	case res != "HELD":
		return fw.Infra("%q", res)
	}
	e.LabelN("instances", busy)
	if busy > 1 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C51", New: func() any { return &InstCase{} }, Gen: genInst, Run: runInst, QuickS: 20, ThoroughS: 300, CaseTimeout: 90 * time.Second,
		Rule: "1-5 instances of dict, database, list, set, skiplist, zset, event loop (each 1-3 times) and server, each used by a goroutine of its own, in one process with the race detector; what a container or loop shows is the same as alone, replies of a server equal its own model's, also across rewrites and restarts of one of them beside the others, and there is no race; non-trivial: more than one instance",
	})
}
