package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C19: order of log writes, fsyncs and replies in a system-call trace

type SyncCase struct {
	Fsync    string
	Clients  [][]SyncOp
	IdleMs   int  // after the load
	Rewrites bool // BGREWRITEAOF among the operations
	Last     int  `json:",omitempty"` // BGREWRITEAOF as the last operation, this many milliseconds after the load
}

// SyncOp is a batch of pipelined commands. Writes of a client touch only keys of its own.
type SyncOp struct {
	PauseMs int `json:",omitempty"`
	Cmds    []int
	Big     int `json:",omitempty"` // length of the values
	Slow    int `json:",omitempty"` // pause in ms before the replies are read
}

const (
	syPing = iota
	sySet
	sySetex
	syHset
	syHdel
	syRpush
	syLpush
	syLpop
	syRpop
	sySadd
	sySrem
	sySpop
	syZadd
	syZrem
	syZrank
	syZscore
	syExpire
	syExpireat
	sySelect
	syGetBig
	syRewrite
	syKinds
)

func (c *SyncCase) Steps() int {
	n := 0
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (c *SyncCase) Without(i, j int) any {
	n := *c
	n.Clients = nil
	k := 0
	for _, x := range c.Clients {
		var y []SyncOp
		for _, o := range x {
			if k < i || k >= j {
				y = append(y, o)
			}
			k++
		}
		n.Clients = append(n.Clients, y)
	}
	return &n
}

func genSync(t *rapid.T, tier int) any {
	c := &SyncCase{Fsync: fw.Pick(t, "fsync", []string{"no", "always", "always", "everysec", "everysec", ""})}
	c.Rewrites = fw.Chance(t, "rewrites", 1, 4)
	if fw.Chance(t, "rewriteAtEnd", 1, 3) {
		c.Last = fw.Pick(t, "last", []int{1, 1, 20, 300})
	}
	batches := 12
	if tier == 1 {
		batches = 40
	}
	if c.Fsync == "everysec" {
		c.IdleMs = 2300
	}
	for n := fw.Rng(t, "clients", 1, 3); n > 0; n-- {
		c.Clients = append(c.Clients, fw.Seq(t, "prog", 1, batches, func(t *rapid.T) SyncOp {
			o := SyncOp{}
			if fw.Chance(t, "pause", 1, 4) {
				o.PauseMs = fw.Pick(t, "ms", []int{1, 3, 10, 30})
				if c.Fsync == "everysec" && fw.Chance(t, "long", 1, 3) {
					o.PauseMs = fw.Pick(t, "longms", []int{200, 500, 900, 1100})
				}
			}
			o.Cmds = fw.Seq(t, "cmds", 1, fw.Pick(t, "depth", []int{1, 1, 3, 20, 150}), func(t *rapid.T) int {
				k := fw.Uni(t, "k", syKinds)
				if k == syRewrite && (!c.Rewrites || fw.Chance(t, "norw", 3, 4)) {
					k = sySet
				}
				return k
			})
			o.Big = fw.Pick(t, "big", []int{0, 0, 0, 100, 3000, 20000})
			if fw.Chance(t, "slow", 1, 5) {
				o.Slow = fw.Pick(t, "slowms", []int{5, 20, 60})
			}
			return o
		}))
	}
	return c
}

// syncClient knows, for each reply, the key that must be in the log and how often.
type syncClient struct {
	need []struct {
		key string
		n   int
	}
	started []time.Time
}

// prepared keys with elements to remove
func prepKey(c, seq int) string { return "c" + itoa(c) + "p" + itoa(seq) + "." }

func runSync(e *fw.Env, cc any) error {
	c := cc.(*SyncCase)
	if _, err := exec.LookPath("strace"); err != nil {
		return fw.Infra("strace is not installed")
	}
	s := rs.NewServer(e, e.Scratch, rs.Cfg{Aof: true, AofName: "a.aof", Fsync: c.Fsync})
	trace := filepath.Join(e.Scratch, "trace")
	s.Wrap = []string{"strace", "-f", "--seccomp-bpf", "-qq", "-y", "-xx", "-s", "4000000", "-ttt", "-o", trace, "-e",
		"trace=write,writev,pwrite64,pwritev,pwritev2,fsync,fdatasync,sync_file_range,sync,syncfs,sendto,sendmsg,openat,rename,renameat,renameat2"}
	defer s.Stop()
	if err := s.Start(e.Shard); err != nil {
		return err
	}
	conns := make([]*rs.Conn, len(c.Clients))
	for i := range conns {
		conn, err := s.Dial()
		if err != nil {
			return rs.Classify(s, "connecting", err)
		}
		defer conn.Close()
		conns[i] = conn
	}
	clients := make([]*syncClient, len(conns))
	// identify the connections in the trace, and prepare keys that commands remove elements from
	for i, conn := range conns {
		k := &syncClient{}
		clients[i] = k
		add := func(key string, n int) {
			k.need = append(k.need, struct {
				key string
				n   int
			}{key, n})
		}
		var sb strings.Builder
		sb.WriteString(rs.Encode([]string{"set", "id", "client" + itoa(i)}) + rs.Encode([]string{"get", "id"}))
		add("", 0)
		add("", 0)
		seq := 0
		for _, o := range c.Clients[i] {
			for _, x := range o.Cmds {
				seq++
				key := prepKey(i, seq)
				var a []string
				switch x {
				case syHdel:
					a = []string{"hset", key, "f", "v", "g", "v"}
				case syLpop, syRpop:
					a = []string{"rpush", key, "a", "b"}
				case sySrem, sySpop:
					a = []string{"sadd", key, "a", "b"}
				case syZrem, syZrank, syZscore:
					a = []string{"zadd", key, "1", "a", "2", "b"}
				case syExpire, syExpireat:
					a = []string{"set", key, "v"}
				default:
					continue
				}
				sb.WriteString(rs.Encode(a))
				add(key, 1)
			}
		}
		big := strings.Repeat("b", 60000)
		sb.WriteString(rs.Encode([]string{"set", "big" + itoa(i) + ".", big}))
		add("big"+itoa(i)+".", 1)
		n := len(k.need)
		if err := conn.Write(sb.String()); err != nil {
			return rs.Classify(s, "preparing", err)
		}
		for j := 0; j < n; j++ {
			r, err := conn.Recv()
			if err != nil {
				return rs.Classify(s, "preparing", err)
			}
			if r.IsErr() {
				return fw.Viol("preparing: reply %s", r)
			}
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, len(conns))
	for i := range conns {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = clients[i].run(s, conns[i], i, c.Clients[i])
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if c.Last > 0 {
		time.Sleep(time.Duration(c.Last) * time.Millisecond)
		k := clients[0]
		k.need = append(k.need, struct {
			key string
			n   int
		}{"", 0})
		r, err := conns[0].Do("bgrewriteaof")
		if err != nil {
			return rs.Classify(s, "the last bgrewriteaof", err)
		}
		if r.IsErr() {
			return fw.Viol("the last bgrewriteaof: reply %s", r)
		}
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(time.Duration(c.IdleMs) * time.Millisecond)
	end := time.Now()
	if err := s.Kill(syscall.SIGKILL); err != nil {
		return err
	}
	return judgeTrace(e, c, trace, s.AofPath(), clients, end)
}

func (k *syncClient) run(s *rs.Server, conn *rs.Conn, i int, ops []SyncOp) error {
	seq := 0
	for n, o := range ops {
		time.Sleep(time.Duration(o.PauseMs) * time.Millisecond)
		var sb strings.Builder
		val := strings.Repeat("v", o.Big) + "w"
		for _, x := range o.Cmds {
			seq++
			key := prepKey(i, seq)
			cnt := 1
			var a []string
			switch x {
			case syPing:
				a, key = []string{"ping"}, ""
			case sySet:
				a = []string{"set", key, val}
			case sySetex:
				a = []string{"setex", key, "5000", val}
			case syHset:
				a = []string{"hset", key, "f", val}
			case syHdel:
				a, cnt = []string{"hdel", key, "f"}, 2
			case syRpush:
				a = []string{"rpush", key, "a", val}
			case syLpush:
				a = []string{"lpush", key, "a", val}
			case syLpop:
				a, cnt = []string{"lpop", key}, 2
			case syRpop:
				a, cnt = []string{"rpop", key}, 2
			case sySadd:
				a = []string{"sadd", key, val}
			case sySrem:
				a, cnt = []string{"srem", key, "b"}, 2
			case sySpop:
				a, cnt = []string{"spop", key}, 2
			case syZadd:
				a = []string{"zadd", key, "1", val}
			case syZrem:
				a, cnt = []string{"zrem", key, "b"}, 2
			case syZrank:
				a, cnt = []string{"zremrangebyrank", key, "0", "0"}, 2
			case syZscore:
				a, cnt = []string{"zremrangebyscore", key, "1", "1"}, 2
			case syExpire:
				a, cnt = []string{"expire", key, "5000"}, 2
			case syExpireat:
				a, cnt = []string{"expireat", key, "99999999999"}, 2
			case syGetBig:
				a, key = []string{"get", "big" + itoa(i) + "."}, ""
			case syRewrite:
				a, key = []string{"bgrewriteaof"}, ""
			default: // the number of the database does not matter: keys are unique
				a, key = []string{"select", "0"}, ""
			}
			if key == "" {
				cnt = 0
			}
			k.need = append(k.need, struct {
				key string
				n   int
			}{key, cnt})
			sb.WriteString(rs.Encode(a))
		}
		sent := make(chan error, 1)
		go func() { sent <- conn.Write(sb.String()) }()
		time.Sleep(time.Duration(o.Slow) * time.Millisecond)
		for range o.Cmds {
			r, err := conn.Recv()
			if err != nil {
				return rs.Classify(s, fmt.Sprintf("client %d, batch %d", i, n), err)
			}
			if r.IsErr() {
				return fw.Viol("client %d, batch %d: reply %s", i, n, r)
			}
		}
		if err := <-sent; err != nil {
			return rs.Classify(s, fmt.Sprintf("client %d, batch %d", i, n), err)
		}
	}
	return nil
}

// unhex decodes strace's \xNN everywhere in s.
func unhex(s string) string {
	if !strings.Contains(s, `\x`) {
		return s
	}
	b := make([]byte, 0, len(s)/4)
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			n, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			if err == nil {
				b = append(b, byte(n))
				i += 4
				continue
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

// quoted returns the decoded contents of all quoted strings of s.
func quoted(s string) []string {
	var out []string
	for {
		i := strings.IndexByte(s, '"')
		if i < 0 {
			return out
		}
		j := strings.IndexByte(s[i+1:], '"')
		if j < 0 {
			return out
		}
		out = append(out, unhex(s[i+1:i+1+j]))
		s = s[i+j+2:]
	}
}

// annotation is the path of the descriptor in "6<path>".
func annotation(s string) (fd, path string) {
	i := strings.IndexByte(s, '<')
	j := strings.IndexByte(s, '>')
	if i < 0 || j < i {
		return s, ""
	}
	return s[:i], unhex(s[i+1 : j])
}

// logFile is the append-only file or the new one that a rewrite makes.
type logFile struct {
	name     string
	written  string // complete writes
	synced   int    // bytes of written covered by a completed fsync
	pending  float64
	osync    bool
	obsolete bool
}

type pendingCall struct {
	call string // text of the call up to "<unfinished"
	at   float64
	size map[*logFile]int
}

// replies splits the bytes sent on one connection into RESP values.
type replyCounter struct {
	client int
	buf    string
	n      int
}

func judgeTrace(e *fw.Env, c *SyncCase, trace, aof string, clients []*syncClient, end time.Time) error {
	f, err := os.Open(trace)
	if err != nil {
		return fw.Infra("no trace: %v", err)
	}
	defer f.Close()
	dir := filepath.Dir(aof)
	files := map[string]*logFile{} // by current path
	var all []*logFile
	file := func(path string) *logFile {
		path = strings.TrimSuffix(path, "(deleted)")
		path = strings.TrimSuffix(path, " ")
		if filepath.Dir(path) != dir || (path != aof && !strings.HasPrefix(filepath.Base(path), "temp-")) {
			return nil
		}
		if files[path] == nil {
			files[path] = &logFile{name: filepath.Base(path)}
			all = append(all, files[path])
		}
		return files[path]
	}
	socks := map[string]*replyCounter{}
	pend := map[string]*pendingCall{}
	checkedWrites, fsyncs := 0, 0
	serving := false
	var viol error
	// covered tells how often key occurs in the written (synced) bytes of the log
	covered := func(key string, synced bool) int {
		n := 0
		for _, l := range all {
			w := l.written
			if synced && !l.osync {
				w = w[:l.synced]
			}
			n += strings.Count(w, key)
		}
		return n
	}
	// a reply is about to be sent
	onReply := func(k *syncClient, client, idx int, at float64) error {
		if idx >= len(k.need) || k.need[idx].n == 0 {
			return nil
		}
		checkedWrites++
		need := k.need[idx]
		if got := covered("\n"+need.key+"\r", false); got < need.n {
			return fw.Viol("the reply to command %d of client %d (on key %s) is sent before its log record is written: the log has %d of %d records of the key at that moment", idx, client, need.key, got, need.n)
		}
		if c.Fsync == "always" {
			if got := covered("\n"+need.key+"\r", true); got < need.n {
				return fw.Viol("appendfsync=always: the reply to command %d of client %d (on key %s) is sent before its log record is fsynced: %d of %d records of the key are at that moment", idx, client, need.key, got, need.n)
			}
		}
		return nil
	}
	begin := func(name, args string, at float64) error {
		switch name {
		case "write", "writev", "sendto", "sendmsg":
			fd, path := annotation(args)
			if !strings.HasPrefix(path, "socket:") && !strings.HasPrefix(path, "TCP") {
				return nil
			}
			q := quoted(args)
			rc := socks[fd+path]
			if rc == nil {
				rc = &replyCounter{client: -1}
				socks[fd+path] = rc
			}
			if len(q) == 0 {
				return nil
			}
			// what is sent may be less than what is passed, but it is about to be sent; judged again when repeated
			data := rc.buf + strings.Join(q, "")
			br := bufio.NewReader(strings.NewReader(data))
			n := rc.n
			for {
				r, err := rs.ReadReply(br)
				if err != nil {
					// a reply that begins in this call counts as well
					if rc.client >= 0 && !atEnd(data, n-rc.n) {
						return onReply(clients[rc.client], rc.client, n, at)
					}
					return nil
				}
				if n == 1 && rc.client < 0 && strings.HasPrefix(r.Str, "client") {
					rc.client, _ = strconv.Atoi(r.Str[6:])
					serving = true
				}
				if rc.client >= 0 {
					if err := onReply(clients[rc.client], rc.client, n, at); err != nil {
						return err
					}
				}
				n++
			}
		}
		return nil
	}
	complete := func(name, args string, ret string, p *pendingCall, at float64) error {
		okRet := !strings.HasPrefix(ret, "-1")
		n, _ := strconv.Atoi(strings.Fields(ret + " x")[0])
		switch name {
		case "write", "writev", "sendto", "sendmsg", "pwrite64", "pwritev", "pwritev2":
			fd, path := annotation(args)
			if n <= 0 {
				return nil
			}
			data := strings.Join(quoted(args), "")
			if n < len(data) {
				data = data[:n]
			}
			if rc := socks[fd+path]; rc != nil {
				rc.buf += data
				for {
					r := strings.NewReader(rc.buf)
					br := bufio.NewReaderSize(r, 16)
					if _, err := rs.ReadReply(br); err != nil {
						return nil
					}
					left := br.Buffered() + r.Len()
					rc.buf = rc.buf[len(rc.buf)-left:]
					rc.n++
				}
			}
			if l := file(path); l != nil {
				if l.pending == 0 && c.Fsync == "everysec" && l.name == filepath.Base(aof) {
					l.pending = at
				}
				l.written += data
				if l.osync {
					l.synced = len(l.written)
					l.pending = 0
				}
			}
		case "fsync", "fdatasync", "sync_file_range", "sync", "syncfs":
			_, path := annotation(args)
			fsyncs++
			if c.Fsync == "no" && serving {
				if name == "sync" || name == "syncfs" || file(path) != nil {
					return fw.Viol("appendfsync=no: the server calls %s(%s) while serving", name, path)
				}
			}
			if !okRet || name == "sync_file_range" {
				return nil
			}
			for _, l := range all {
				if name == "sync" || name == "syncfs" || l == file(path) {
					l.synced = max(l.synced, p.size[l])
					if l.synced == len(l.written) {
						l.pending = 0
					} else if p.size[l] > 0 {
						// what was written after the start of the call is pending since then at the earliest
						l.pending = p.at
					}
				}
			}
		case "openat":
			if strings.Contains(args, "O_SYNC") || strings.Contains(args, "O_DSYNC") {
				if i := strings.LastIndexByte(ret, '<'); i >= 0 {
					if l := file(unhex(strings.Trim(ret[i:], "<>\n"))); l != nil {
						l.osync = true
					}
				}
			}
		case "rename", "renameat", "renameat2":
			q := quoted(args)
			if okRet && len(q) == 2 {
				for i := range q {
					if !filepath.IsAbs(q[i]) {
						q[i] = filepath.Join(dir, q[i])
					}
				}
				if old := file(q[0]); old != nil {
					if prev := files[q[1]]; prev != nil {
						if c.Fsync == "always" && q[1] == aof && old.synced < len(old.written) {
							return fw.Viol("appendfsync=always: a rewritten log replaces the log while %d of its %d bytes are not fsynced, acknowledged records are no longer on disk", len(old.written)-old.synced, len(old.written))
						}
						prev.obsolete = true
						if prev.pending > 0 && old.synced < len(old.written) {
							old.pending = prev.pending // its records are in the new file, not on disk either
						} else if old.synced < len(old.written) && c.Fsync == "everysec" {
							old.pending = at
						}
						prev.pending = 0
					}
					delete(files, q[0])
					old.name = filepath.Base(q[1])
					files[q[1]] = old
				}
			}
		}
		return nil
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	lines := 0
	var last float64
	const limit = 2.0
	for viol == nil {
		line, err := rd.ReadString('\n')
		if err != nil || !strings.HasSuffix(line, "\n") {
			break
		}
		lines++
		line = strings.TrimSuffix(line, "\n")
		parts := strings.SplitN(strings.TrimLeft(line, " "), " ", 2)
		if len(parts) < 2 {
			continue
		}
		pid := parts[0]
		parts = strings.SplitN(strings.TrimLeft(parts[1], " "), " ", 2)
		at, perr := strconv.ParseFloat(parts[0], 64)
		if perr != nil || len(parts) < 2 {
			continue
		}
		last = at
		text := parts[1]
		for _, l := range all {
			if l.pending > 0 && at-l.pending > limit {
				viol = fw.Late("appendfsync=everysec: a record written to the log is not fsynced within %.1f s", limit)
			}
		}
		if viol != nil {
			break
		}
		var name, args, ret string
		var p *pendingCall
		switch {
		case strings.HasPrefix(text, "<..."):
			p = pend[pid]
			delete(pend, pid)
			i := strings.LastIndex(text, ") = ")
			if p == nil || i < 0 {
				continue
			}
			ret = strings.TrimSpace(text[i+4:])
			j := strings.IndexByte(p.call, '(')
			name, args = p.call[:j], p.call[j+1:]
		default:
			j := strings.IndexByte(text, '(')
			if j < 0 || strings.HasPrefix(text, "---") || strings.HasPrefix(text, "+++") {
				continue
			}
			name = text[:j]
			p = &pendingCall{call: text, at: at, size: map[*logFile]int{}}
			for _, l := range all {
				p.size[l] = len(l.written)
			}
			if k := strings.Index(text, "<unfinished ...>"); k >= 0 {
				p.call = text[:k]
				pend[pid] = p
				viol = begin(name, p.call[j+1:], at)
				continue
			}
			i := strings.LastIndex(text, ") = ")
			if i < 0 {
				// a call that is never finished: the end of the server
				viol = begin(name, text[j+1:], at)
				continue
			}
			args, ret = text[j+1:i], strings.TrimSpace(text[i+4:])
			if viol = begin(name, args, at); viol != nil {
				break
			}
		}
		if viol == nil && name != "" && p != nil {
			viol = complete(name, args, ret, p, at)
		}
	}
	if viol == nil {
		last = max(last, float64(end.UnixMicro())/1e6)
		for _, l := range all {
			if l.pending > 0 && last-l.pending > limit {
				viol = fw.Late("appendfsync=everysec: a record written to the log is not fsynced within %.1f s", limit)
			}
		}
	}
	if viol != nil {
		return viol
	}
	identified := 0
	total := 0
	for _, rc := range socks {
		if rc.client >= 0 {
			identified++
			total += rc.n
		}
	}
	want := 0
	for _, k := range clients {
		want += len(k.need)
	}
	// the call that sent the last reply may not have returned when the server was killed
	if identified != len(clients) || total < want-len(clients) {
		return fw.Infra("the trace shows %d of %d connections and %d of %d replies (%d lines)", identified, len(clients), total, want, lines)
	}
	e.LabelN("replies to write commands checked", checkedWrites)
	e.LabelN("fsyncs", fsyncs)
	e.Label("appendfsync=" + c.Fsync)
	if checkedWrites >= 5 {
		e.NonTrivial()
	}
	return nil
}

// atEnd tells whether data contains exactly n complete replies and nothing else.
func atEnd(data string, n int) bool {
	br := bufio.NewReader(strings.NewReader(data))
	for i := 0; i < n; i++ {
		if _, err := rs.ReadReply(br); err != nil {
			return true
		}
	}
	_, err := br.ReadByte()
	return err != nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C19", New: func() any { return &SyncCase{} }, Gen: genSync, Run: runSync, Workers: 16, QuickS: 35,
		Rule: "1-3 clients send batches of 1-150 pipelined write commands of every kind, each on a key of its own, reads with large replies, slow reading and BGREWRITEAOF, with each appendfsync setting, to a server under strace; in the trace each reply's send must begin after the write of the command's record has completed (always: after an fsync that began later has completed), with everysec each write must be followed by an fsync within 2 s, also when idle, a rewritten file must be on disk when it replaces the log (always), and with no there must be no fsync; non-trivial: at least 5 replies to write commands checked",
	})
}
