package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C01: segmentation and pipelining

// SegCase is a request sequence and a segmentation of its bytes.
type SegCase struct {
	Aof    bool
	Ops    []rs.Op
	Sizes  []int // segment sizes, used in turn
	PauseU int   // microseconds between segments
	// Reading: 0 concurrently, 1 only after everything has been sent, otherwise pauses of this many microseconds between replies
	Read int
	// Fit and FitBy: a last request makes the stream FitBy bytes longer than a multiple of Fit.
	Fit   int `json:",omitempty"`
	FitBy int `json:",omitempty"`
}

func (c *SegCase) Steps() int { return len(c.Ops) }
func (c *SegCase) Without(i, j int) any {
	n := *c
	n.Ops = append(append([]rs.Op{}, c.Ops[:i]...), c.Ops[j:]...)
	return &n
}

func genBasicOp(t *rapid.T, big bool) rs.Op {
	key := fw.Pick(t, "key", []string{"a", "b", "c"})
	arg := func() fw.Arg { return rs.GenArg(t, "arg", big) }
	mk := func(name string, args ...fw.Arg) rs.Op {
		return rs.Op{Args: append([]fw.Arg{fw.A(name)}, args...)}
	}
	switch fw.Uni(t, "op", 16) {
	case 0, 1, 2:
		return mk("set", fw.A(key), arg())
	case 3, 4:
		return mk("get", fw.A(key))
	case 5:
		n := fw.Rng(t, "n", 1, 6)
		o := mk("rpush", fw.A("l"+key))
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, arg())
		}
		return o
	case 6:
		o := mk("rpush", fw.A("l"+key))
		o.Fill = &rs.Fill{Kind: "el", N: fw.Pick(t, "fill", []int{10, 10, 100, 100, 500, 500, 1200, 1200, 5000, 20000}), Pad: fw.Pick(t, "pad", []int{0, 0, 40})}
		return o
	case 7:
		return mk("lrange", fw.A("l"+key), fw.A("0"), fw.A(itoa(fw.Rng(t, "hi", 0, 40))))
	case 8:
		return mk("llen", fw.A("l"+key))
	case 9:
		return mk("lpop", fw.A("l"+key))
	case 10:
		return mk("hset", fw.A("h"+key), arg(), arg())
	case 11:
		return mk("hget", fw.A("h"+key), arg())
	case 12:
		return mk("ping")
	case 13:
		return mk("select", fw.A(itoa(fw.Rng(t, "db", 0, 3))))
	case 14:
		return rs.Op{Args: append([]fw.Arg{arg()}, arg())} // hardly ever a command
	default:
		return mk("rpop", fw.A("l"+key))
	}
}

func genSeg(t *rapid.T, tier int) any {
	c := &SegCase{Aof: fw.Chance(t, "aof", 1, 4)}
	tiny := fw.Chance(t, "tiny", 2, 5)
	max := 40
	if tier == 1 {
		max = 150
	}
	if tiny {
		max = 12
	}
	big := !tiny && fw.Chance(t, "big", 2, 3)
	c.Ops = fw.Seq(t, "ops", 1, max, func(t *rapid.T) rs.Op {
		o := genBasicOp(t, big)
		if tiny {
			o.Fill = nil
			if len(o.Args) < 3 && strings.HasSuffix(string(o.Args[0].S), "push") {
				o.Args = append(o.Args, fw.A("x"))
			}
		}
		return o
	})
	if tiny {
		c.Sizes = fw.Seq(t, "sizes", 1, 6, func(t *rapid.T) int {
			return fw.Pick(t, "size", []int{1, 1, 1, 2, 3, 4, 7, 15})
		})
	} else {
		c.Sizes = fw.Seq(t, "sizes", 1, 8, func(t *rapid.T) int {
			return fw.Pick(t, "size", []int{5, 100, 1000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 20000, 65536, 1 << 20, fw.Rng(t, "any", 1, 9000)})
		})
	}
	if !tiny && fw.Chance(t, "storm", 1, 3) { // many small requests in a few segments
		o := fw.Pick(t, "stormOp", []rs.Op{cmd("ping"), cmd("set", "n{}", "v{}"), cmd("get", "a"), cmd("rpush", "ls", "{}"), cmd("hget", "ha", "{}"), cmd("x")})
		o.Each = &rs.Each{N: fw.Pick(t, "stormN", []int{30, 150, 300, 700, 1500})}
		pos := fw.Uni(t, "stormAt", len(c.Ops)+1)
		if fw.Chance(t, "stormAlone", 1, 2) {
			c.Ops, pos = nil, 0
		}
		c.Ops = append(c.Ops[:pos:pos], append([]rs.Op{o}, c.Ops[pos:]...)...)
		c.Sizes = []int{fw.Pick(t, "stormSize", []int{4096, 65536, 1 << 20, 1 << 20, 1 << 20})}
	}
	if !tiny && fw.Chance(t, "fit", 1, 4) {
		c.Fit, c.FitBy = fw.Pick(t, "fitTo", []int{4096, 4096, 8192, 16384, 65536}), fw.Pick(t, "fitBy", []int{0, 0, -1, 1})
		if fw.Chance(t, "fitOnly", 1, 2) {
			c.Ops = c.Ops[:min(len(c.Ops), fw.Uni(t, "fitOps", 3))]
		}
	}
	c.PauseU = fw.Pick(t, "pause", []int{0, 0, 100, 400, 1500})
	c.Read = fw.Pick(t, "read", []int{0, 0, 1, 300})
	return c
}

func runSeg(e *fw.Env, cc any) error {
	c := cc.(*SegCase)
	if len(c.Sizes) == 0 {
		return nil
	}
	cfg := rs.Cfg{Databases: 4}
	if c.Aof {
		cfg.Aof, cfg.AofName, cfg.Fsync = true, "a.aof", "no"
	}
	w, err := rs.World0(e, cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	var sb strings.Builder
	var bounds []int
	ops := rs.Expand(c.Ops)
	for _, o := range ops {
		sb.WriteString(rs.Encode(o.Strs()))
		bounds = append(bounds, sb.Len())
	}
	if c.Fit > 0 {
		size := func(n int) int { return sb.Len() + len(rs.Encode([]string{"set", "fit", strings.Repeat("f", n)})) }
		n := 0
		for k := 1; n <= 0; k++ {
			if n = k*c.Fit + c.FitBy - size(0); n > 0 {
				n -= size(n) - size(0) - n // the digits of the length
			}
		}
		o := cmd("set", "fit", strings.Repeat("f", n))
		ops = append(ops, o)
		sb.WriteString(rs.Encode(o.Strs()))
		bounds = append(bounds, sb.Len())
		e.Label("fitted to the size of a buffer")
	}
	stream := sb.String()
	conn := w.Conns[0]
	t0 := rs.NowMs()
	sent := make(chan error, 1)
	inside, merged, segs := 0, 0, 0
	isBound := map[int]bool{0: true}
	for _, b := range bounds {
		isBound[b] = true
	}
	send := func() error {
		pos := 0
		for i := 0; pos < len(stream); i++ {
			n := min(max(c.Sizes[i%len(c.Sizes)], 1), len(stream)-pos)
			// a segment of tiny size in a huge stream would take forever
			if len(stream) > 200000 && n < 4000 {
				n = min(4000, len(stream)-pos)
			}
			if err := conn.Write(stream[pos : pos+n]); err != nil {
				return err
			}
			for b := pos + 1; b < pos+n; b++ {
				if isBound[b] {
					merged++
					break
				}
			}
			pos += n
			segs++
			if !isBound[pos] {
				inside++
			}
			if c.PauseU > 0 && i < 400 {
				time.Sleep(time.Duration(c.PauseU) * time.Microsecond)
			}
		}
		return nil
	}
	go func() { sent <- send() }()
	waited := false
	if c.Read == 1 {
		if err := <-sent; err != nil {
			return rs.Classify(w.Srv, "sending", err)
		}
		waited = true
	}
	for i, o := range ops {
		r, err := conn.Recv()
		if err != nil {
			return rs.Classify(w.Srv, fmt.Sprintf("reply %d of %d, to %s", i+1, len(ops), fw.Shorts(o.Strs())), err)
		}
		if err := w.Model.Step(w.Sess[0], o.Strs(), r, t0, rs.NowMs()); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("reply %d of %d: %s", i+1, len(ops), v.Msg)
			}
			return err
		}
		if c.Read > 1 && i < 200 {
			time.Sleep(time.Duration(c.Read) * time.Microsecond)
		}
	}
	if !waited {
		if err := <-sent; err != nil {
			return rs.Classify(w.Srv, "sending", err)
		}
	}
	// nothing may follow the last reply
	r, err := conn.Do("ping")
	if err != nil {
		return rs.Classify(w.Srv, "PING after the last reply", err)
	}
	if r.Kind != '+' || r.Str != "PONG" {
		return fw.Viol("after the %d replies to %d requests, PING was answered by %s", len(ops), len(ops), r)
	}
	if err := w.CheckDump("after all requests"); err != nil {
		return err
	}
	if len(ops) >= 3 && (inside > 0 || merged > 0) {
		e.NonTrivial()
	}
	if inside > 0 {
		e.Label("cut inside a request")
	}
	if merged > 0 {
		e.Label("segments holding several requests")
	}
	e.LabelN("segments", segs)
	e.LabelN("requests", len(ops))
	return nil
}

// ---- C04: slow readers

// SlowStep is one step of the script of the slow connection.
type SlowStep struct {
	Op    *rs.Op `json:",omitempty"` // send a request
	Rep   int    `json:",omitempty"` // so many times
	Read  int    `json:",omitempty"` // read that many bytes
	Sleep int    `json:",omitempty"` // milliseconds
}

type SlowCase struct {
	Setup  []rs.Op
	RcvBuf int
	Script []SlowStep
	Chunk  int  // size of the final reads
	Others int  // requests of the other client per step
	Half   bool // the client stops sending before it reads the rest
}

func (c *SlowCase) Steps() int { return len(c.Script) }
func (c *SlowCase) Without(i, j int) any {
	n := *c
	n.Script = append(append([]SlowStep{}, c.Script[:i]...), c.Script[j:]...)
	return &n
}

func genSlow(t *rapid.T, tier int) any {
	c := &SlowCase{}
	size := func() int {
		return fw.Pick(t, "size", []int{1, 1000, 100000, 1 << 20, 3 << 20, 5<<20 + 13, 9 << 20})
	}
	nset := fw.Rng(t, "nset", 1, 4)
	for i := 0; i < nset; i++ {
		c.Setup = append(c.Setup, rs.Op{Args: []fw.Arg{fw.A("set"), fw.A("s" + itoa(i)), {S: fw.B(fw.Pick(t, "fillch", []string{"ab", "\r\n", "$1\r\nx", "\x00\xff"})), N: size() / 2}}})
	}
	if fw.Chance(t, "list", 2, 3) {
		o := cmd("rpush", "l")
		o.Fill = &rs.Fill{Kind: "el", N: fw.Pick(t, "n", []int{10, 300, 3000, 20000}), Pad: fw.Pick(t, "pad", []int{0, 10, 300})}
		if fw.Chance(t, "many", 1, 6) {
			o.Fill = &rs.Fill{Kind: "el", N: fw.Pick(t, "n2", []int{66000, 140000})}
		}
		c.Setup = append(c.Setup, o)
	}
	if fw.Chance(t, "hash", 1, 2) {
		o := cmd("hset", "h")
		o.Fill = &rs.Fill{Kind: "fv", N: fw.Pick(t, "n", []int{10, 300, 3000})}
		c.Setup = append(c.Setup, o)
	}
	c.RcvBuf = fw.Pick(t, "rcv", []int{0, 4096, 4096, 65536})
	max := 16
	if tier == 1 {
		max = 40
	}
	c.Script = fw.Seq(t, "script", 2, max, func(t *rapid.T) SlowStep {
		switch k := fw.Uni(t, "step", 10); {
		case k < 6:
			var o rs.Op
			switch fw.Uni(t, "req", 8) {
			case 0, 1, 2:
				o = cmd("get", "s"+itoa(fw.Uni(t, "s", nset)))
			case 3:
				o = cmd("lrange", "l", itoa(fw.Rng(t, "a", 0, 50)), "-1")
			case 4:
				o = cmd("hkeys", "h")
			case 5:
				o = cmd("ping")
			case 6:
				o = cmd("nosuchcommand")
			default:
				o = cmd("rpush", "n", "x")
			}
			s := SlowStep{Op: &o}
			if n := o.Args[0].Str(); (n == "ping" || n == "nosuchcommand" || n == "rpush") && fw.Chance(t, "rep", 1, 2) {
				s.Rep = fw.Pick(t, "reps", []int{2, 100, 3000, 20000})
			}
			return s
		case k < 9:
			return SlowStep{Read: fw.Pick(t, "read", []int{1, 7, 100, 5000, 60000, 1 << 20, 4 << 20, fw.Rng(t, "any", 1, 30000)})}
		default:
			return SlowStep{Sleep: fw.Pick(t, "sleep", []int{1, 3, 10, 40})}
		}
	})
	c.Chunk = fw.Pick(t, "chunk", []int{500, 4096, 50000, 1 << 20})
	c.Others = fw.Rng(t, "others", 0, 3)
	c.Half = fw.Chance(t, "half", 1, 3)
	return c
}

func dialBuf(addr string, rcv int) (net.Conn, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if rcv > 0 {
		d.Control = func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) {
				_ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, rcv)
			})
		}
	}
	return d.Dial("tcp4", addr)
}

func runSlow(e *fw.Env, cc any) error {
	c := cc.(*SlowCase)
	w, err := rs.World0(e, rs.Cfg{}, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec(c.Setup, 1); err != nil {
		return err
	}
	nc, err := dialBuf(w.Srv.Addr, c.RcvBuf)
	if err != nil {
		return rs.Classify(w.Srv, "connecting", err)
	}
	defer nc.Close()
	st := &stream{c: nc}
	sess := &rs.Sess{}
	type pending struct{ args []string }
	var pend []pending
	other := func() error {
		for k := 0; k < max(c.Others, 1); k++ {
			t0 := time.Now()
			r, err := w.Conns[0].Do("ping")
			if err != nil {
				return rs.Classify(w.Srv, "PING of another client while replies to a slow reader are pending", err)
			}
			if r.Str != "PONG" {
				return fw.Viol("PING of another client was answered by %s", r)
			}
			if d := time.Since(t0); d > 5*time.Second {
				return fw.Late("PING of another client took %v while replies to a slow reader were pending", d)
			}
		}
		return nil
	}
	backlog := false
	for i, s := range c.Script {
		switch {
		case s.Op != nil:
			_ = nc.SetWriteDeadline(time.Now().Add(rs.ReplyTimeout))
			if _, err := nc.Write([]byte(strings.Repeat(rs.Encode(s.Op.Strs()), max(s.Rep, 1)))); err != nil {
				return rs.Classify(w.Srv, fmt.Sprintf("step %d: sending a request", i), err)
			}
			if len(pend) > 0 {
				backlog = true
			}
			for k := 0; k < max(s.Rep, 1); k++ {
				pend = append(pend, pending{s.Op.Strs()})
			}
		case s.Read > 0:
			// never wait for bytes that need not come
			if err := st.prefetch(s.Read, 3*time.Millisecond); err != nil {
				return rs.Classify(w.Srv, fmt.Sprintf("step %d: reading", i), err)
			}
		default:
			time.Sleep(time.Duration(s.Sleep) * time.Millisecond)
		}
		if err := other(); err != nil {
			return err
		}
	}
	conn := st.conn(c.Chunk)
	if c.Half {
		if err := nc.(*net.TCPConn).CloseWrite(); err != nil {
			return rs.Classify(w.Srv, "half-closing", err)
		}
	}
	total := 0
	for i, p := range pend {
		r, err := conn.Recv()
		if err != nil {
			return rs.Classify(w.Srv, fmt.Sprintf("reply %d of %d, to %s", i+1, len(pend), fw.Shorts(p.args)), err)
		}
		now := rs.NowMs()
		if err := w.Model.Step(sess, p.args, r, now, now); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("reply %d of %d: %s", i+1, len(pend), v.Msg)
			}
			return err
		}
		total += len(r.Str)
		if i%4 == 0 && i < 200 {
			if err := other(); err != nil {
				return err
			}
		}
	}
	if c.Half {
		// the server closes the connection when there is nothing more to do
		r, err := conn.Recv()
		if err == nil {
			return fw.Viol("after %d replies to %d requests of a half-closed connection there is another one: %s", len(pend), len(pend), r)
		}
		if !errors.Is(err, io.EOF) && !errors.Is(err, syscall.ECONNRESET) {
			return rs.Classify(w.Srv, "the end of a half-closed connection", err)
		}
		e.Label("half-closed")
	} else {
		r, err := conn.Do("ping")
		if err != nil {
			return rs.Classify(w.Srv, "PING after the last reply", err)
		}
		if r.Kind != '+' || r.Str != "PONG" {
			return fw.Viol("after %d replies PING was answered by %s", len(pend), r)
		}
	}
	if err := w.CheckDump("after all requests"); err != nil {
		return err
	}
	if total > 1<<20 && backlog {
		e.NonTrivial()
	}
	if total > 6<<20 {
		e.Label("more than 6 MB of replies")
	}
	e.LabelN("kilobytes of string replies", total>>10)
	return nil
}

// stream keeps bytes read ahead.
type stream struct {
	c   net.Conn
	buf []byte
}

func (s *stream) prefetch(n int, d time.Duration) error {
	b := make([]byte, 64<<10)
	for n > 0 {
		_ = s.c.SetReadDeadline(time.Now().Add(d))
		k, err := s.c.Read(b[:min(n, len(b))])
		s.buf = append(s.buf, b[:k]...)
		n -= k
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				return nil
			}
			return err
		}
	}
	return nil
}

func (s *stream) Read(b []byte) (int, error) {
	if len(s.buf) > 0 {
		n := copy(b, s.buf)
		s.buf = s.buf[n:]
		return n, nil
	}
	return s.c.Read(b)
}

func (s *stream) conn(chunk int) *rs.Conn { return rs.WrapConn(s.c, s, chunk) }

func init() {
	fw.Register(&fw.Prop{
		ID: "C01", New: func() any { return &SegCase{} }, Gen: genSeg, Run: runSeg,
		Rule: "1-40 (thorough 150) requests on one connection with arguments of any bytes, 0 to 200000 long, cut into segments of given sizes (from single bytes to 1 MB) with or without pauses, replies read concurrently, slowly or only at the end; replies and dataset compared with the model that executes the requests one by one; non-trivial: at least 3 requests, and a segment ends inside a request or holds several",
	})
	fw.Register(&fw.Prop{
		ID: "C04", New: func() any { return &SlowCase{} }, Gen: genSlow, Run: runSlow,
		Rule: "scripts of requests (replies of up to 9 MB and arrays of up to 140000 elements; small requests up to 20000 times at once), partial reads and pauses on a connection with a small or default receive buffer, while another client sends PINGs after every step; in a third of the cases the client ends its side before it reads the rest and must still get everything; the reply stream is parsed strictly and compared with the model; non-trivial: more than 1 MB of replies and a request sent while replies were pending",
	})
}
