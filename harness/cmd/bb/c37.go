package main

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C37: the three forms of a request

// FormCase is a request sequence in mixed forms, and a segmentation of its bytes.
type FormCase struct {
	Cfg    rs.Cfg
	Ops    []rs.Op
	Forms  []Form // used in turn
	Sizes  []int  // segment sizes, used in turn; none: everything at once
	PauseU int
	Step   bool // wait for each reply before the next request
}

type Form = rs.Form

func (c *FormCase) Steps() int { return len(c.Ops) }
func (c *FormCase) Without(i, j int) any {
	n := *c
	n.Ops = append(append([]rs.Op{}, c.Ops[:i]...), c.Ops[j:]...)
	return &n
}

var encodeAs = rs.EncodeAs

func genForms(t *rapid.T) []Form {
	return fw.Seq(t, "forms", 1, 8, func(t *rapid.T) Form {
		f := Form{Kind: fw.Pick(t, "kind", []string{"array", "line", "line", "line", "bulk", "bulk"})}
		if f.Kind == "line" {
			f.First = fw.Pick(t, "first", []string{"+", "+", "+", "-", ":", " ", "x", "\x00", "\xff", "s"})
		}
		if fw.Chance(t, "noise", 1, 6) {
			f.Noise = fw.Seq(t, "noises", 1, 3, func(t *rapid.T) string {
				return fw.Pick(t, "n", []string{"\r\n", "*0\r\n", "$0\r\n", "$0\r\n\r\n", "*00\r\n"})
			})
		}
		return f
	})
}

func genForm(t *rapid.T, tier int) any {
	c := &FormCase{Cfg: rs.Cfg{Databases: 4}}
	if fw.Chance(t, "aof", 1, 3) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "always"})
	}
	p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 4), fw.Pick(t, "fillMax", []int{10, 130, 600}))
	word := func(t *rapid.T) string {
		switch fw.Uni(t, "wk", 8) {
		case 0:
			return ""
		case 1:
			return fw.Pick(t, "odd", []string{"\r", "\n", "\n\r", "a\rb", "\"q\"", "'", "\\", "\x00", "\xff\xfe", "*1", "$1", "+x", "\t", "0", "-0", "1e3"})
		case 2:
			return strings.Repeat(fw.Pick(t, "rep", []string{"a", "\r", "\x00"}), fw.Pick(t, "repN", []int{30, 1000, 4080, 4096, 8192, 20000}))
		default:
			return fw.Word(t, "w", 1, 6)
		}
	}
	max := 40
	if tier == 1 {
		max = 150
	}
	c.Ops = fw.Seq(t, "ops", 1, max, func(t *rapid.T) rs.Op {
		k := fw.Pick(t, "k", []string{"a", "b", "c"})
		w := func() string { return word(t) }
		switch fw.Uni(t, "op", 14) {
		case 0, 1:
			return cmd("set", k, w())
		case 2:
			return cmd("get", k)
		case 3:
			o := cmd("rpush", k+"l")
			for n := fw.Rng(t, "n", 1, 5); n > 0; n-- {
				o.Args = append(o.Args, fw.A(w()))
			}
			return o
		case 4:
			return cmd("lrange", k+"l", "0", "-1")
		case 5:
			return cmd("hset", k+"h", w(), w())
		case 6:
			return cmd("sadd", k+"s", w(), w())
		case 7:
			return cmd("zadd", k+"z", itoa(fw.Rng(t, "score", -3, 3)), w())
		case 8, 9:
			return cmd(fw.Pick(t, "one", []string{"ping", "ping", "PING", "randomget", "get", "nosuch", "set", "pi ng", "ping\r\n", "p", "select"}))
		case 10:
			return cmd("select", itoa(fw.Rng(t, "db", 0, 4)))
		case 11:
			return cmd(w(), w())
		case 12:
			return cmd("del", k, k+"l")
		default:
			return p.GenAny(t)
		}
	})
	c.Forms = genForms(t)
	if fw.Chance(t, "cut", 2, 3) {
		c.Sizes = fw.Seq(t, "sizes", 1, 6, func(t *rapid.T) int {
			return fw.Pick(t, "size", []int{1, 1, 2, 3, 5, 9, 30, 100, 1000, 4096, 4097, 8192})
		})
	}
	c.PauseU = fw.Pick(t, "pause", []int{0, 100, 400})
	c.Step = fw.Chance(t, "step", 1, 4)
	return c
}

// sendCut writes the stream in segments.
func sendCut(conn *rs.Conn, stream string, sizes []int, pauseU int) error {
	if len(sizes) == 0 {
		return conn.Write(stream)
	}
	pos := 0
	for i := 0; pos < len(stream); i++ {
		n := min(max(sizes[i%len(sizes)], 1), len(stream)-pos)
		if i > 500 { // the rest of a long stream in few pieces
			n = min(max(n, 3000), len(stream)-pos)
		}
		if err := conn.Write(stream[pos : pos+n]); err != nil {
			return err
		}
		pos += n
		if pauseU > 0 && i < 300 {
			time.Sleep(time.Duration(pauseU) * time.Microsecond)
		}
	}
	return nil
}

func runForm(e *fw.Env, cc any) error {
	c := cc.(*FormCase)
	if len(c.Forms) == 0 {
		return nil
	}
	w, err := rs.World0(e, c.Cfg, 1)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	conn := w.Conns[0]
	ops := rs.Expand(c.Ops)
	var streams []string
	kinds := map[string]bool{}
	for i, o := range ops {
		s, k := encodeAs(o.Strs(), c.Forms[i%len(c.Forms)])
		streams = append(streams, s)
		kinds[k] = true
		e.Label("%s", k)
	}
	t0 := rs.NowMs()
	sent := make(chan error, 1)
	if !c.Step {
		go func() { sent <- sendCut(conn, strings.Join(streams, ""), c.Sizes, c.PauseU) }()
	}
	for i, o := range ops {
		if c.Step {
			t0 = rs.NowMs()
			if err := sendCut(conn, streams[i], c.Sizes, c.PauseU); err != nil {
				return rs.Classify(w.Srv, "sending", err)
			}
		}
		r, err := conn.Recv()
		if err == nil {
			err = w.Model.Step(w.Sess[0], o.Strs(), r, t0, rs.NowMs())
		} else {
			err = rs.Classify(w.Srv, "no reply", err)
		}
		if err != nil {
			if v, ok := err.(*fw.Violation); ok {
				_, k := encodeAs(o.Strs(), c.Forms[i%len(c.Forms)])
				v.Msg = fmt.Sprintf("request %d of %d (%s %s): %s", i+1, len(ops), k, fw.Shorts(o.Strs()), v.Msg)
			}
			return err
		}
	}
	if !c.Step {
		if err := <-sent; err != nil {
			return rs.Classify(w.Srv, "sending", err)
		}
	}
	r, err := conn.Do("ping")
	if err != nil {
		return rs.Classify(w.Srv, "PING after the last reply", err)
	}
	if r.Kind != '+' || r.Str != "PONG" {
		return fw.Viol("after the replies to %d requests, PING was answered by %s", len(ops), r)
	}
	if err := w.CheckDump("after all requests"); err != nil {
		return err
	}
	if c.Cfg.Aof {
		before, err := w.Dump()
		if err != nil {
			return err
		}
		if err := w.Restart(e.Shard, syscall.SIGKILL, 0); err != nil {
			return err
		}
		after, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(before, after, rs.DiffOpts{Tol: 2100, Near: rs.NowMs()}); diff != "" {
			return fw.Viol("after a restart: %s", diff)
		}
	}
	if len(kinds) >= 2 && len(ops) >= 3 {
		e.NonTrivial()
	}
	return nil
}

// ---- C38: malformed requests

// BadCase sends complete requests, then a stream in which the framing of a request has been changed.
type BadCase struct {
	Cfg    rs.Cfg
	Before []rs.Op
	Req    rs.Op // the request that is changed
	Form   Form
	Muts   []BadMut
	After  []rs.Op // requests that follow in the same stream
	Sizes  []int
	PauseU int
	End    int // 0 close, 1 half-close, 2 reset, 3 stay
	Again  bool
}

// BadMut changes a token of the request: a header line, a line end or an argument.
type BadMut struct {
	At   int // permille of the tokens
	Kind string
	To   fw.B
}

func (c *BadCase) Steps() int { return len(c.Before) + len(c.After) }
func (c *BadCase) Without(i, j int) any {
	n := *c
	n.Before, n.After = nil, nil
	for k, o := range c.Before {
		if k < i || k >= j {
			n.Before = append(n.Before, o)
		}
	}
	for k, o := range c.After {
		if k+len(c.Before) < i || k+len(c.Before) >= j {
			n.After = append(n.After, o)
		}
	}
	return &n
}

func genPlainWrite(t *rapid.T) rs.Op {
	k := fw.Pick(t, "k", []string{"a", "b"})
	v := func() string {
		return fw.Pick(t, "v", []string{"v", "w", "", "xyz", "\r\n", "$3", "*1\r\n$4\r\nping\r\n", "*3\r\n$3\r\nset\r\n$1\r\nQ\r\n$1\r\nq\r\n", strings.Repeat("z", 5000)})
	}
	switch fw.Uni(t, "op", 7) {
	case 0, 1, 2:
		return cmd("set", k, v())
	case 3:
		return cmd("rpush", k+"l", v(), v())
	case 4:
		return cmd("hset", k+"h", v(), v())
	case 5:
		return cmd("sadd", k+"s", v())
	default:
		return cmd("zadd", k+"z", "1", v())
	}
}

func genBad(t *rapid.T, tier int) any {
	c := &BadCase{Cfg: rs.Cfg{Databases: 2}}
	if fw.Chance(t, "aof", 1, 3) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", "no"
	}
	c.Before = fw.Seq(t, "before", 0, 4, genPlainWrite)
	c.Req = genPlainWrite(t)
	c.Form = Form{Kind: fw.Pick(t, "form", []string{"array", "array", "array", "array", "array", "array", "line", "bulk"}), First: "+"}
	if c.Form.Kind == "bulk" {
		c.Req = cmd("ping")
	}
	c.Muts = fw.Seq(t, "muts", 1, 2, func(t *rapid.T) BadMut {
		m := BadMut{At: fw.Uni(t, "at", 1000), Kind: fw.Pick(t, "kind", []string{"num", "num", "num", "marker", "marker", "crlf", "crlf", "delete", "double", "insert", "byte", "cut"})}
		switch m.Kind {
		case "num":
			m.To = fw.B(fw.Pick(t, "num", []string{"-1", "-2", "+1", "++", "--", "x", "", "1048577", "536870913", "99999999999999999999", "1", "2", "4", "1000", "3x", "x3", " 3", "3 ", "03", "0x3", "3.0", "1e1", "-9223372036854775808", "9223372036854775807", "0"}))
		case "marker":
			m.To = fw.B(fw.Pick(t, "mk", []string{"*", "$", "+", "-", ":", "x", "\x00", " ", "\r", "\n", ""}))
		case "crlf":
			m.To = fw.B(fw.Pick(t, "crlf", []string{"\n", "\r", "", "\n\r", "\r\r", "\r\n\r\n", "xx", "x\n", "\rx", "\r\r\n", "  "}))
		case "insert":
			m.To = fw.B(fw.Pick(t, "ins", []string{"\r\n", "x", "$1\r\n", "*1\r\n", "*0\r\n", "$0\r\n", "+ping\r\n", "\n", " "}))
		case "byte":
			m.To = fw.B([]byte{fw.Byte(t, "b")})
		}
		return m
	})
	c.After = fw.Seq(t, "after", 1, 4, genPlainWrite)
	if fw.Chance(t, "cut", 1, 2) {
		c.Sizes = fw.Seq(t, "sizes", 1, 5, func(t *rapid.T) int {
			return fw.Pick(t, "size", []int{1, 1, 2, 3, 5, 9, 30, 100, 1000, 4096})
		})
	}
	c.PauseU = fw.Pick(t, "pause", []int{0, 200})
	c.End = fw.Uni(t, "end", 4)
	return c
}

// mutate changes tokens of an encoded request.
func mutateReq(s string, muts []BadMut) string {
	for _, m := range muts {
		toks := tokens(s)
		if len(toks) == 0 {
			return s
		}
		pick := func(ok func(string) bool) int {
			var at []int
			for i, x := range toks {
				if ok(x) {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				return -1
			}
			return at[m.At*len(at)/1000]
		}
		header := func(x string) bool { return x != "" && (x[0] == '*' || x[0] == '$') }
		crlf := func(x string) bool { return x == "\r\n" }
		any := func(x string) bool { return true }
		to := string(m.To)
		switch m.Kind {
		case "num":
			if i := pick(header); i >= 0 {
				n, err := strconv.Atoi(toks[i][1:])
				switch {
				case to == "++" && err == nil:
					to = strconv.Itoa(n + 1)
				case to == "--" && err == nil:
					to = strconv.Itoa(n - 1)
				}
				toks[i] = toks[i][:1] + to
			}
		case "marker":
			if i := pick(header); i >= 0 {
				toks[i] = to + toks[i][1:]
			}
		case "crlf":
			if i := pick(crlf); i >= 0 {
				toks[i] = to
			}
		case "delete":
			toks[pick(any)] = ""
		case "double":
			i := pick(any)
			toks[i] += toks[i]
		case "insert":
			i := pick(any)
			toks[i] = to + toks[i]
		case "byte":
			s := strings.Join(toks, "")
			i := m.At * len(s) / 1000
			toks = []string{s[:i], to, s[i+1:]}
		case "cut":
			s := strings.Join(toks, "")
			toks = []string{s[:m.At*len(s)/1000]}
		}
		s = strings.Join(toks, "")
	}
	return s
}

// tokens splits a stream at its line ends.
func tokens(s string) []string {
	var out []string
	for s != "" {
		i := strings.Index(s, "\r\n")
		if i < 0 {
			return append(out, s)
		}
		if i > 0 {
			out = append(out, s[:i])
		}
		out = append(out, "\r\n")
		s = s[i+2:]
	}
	return out
}

var (
	numOK  = regexp.MustCompile(`^[0-9]+$`)
	numBad = regexp.MustCompile(`^-0*[1-9][0-9]*$`)
)

// errOdd: the framing is neither right nor clearly wrong.
var (
	errOdd    = errors.New("unspecified framing")
	errBroken = errors.New("broken framing")
)

// parseStream is the reference parser: it returns the complete requests before the end or the first broken one.
func parseStream(s string) (reqs [][]string, rest string, err error) {
	start := s
	line := func() (string, bool, error) {
		i := strings.Index(s, "\r\n")
		if i > 60000 || (i < 0 && len(s) > 60000) {
			return "", false, errOdd
		}
		if i < 0 {
			return "", false, nil
		}
		l := s[:i]
		s = s[i+2:]
		return l, true, nil
	}
	num := func(l string, limit int) (int, error) {
		switch {
		case numOK.MatchString(l):
			n, err := strconv.Atoi(l)
			if err != nil || n > limit {
				return 0, errBroken
			}
			return n, nil
		case numBad.MatchString(l):
			return 0, errBroken
		}
		if _, err := strconv.Atoi(l); err == nil {
			return 0, errOdd
		}
		return 0, errBroken
	}
	arg := func(n int) (string, bool, error) {
		// a wrong line end may be noticed as soon as it is there, or with its second byte
		if len(s) < n+2 {
			return "", false, nil
		}
		if s[n:n+2] != "\r\n" {
			return "", false, errBroken
		}
		a := s[:n]
		s = s[n+2:]
		return a, true, nil
	}
	for {
		start = s
		if s == "" {
			return reqs, "", nil
		}
		mark := s[0]
		l, ok, err := line()
		if err != nil {
			return reqs, start, err
		}
		if !ok {
			return reqs, start, nil
		}
		switch mark {
		case '*':
			n, err := num(l[1:], 1024*1024)
			if err != nil {
				return reqs, start, err
			}
			var args []string
			for len(args) < n {
				full := s
				h, ok, err := line()
				if err != nil || !ok {
					return reqs, start, err
				}
				if full[0] != '$' {
					return reqs, start, errBroken
				}
				k, err := num(h[1:], 512*1024*1024)
				if err != nil {
					return reqs, start, err
				}
				a, ok, err := arg(k)
				if err != nil || !ok {
					return reqs, start, err
				}
				args = append(args, a)
			}
			if n > 0 {
				reqs = append(reqs, args)
			}
		case '$':
			n, err := num(l[1:], 512*1024*1024)
			if err != nil {
				return reqs, start, err
			}
			if n == 0 {
				continue
			}
			a, ok, err := arg(n)
			if err != nil || !ok {
				return reqs, start, err
			}
			reqs = append(reqs, []string{a})
		default:
			if l != "" {
				reqs = append(reqs, strings.Split(l[1:], " "))
			}
		}
	}
}

func runBad(e *fw.Env, cc any) error {
	c := cc.(*BadCase)
	req, _ := encodeAs(c.Req.Strs(), c.Form)
	stream := mutateReq(req, c.Muts)
	for _, o := range c.After {
		stream += rs.Encode(o.Strs())
	}
	reqs, rest, perr := parseStream(stream)
	if perr == errOdd {
		return nil
	}
	w, err := rs.World0(e, c.Cfg, 2)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec(c.Before, 1); err != nil {
		return err
	}
	conn := w.Conns[0]
	what := fmt.Sprintf("stream %q", fw.Short(stream))
	t0 := rs.NowMs()
	sendErr := sendCut(conn, stream, c.Sizes, c.PauseU)
	if sendErr != nil && perr == nil {
		return rs.Classify(w.Srv, what+" without broken framing: sending", sendErr)
	}
	limit := time.Now().Add(rs.ReplyTimeout)
	_ = conn.C.SetReadDeadline(limit)
	if perr == nil && c.End == 1 && rest == "" {
		conn.CloseWrite()
	}
	got := 0
	ended := false
	for got < len(reqs) || perr != nil {
		_ = conn.C.SetReadDeadline(limit)
		r, err := rs.ReadReply(conn.BR)
		if err != nil {
			var ne interface{ Timeout() bool }
			if errors.As(err, &ne) && ne.Timeout() {
				if perr != nil {
					return fw.Late("%s: the connection has not been closed %v after broken framing", what, rs.ReplyTimeout)
				}
				return fw.Late("%s: %d of %d replies after %v", what, got, len(reqs), rs.ReplyTimeout)
			}
			if perr == nil {
				return rs.Classify(w.Srv, what+": reading replies", err)
			}
			if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, syscall.ECONNRESET) {
				return rs.Classify(w.Srv, what+": reading replies", err)
			}
			if got < len(reqs) && len(c.Sizes) == 0 && len(stream) <= 4096 {
				// all of it was there at once: nothing is left unread that could cost the replies
				return fw.Viol("%s: the connection ended (%v) after %d of the replies to the %d complete requests before the broken one", what, err, got, len(reqs))
			}
			ended = true
			break
		}
		if got >= len(reqs) {
			if r.IsErr() {
				continue // the server may tell why
			}
			return fw.Viol("%s: it contains %d complete requests before the broken one, but there is another reply %s", what, len(reqs), r)
		}
		if err := w.Model.Step(w.Sess[0], reqs[got], r, t0, rs.NowMs()); err != nil {
			if v, ok := err.(*fw.Violation); ok {
				v.Msg = fmt.Sprintf("%s: reply %d: %s", what, got+1, v.Msg)
			}
			return err
		}
		got++
	}
	for ; got < len(reqs); got++ {
		if !w.Model.Apply(w.Sess[0], reqs[got], rs.NowMs()) {
			return nil
		}
	}
	if perr == nil && !ended {
		switch c.End {
		case 0:
			conn.Close()
		case 1:
			conn.CloseWrite()
		case 2:
			conn.Reset()
		}
		if c.End < 3 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	d, err := rs.TakeDump(w.Srv, w.Conns[1], c.Cfg.Databases)
	if err != nil {
		return err
	}
	if diff := rs.Diff(w.Model.Observe(rs.NowMs()), d, rs.DiffOpts{Near: rs.NowMs()}); diff != "" {
		return fw.Viol("%s: the dataset is not that of the %d complete requests: %s", what, len(reqs), diff)
	}
	if c.Cfg.Aof {
		w.Close()
		if err := w.Srv.Kill(syscall.SIGKILL); err != nil {
			return err
		}
		if err := w.Srv.Start(e.Shard); err != nil {
			return err
		}
		d, err := w.Dump()
		if err != nil {
			return err
		}
		if diff := rs.Diff(w.Model.Observe(rs.NowMs()), d, rs.DiffOpts{Near: rs.NowMs()}); diff != "" {
			return fw.Viol("%s: after a restart the dataset is not that of the %d complete requests: %s", what, len(reqs), diff)
		}
	}
	switch {
	case perr != nil:
		e.Label("broken framing")
	case rest != "":
		e.Label("incomplete at its end")
	default:
		e.Label("complete requests only")
	}
	if perr != nil || rest != "" {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C37", New: func() any { return &FormCase{} }, Gen: genForm, Run: runForm,
		Rule: "1-40 (thorough 150) requests of all commands, each as an array, as a line (any first byte, words of any bytes without a space, also empty ones and of up to 20000 bytes) or, if it is a single word, as a bulk string, with empty requests between them, cut into segments of 1-8192 bytes or sent one by one; every reply and the dataset, also after a restart, must be those of the model; non-trivial: at least two forms and 3 requests",
	})
	fw.Register(&fw.Prop{
		ID: "C38", New: func() any { return &BadCase{} }, Gen: genBad, Run: runBad,
		Rule: "complete requests, then a stream of a request with one or two changes of its framing (marker, count, length, line end, a piece missing, doubled, inserted or cut off) and 1-4 well-formed write requests, in segments of 1-4096 bytes or at once; an independent parser of the protocol says which complete requests the stream contains and whether it is broken; exactly those must have been executed and (if the stream was written at once and has at most 4096 bytes) answered, also according to the log, and a broken stream must end the connection; streams with an unusual but readable number (+3, -0) or lines beyond 60000 bytes are skipped; non-trivial: the stream is broken or incomplete",
	})
}
