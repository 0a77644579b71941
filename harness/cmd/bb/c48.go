package main

import (
	"encoding/json"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C48: the log of messages

// LogCase is a history on a server that writes messages to a file, or cannot.
type LogCase struct {
	Cfg  rs.Cfg
	Full bool // every write to the log file fails with ENOSPC
	Old  int  // lines in the log file before the first start
	Acts []LogAct
}

// LogAct: "ops" executes commands; "bad" opens a connection and sends bytes whose framing is broken; "restart" stops the server and starts
// it again; "refused" starts a second server on the same port, with the same log file.
type LogAct struct {
	K   string
	Ops []rs.Op `json:",omitempty"`
	Bad fw.B    `json:",omitempty"`
	Aof bool    `json:",omitempty"` // the second server has a free port, and a log with a database it does not have
}

func (c *LogCase) Steps() int { return len(c.Acts) }
func (c *LogCase) Without(i, j int) any {
	n := *c
	n.Acts = append(append([]LogAct{}, c.Acts[:i]...), c.Acts[j:]...)
	return &n
}

const logSecret = "pass-x7Qz9-\"word"

// logTexts try to look like something else in the log.
var logTexts = []string{"x", "\n", "\r\n", "\"}\n{\"level\":\"fatal\",\"time\":\"now\",\"msg\":\"forged\"}\n", "\\\"", "\x00\x01\xff\xfe", "%s%d%n", "{}", "\u2028", strings.Repeat("long ", 30), logSecret[:4]}

func genLogs(t *rapid.T, tier int) any {
	c := &LogCase{Cfg: rs.Cfg{Databases: 2}, Old: fw.Pick(t, "old", []int{0, 0, 1, 5})}
	c.Cfg.LogLevel = fw.Pick(t, "level", []string{"debug", "info", "warn", "error", "-", "garbage", "ERROR", "verbose"})
	c.Cfg.LogFile = fw.Pick(t, "file", []string{"x.log", "x.log", "logs/deep/x.log", "./logs/x.log", "with space/ä.log", ""})
	if c.Cfg.LogFile != "" && fw.Chance(t, "full", 1, 5) {
		c.Full, c.Cfg.LogFile, c.Old = true, "full.log", 0
	}
	if fw.Chance(t, "pass", 1, 3) {
		c.Cfg.Pass = logSecret
	}
	if fw.Chance(t, "aof", 1, 2) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", "no"
	}
	n := 8
	if tier == 1 {
		n = 20
	}
	p := rs.NewPools(t, 4, 130)
	c.Acts = fw.Seq(t, "acts", 1, n, func(t *rapid.T) LogAct {
		a := LogAct{K: fw.Pick(t, "kind", []string{"ops", "ops", "ops", "bad", "bad", "restart", "refused"})}
		text := fw.Pick(t, "text", logTexts)
		switch a.K {
		case "refused":
			a.Aof = fw.Chance(t, "aof", 1, 2)
		case "ops":
			a.Ops = fw.Seq(t, "ops", 1, 12, func(t *rapid.T) rs.Op {
				if fw.Chance(t, "text", 1, 4) {
					return cmd(fw.Pick(t, "cmd", []string{"get", "set", "nosuch", text, "select", "auth", "sadd"}), text)
				}
				return p.GenAny(t)
			})
		case "bad":
			a.Bad = fw.B(fw.Pick(t, "form", []string{"*1\r\n" + text + "\r\n", "*1\r\n$" + text + "\r\n", "*2\r\n$3\r\nget\r\n:" + text + "\r\n", "*1\r\n$1\r\nab" + text + "\r\n", "*x" + text + "\r\n", "$-9" + text + "\r\n"}))
		}
		return a
	})
	return c
}

type logRec struct {
	Level, Time, Msg string
}

var logLevels = map[string]int{"debug": 0, "info": 1, "warn": 2, "error": 3, "dpanic": 4, "panic": 5, "fatal": 6}

type logWatch struct {
	path  string
	old   string // what was there before
	least int
	files int
}

// read parses the log file.
func (l *logWatch) read() ([]logRec, error) {
	b, err := os.ReadFile(l.path)
	if os.IsNotExist(err) && l.old == "" {
		return nil, nil
	}
	if err != nil {
		return nil, fw.Viol("the log file cannot be read: %v", err)
	}
	if !strings.HasPrefix(string(b), l.old) {
		return nil, fw.Viol("the log file began with %d bytes %s before the server was started, now it begins with %s", len(l.old), fw.Short(l.old), fw.Short(string(b)))
	}
	text := string(b[len(l.old):])
	if strings.Contains(text, logSecret) || strings.Contains(text, strings.ReplaceAll(logSecret, `"`, `\"`)) {
		return nil, fw.Viol("the password is in the log file: %s", fw.Short(text))
	}
	if text != "" && !strings.HasSuffix(text, "\n") {
		text = text[:strings.LastIndexByte(text, '\n')+1] // a record that is being written
	}
	var recs []logRec
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		if line == "" && text == "" {
			break
		}
		var m map[string]any
		if err := json.Unmarshal([]byte(line), &m); err != nil {
			return nil, fw.Viol("a line of the log file is not a JSON object: %s: %v", fw.Short(line), err)
		}
		r := logRec{}
		r.Level, _ = m["level"].(string)
		r.Time, _ = m["time"].(string)
		r.Msg, _ = m["msg"].(string)
		lv, ok := logLevels[r.Level]
		if !ok || r.Time == "" || r.Msg == "" {
			return nil, fw.Viol("a record of the log has no level, time or message: %s", fw.Short(line))
		}
		if lv < l.least {
			return nil, fw.Viol("a record of level %s is in the log, which is for level %d (0 debug, 1 info, 2 warn, 3 error) and up: %s", r.Level, l.least, fw.Short(line))
		}
		if r.Msg == "forged" {
			return nil, fw.Viol("a client has written a record of its own to the log: %s", fw.Short(line))
		}
		recs = append(recs, r)
	}
	return recs, nil
}

func count(recs []logRec, f func(logRec) bool) (n int) {
	for _, r := range recs {
		if f(r) {
			n++
		}
	}
	return n
}

// until waits until at least n records satisfy f.
func (l *logWatch) until(what string, n int, f func(logRec) bool) error {
	if l.path == "" {
		return nil
	}
	end := time.Now().Add(5 * time.Second)
	for {
		recs, err := l.read()
		if err != nil {
			return err
		}
		if count(recs, f) >= n {
			return nil
		}
		if time.Now().After(end) {
			return fw.Late("%s: the log has %d records of that kind, not %d: %v", what, count(recs, f), n, recs)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func runLogs(e *fw.Env, cc any) error {
	c := cc.(*LogCase)
	l := &logWatch{}
	switch c.Cfg.LogLevel {
	case "debug":
	case "warn":
		l.least = 2
	case "error":
		l.least = 3
	default:
		l.least = 1
	}
	if c.Cfg.LogFile != "" {
		l.path = filepath.Join(e.Scratch, c.Cfg.LogFile)
		if c.Full {
			if err := os.Symlink("/dev/full", l.path); err != nil {
				return fw.Infra("%v", err)
			}
		} else if c.Old > 0 {
			l.old = strings.Repeat("{\"level\":\"info\",\"time\":\"before\",\"msg\":\"old\"}\n", c.Old)
			if err := os.MkdirAll(filepath.Dir(l.path), 0o755); err != nil {
				return fw.Infra("%v", err)
			}
			if err := os.WriteFile(l.path, []byte(l.old), 0o644); err != nil {
				return fw.Infra("%v", err)
			}
		}
	}
	w, err := rs.World0(e, c.Cfg, 2)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if c.Full {
		l.path = "" // nothing to be read
	}
	var login []rs.Op
	if c.Cfg.Pass != "" {
		login = []rs.Op{cmd("auth", logSecret), {Conn: 1, Args: cmd("auth", logSecret).Args}}
	}
	if err := w.Exec(login, 1); err != nil {
		return err
	}
	starts, errorsMin, refused := 0, 0, 0
	running := func(r logRec) bool {
		return r.Level == "info" && strings.Contains(r.Msg, w.Srv.Addr)
	}
	isErr := func(r logRec) bool { return logLevels[r.Level] >= 3 }
	isFatal := func(r logRec) bool { return logLevels[r.Level] >= 5 }
	started := func() error {
		starts = 1 // of this address
		if l.least <= 1 {
			return l.until("the server has been started on "+w.Srv.Addr, starts, running)
		}
		return nil
	}
	if err := started(); err != nil {
		return err
	}
	ports := map[string]bool{w.Srv.Addr: true}
	for _, a := range c.Acts {
		e.Label("%s", a.K)
		switch a.K {
		case "ops":
			if err := w.Exec(a.Ops, 4); err != nil {
				return err
			}
		case "bad":
			x, err := w.Srv.Dial()
			if err != nil {
				return rs.Classify(w.Srv, "connecting", err)
			}
			_ = x.Write(string(a.Bad))
			x.CloseWrite()
			closed := false
			for !closed {
				_ = x.C.SetReadDeadline(time.Now().Add(5 * time.Second))
				b := make([]byte, 4096)
				if _, err := x.C.Read(b); err != nil {
					ne, ok := err.(net.Error)
					if ok && ne.Timeout() {
						x.Close()
						return fw.Late("a connection with broken framing is not closed within 5 s: %s", fw.Short(string(a.Bad)))
					}
					closed = true
				}
			}
			x.Close()
			if _, _, perr := parseStream(string(a.Bad)); perr == errBroken {
				errorsMin++
				if err := l.until("a client has sent "+fw.Short(string(a.Bad)), errorsMin, isErr); err != nil {
					return err
				}
			}
		case "restart":
			if c.Cfg.Aof {
				if err := w.Restart(e.Shard, syscall.SIGTERM, 0); err != nil {
					return err
				}
				w.Model.Widen()
			} else {
				m := rs.NewModel(c.Cfg.Databases, string(c.Cfg.Pass))
				if err := w.Restart(e.Shard, syscall.SIGTERM, 0); err != nil {
					return err
				}
				w.Model = m
			}
			if !ports[w.Srv.Addr] {
				if err := started(); err != nil {
					return err
				}
			}
			ports[w.Srv.Addr] = true
			if err := w.Exec(login, 1); err != nil {
				return err
			}
		case "refused":
			cfg := c.Cfg
			cfg.Aof = false
			if c.Full {
				cfg.LogFile = ""
			}
			dir := filepath.Join(e.Scratch, "second")
			if err := os.MkdirAll(dir, 0o755); err != nil {
				return fw.Infra("%v", err)
			}
			s2 := rs.NewServer(e, dir, cfg)
			port := w.Srv.Port
			if a.Aof {
				s2.Cfg.Aof, s2.Cfg.AofName = true, "b.aof"
				if err := os.WriteFile(s2.AofPath(), []byte(rs.Encode([]string{"select", "77"})+rs.Encode([]string{"set", "a", "b"})), 0o644); err != nil {
					return fw.Infra("%v", err)
				}
				port = rs.FreePort(e.Shard)
			}
			if err := s2.StartProc(port); err != nil {
				return err
			}
			dead, _ := s2.Dead(20 * time.Second)
			s2.Stop()
			if !dead {
				return fw.Late("a second server does not end: its port %d is in use, or its log (%v) selects a database it does not have", port, a.Aof)
			}
			if l.path != "" {
				l2 := &logWatch{path: filepath.Join(dir, c.Cfg.LogFile), least: l.least}
				refused++
				if err := l2.until("a second server has been started that cannot serve", refused, isFatal); err != nil {
					return err
				}
			}
		default:
			return fw.Infra("act %q", a.K)
		}
	}
	if err := w.CheckDump("in the end"); err != nil {
		return err
	}
	if l.path != "" {
		recs, err := l.read()
		if err != nil {
			return err
		}
		e.LabelN("records", len(recs))
		if n := count(recs, isFatal); n != 0 {
			return fw.Viol("the log has %d fatal records: %v", n, recs)
		}
		if l.least > 1 && count(recs, func(r logRec) bool { return strings.Contains(r.Msg, w.Srv.Addr) && !isErr(r) }) > 0 {
			return fw.Viol("the log has a record of the start: %v", recs)
		}
		if len(recs) > 0 {
			e.NonTrivial()
		}
	} else {
		// no other file has become one
		err := filepath.Walk(e.Scratch, func(path string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && strings.Contains(fi.Name(), "log") {
				return fw.Viol("without a log file, %s has been written", path)
			}
			return nil
		})
		if err != nil {
			return err
		}
		e.NonTrivial()
	}
	e.Label("level %s", c.Cfg.LogLevel)
	e.Label("file %q", map[bool]string{true: "full", false: c.Cfg.LogFile}[c.Full])
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C48", New: func() any { return &LogCase{} }, Gen: genLogs, Run: runLogs,
		Rule: "1-8 (thorough: 20) acts on a server with one of eight log levels and six log files, or one that cannot be written: commands with texts that look like log records, streams with broken framing, restarts, a second server that cannot start, on the same port or with a log that selects a database it does not have; replies and dataset equal the model's, the log file keeps what it had, every line is a JSON object with level, time and message, at or above the level, not forged, without the password; there is a record of each start at level info, of each broken stream at level error, and a fatal one of each server that could not start; without a log file none is written; non-trivial: records were read, or there is no log",
	})
}
