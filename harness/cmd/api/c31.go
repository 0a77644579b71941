package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/IfanTsai/metis/config"
	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C31: configuration files

// loadCfg is run in a process of its own, since the configuration is loaded once per process.
func loadCfg(file, typ string) {
	c := config.LoadConfig(file, typ)
	b, err := json.Marshal(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("LOADED %s\n", b)
}

// CfgField is one line of the file. Kind: s string, i integer, b boolean.
type CfgField struct {
	Key, Kind string
	S         fw.B  `json:",omitempty"`
	I         int64 `json:",omitempty"`
	Style     int   `json:",omitempty"`
}

type CfgCase struct {
	Format string
	Serve  bool // also start a server with it
	Fields []CfgField
	Blank  int // comments and blank lines
	Env    int `json:",omitempty"` // the environment has variables with such names: 1 in capitals, 2 also with underscores, 3 as they are
}

func (c *CfgCase) Steps() int { return len(c.Fields) }
func (c *CfgCase) Without(i, j int) any {
	n := *c
	n.Fields = without(c.Fields, i, j)
	return &n
}

var cfgWords = []string{"", "a", "admin", "0", "007", "1e3", "true", "null", "~", "#x", "a b", "a#b", "it's", "say \"x\"", "back\\slash", "ä€😀", "tab\there", "new\nline", "${HOME}", "%s", "a,b", "[x]", "{y}", "key: v", "- z", "a=b", " lead", "trail ", "'", "=", "64mb", "no", "yes", "1.5", "0x10"}

func genWord(t *rapid.T) string {
	if fw.Chance(t, "listed", 2, 3) {
		return fw.Pick(t, "word", cfgWords)
	}
	return fw.Word(t, "word", 1, 40)
}

func genFileName(t *rapid.T) string {
	return fw.Pick(t, "file", []string{"appendonly.aof", "a", "data.log", "x y.aof", "ümlaut.aof", "a#b", "it's.aof", ".hidden", "UPPER.AOF", "a.b.c", "0"})
}

func units(t *rapid.T) (string, int64) {
	u := fw.Pick(t, "unit", []string{"", "b", "B", "kb", "KB", "Kb", "kB", "mb", "MB", "Mb", "gb", "GB", "gB"})
	n := int64(fw.Rng(t, "size", 10, 2000))
	if fw.Chance(t, "one", 1, 4) && u != "b" && u != "B" {
		n = int64(fw.Rng(t, "size", 0, 9))
	}
	if fw.Chance(t, "large", 1, 3) { // up to 2^55 bytes
		top := map[byte]int{'k': 45, 'm': 35, 'g': 25}
		b, ok := top[(strings.ToLower(u) + " ")[0]]
		if !ok {
			b = 55
		}
		n = 1<<fw.Rng(t, "bits", 10, b) + int64(fw.Rng(t, "off", -1, 9))
	}
	return strconv.FormatInt(n, 10) + u, n
}

func sizeOf(s string) uint {
	l := strings.ToLower(s)
	mul := uint(1)
	for suf, m := range map[string]uint{"kb": 1 << 10, "mb": 1 << 20, "gb": 1 << 30} {
		if strings.HasSuffix(l, suf) {
			mul = m
		}
	}
	n, _ := strconv.ParseUint(strings.TrimRight(l, "kmgb"), 10, 64)
	return uint(n) * mul
}

func genCfg(t *rapid.T, tier int) any {
	c := &CfgCase{Format: fw.Pick(t, "format", []string{"toml", "toml", "toml", "json", "yaml"}), Blank: fw.Uni(t, "blank", 8)}
	if fw.Chance(t, "env", 1, 3) {
		c.Env = fw.Rng(t, "envKind", 1, 3)
	}
	c.Serve = fw.Chance(t, "serve", 1, 6)
	present := func(k string) bool { return fw.Chance(t, k, 3, 4) }
	add := func(f CfgField) { f.Style = fw.Uni(t, "style", 4); c.Fields = append(c.Fields, f) }
	if c.Serve || present("bind") {
		b := fw.Pick(t, "bind", []string{"127.0.0.1", "0.0.0.0", "10.1.2.3", "localhost", "::1", "127.0.0.2"})
		if c.Serve {
			b = "127.0.0.1"
		}
		add(CfgField{Key: "bind", Kind: "s", S: fw.B(b)})
	}
	if c.Serve || present("port") {
		add(CfgField{Key: "port", Kind: "i", I: int64(fw.Pick(t, "port", []int{0, 1, 80, 6379, 32767, 32768, 65535, fw.Uni(t, "anyport", 65536)}))})
	}
	if present("databases") {
		add(CfgField{Key: "databases", Kind: "i", I: int64(fw.Pick(t, "dbs", []int{1, 2, 3, 16, 17, 40, 300}))})
	}
	if present("requirepass") {
		add(CfgField{Key: "requirepass", Kind: "s", S: fw.B(genWord(t))})
	}
	if present("logfile") {
		lf := genWord(t)
		if c.Serve {
			lf = fw.Pick(t, "log", []string{"", "logs/x.log"})
		}
		add(CfgField{Key: "logfile", Kind: "s", S: fw.B(lf)})
	}
	if present("loglevel") {
		add(CfgField{Key: "loglevel", Kind: "s", S: fw.B(fw.Pick(t, "level", []string{"debug", "info", "warn", "error", "other", ""}))})
	}
	aof := present("appendonly")
	if aof {
		add(CfgField{Key: "appendonly", Kind: "b", I: int64(fw.Uni(t, "aof", 2))})
	}
	if present("appendfilename") || (c.Serve && aof) {
		n := genWord(t)
		if c.Serve {
			n = genFileName(t)
		}
		add(CfgField{Key: "appendfilename", Kind: "s", S: fw.B(n)})
	}
	if present("appendfsync") {
		add(CfgField{Key: "appendfsync", Kind: "s", S: fw.B(fw.Pick(t, "fsync", []string{"always", "everysec", "no"}))})
	}
	if present("pct") {
		add(CfgField{Key: "auto-aof-rewrite-percentage", Kind: "i", I: int64(fw.Pick(t, "pct", []int{0, 1, 100, 250, 1000000, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40}))})
	}
	if present("min") {
		s, n := units(t)
		if fw.Chance(t, "int", 1, 4) {
			add(CfgField{Key: "auto-aof-rewrite-min-size", Kind: "i", I: min(min(n, 1<<40)*fw.Pick(t, "times", []int64{1, 1, 1000003}), 1<<53)}) // JSON numbers are exact up to here
		} else {
			add(CfgField{Key: "auto-aof-rewrite-min-size", Kind: "s", S: fw.B(s)})
		}
	}
	// any order
	for i := len(c.Fields) - 1; i > 0; i-- {
		j := fw.Uni(t, "order", i+1)
		c.Fields[i], c.Fields[j] = c.Fields[j], c.Fields[i]
	}
	return c
}

func literalOK(s string) bool {
	return !strings.ContainsAny(s, "'\n\t\r") && s == strings.ToValidUTF8(s, "")
}

func (f CfgField) toml() string {
	switch f.Kind {
	case "i":
		s := strconv.FormatInt(f.I, 10)
		if f.Style == 1 && f.I >= 1000 {
			s = s[:len(s)-3] + "_" + s[len(s)-3:]
		} else if f.Style == 2 {
			s = fmt.Sprintf("0x%X", f.I)
		}
		return s
	case "b":
		return strconv.FormatBool(f.I == 1)
	}
	s := string(f.S)
	switch {
	case f.Style == 1 && literalOK(s):
		return "'" + s + "'"
	case f.Style == 2 && literalOK(s) && !strings.HasSuffix(s, "\\"):
		return "'''" + s + "'''"
	}
	return rs.TomlString(s)
}

func (c *CfgCase) text(over map[string]CfgField) string {
	var sb strings.Builder
	if c.Format == "json" {
		sb.WriteString("{")
		for i, f := range c.Fields {
			if o, ok := over[f.Key]; ok {
				f = o
			}
			if i > 0 {
				sb.WriteString(",")
			}
			var v any = string(f.S)
			if f.Kind == "i" {
				v = f.I
			} else if f.Kind == "b" {
				v = f.I == 1
			}
			b, _ := json.Marshal(v)
			fmt.Fprintf(&sb, "\n %q: %s", f.Key, b)
		}
		sb.WriteString("\n}\n")
		return sb.String()
	}
	for i, f := range c.Fields {
		if o, ok := over[f.Key]; ok {
			f = o
		}
		if i%3 == c.Blank {
			sb.WriteString("\n# " + f.Key + " = 1\n")
		}
		if c.Format == "toml" {
			sep := []string{" = ", "=", "  =   ", " = "}[f.Style]
			fmt.Fprintf(&sb, "%s%s%s", f.Key, sep, f.toml())
		} else {
			var v string
			switch {
			case f.Kind == "i":
				v = strconv.FormatInt(f.I, 10)
			case f.Kind == "b":
				v = strconv.FormatBool(f.I == 1)
			case f.Style == 1 && literalOK(string(f.S)):
				v = "'" + string(f.S) + "'"
			default:
				b, _ := json.Marshal(string(f.S))
				v = string(b)
			}
			fmt.Fprintf(&sb, "%s: %s", f.Key, v)
		}
		if i%4 == c.Blank%4 && c.Blank > 3 {
			sb.WriteString("  # a comment = \"1\"")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (c *CfgCase) want() config.Config {
	var w config.Config
	for _, f := range c.Fields {
		s := string(f.S)
		switch f.Key {
		case "bind":
			w.Host = s
		case "port":
			w.Port = uint16(f.I)
		case "logfile":
			w.LogFilepath = s
		case "loglevel":
			w.LogLevel = config.LogLevel(s)
		case "databases":
			w.DatabaseNum = int(f.I)
		case "requirepass":
			w.RequirePassword = s
		case "appendonly":
			w.AofEnable = f.I == 1
		case "appendfilename":
			w.AofFilename = s
		case "appendfsync":
			w.AofFsync = config.TypeAppnedFsync(s)
		case "auto-aof-rewrite-percentage":
			w.AofRewritePercent = uint(f.I)
		case "auto-aof-rewrite-min-size":
			if f.Kind == "i" {
				w.AofRewriteMinSize = uint(f.I)
			} else {
				w.AofRewriteMinSize = sizeOf(s)
			}
		}
	}
	return w
}

func runCfg(e *fw.Env, c *CfgCase) error {
	file := filepath.Join(e.Scratch, "c."+c.Format)
	if err := os.WriteFile(file, []byte(c.text(nil)), 0o644); err != nil {
		return fw.Infra("%v", err)
	}
	cmd := exec.Command(os.Args[0], "loadcfg", file, c.Format)
	cmd.Dir = e.Scratch
	if c.Env > 0 {
		cmd.Env = os.Environ()
		for _, k := range []string{"bind", "port", "logfile", "loglevel", "databases", "requirepass", "appendonly", "appendfilename", "appendfsync", "auto-aof-rewrite-percentage", "auto-aof-rewrite-min-size"} {
			if c.Env < 3 {
				k = strings.ToUpper(k)
			}
			if c.Env == 2 {
				k = strings.ReplaceAll(k, "-", "_")
			}
			cmd.Env = append(cmd.Env, k+"=1", "METIS_"+k+"=1")
		}
	}
	out, err := cmd.CombinedOutput()
	i := strings.Index(string(out), "LOADED ")
	if err != nil || i < 0 {
		if cmd.ProcessState == nil || strings.Contains(fmt.Sprint(err), "killed") {
			return fw.Infra("%v", err)
		}
		return fw.Viol("a valid configuration file is not loaded: %v %s\n%s", err, out, c.text(nil))
	}
	var got config.Config
	dec := json.NewDecoder(strings.NewReader(string(out[i+7:])))
	if err := dec.Decode(&got); err != nil {
		return fw.Infra("%v: %s", err, out)
	}
	want := c.want()
	if got != want {
		return fw.Viol("loaded %+v, want %+v, from\n%s", got, want, c.text(nil))
	}
	if !c.Serve {
		return nil
	}
	return serveCfg(e, c, want)
}

func serveCfg(e *fw.Env, c *CfgCase, want config.Config) error {
	e.Label("server started")
	port := rs.FreePort(e.Shard)
	if port == 0 {
		return fw.Infra("no free port")
	}
	if c.Format == "json" {
		e.Label("server started with JSON")
	}
	dir := filepath.Join(e.Scratch, "srv")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return fw.Infra("%v", err)
	}
	conf := filepath.Join(e.Scratch, "server."+c.Format)
	if err := os.WriteFile(conf, []byte(c.text(map[string]CfgField{"port": {Key: "port", Kind: "i", I: int64(port)}})), 0o644); err != nil {
		return fw.Infra("%v", err)
	}
	s := rs.NewServer(e, dir, rs.Cfg{})
	if err := s.StartConf(conf, port); err != nil {
		return err
	}
	defer s.Stop()
	if err := s.WaitReady(rs.StartupTimeout); err != nil {
		return err
	}
	x, err := s.Dial()
	if err != nil {
		return fw.Viol("cannot connect to the configured port: %v", err)
	}
	defer x.Close()
	_ = x.C.SetDeadline(time.Now().Add(20 * time.Second))
	do := func(args ...string) (rs.Reply, error) {
		if err := x.Write(rs.Encode(args)); err != nil {
			return rs.Reply{}, fw.Late("%v", err)
		}
		r, err := rs.ReadReply(x.BR)
		if err != nil {
			return r, fw.Late("no reply to %s: %v", fw.Shorts(args), err)
		}
		return r, nil
	}
	expect := func(ok bool, args ...string) error {
		r, err := do(args...)
		if err != nil {
			return err
		}
		if r.IsErr() == ok {
			return fw.Viol("%s replies %s with the configuration\n%s", fw.Shorts(args), r, c.text(nil))
		}
		return nil
	}
	if p := want.RequirePassword; p != "" {
		if err := expect(false, "get", "k"); err != nil {
			return err
		}
		if err := expect(false, "auth", p+"x"); err != nil {
			return err
		}
		if err := expect(true, "auth", p); err != nil {
			return err
		}
	}
	n := 16
	if want.DatabaseNum > 0 {
		n = want.DatabaseNum
	}
	if err := expect(false, "select", strconv.Itoa(n)); err != nil {
		return err
	}
	if err := expect(true, "select", strconv.Itoa(n-1)); err != nil {
		return err
	}
	if err := expect(true, "set", "key-in-log", "value-in-log"); err != nil {
		return err
	}
	if want.AofFilename != "" {
		path := filepath.Join(dir, want.AofFilename)
		if !want.AofEnable {
			time.Sleep(30 * time.Millisecond)
			if _, err := os.Stat(path); err == nil {
				return fw.Viol("%s was written although appendonly is off", want.AofFilename)
			}
			return nil
		}
		for end := time.Now().Add(4 * time.Second); ; {
			b, _ := os.ReadFile(path)
			if strings.Contains(string(b), "value-in-log") {
				e.Label("append-only file checked")
				break
			}
			if time.Now().After(end) {
				return fw.Late("the command is not in the configured append-only file %q", want.AofFilename)
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C31", InProc: false, New: func() any { return &CfgCase{} },
		CaseTimeout: 90e9, QuickS: 18, ThoroughS: 300,
		Gen:  genCfg,
		Rule: "random configuration files in TOML, JSON and YAML with any subset of the settings in any order, strings with quotes, escapes and look-alikes of other types, integers in several notations, sizes with all units, comments; every loaded field compared; one case in six starts a server with the file; non-trivial: at least five settings",
		Run: func(e *fw.Env, c any) error {
			h := c.(*CfgCase)
			if len(h.Fields) >= 5 {
				e.NonTrivial()
			}
			e.Label("%s", h.Format)
			return runCfg(e, h)
		},
	})
}
