package rs

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/fw"
)

// Cfg is the configuration of a server. Zero values are left out of the file.
type Cfg struct {
	Bind      string `json:",omitempty"`
	Databases int    `json:",omitempty"`
	Pass      fw.B   `json:",omitempty"`
	Aof       bool   `json:",omitempty"`
	AofName   string `json:",omitempty"`
	Fsync     string `json:",omitempty"`
	Pct       int    `json:",omitempty"`
	MinSize   string `json:",omitempty"`
	LogFile   string `json:",omitempty"`
	LogLevel  string `json:",omitempty"` // "": error, "-": none
}

// TomlString quotes a string for TOML.
func TomlString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&sb, "\\u%04X", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (c Cfg) Toml(port int) string {
	bind := c.Bind
	if bind == "" {
		bind = "127.0.0.1"
	}
	level := c.LogLevel
	switch level {
	case "":
		level = "error"
	case "-":
		level = ""
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "bind = %s\nport = %d\nlogfile = %s\nloglevel = %s\n", TomlString(bind), port, TomlString(c.LogFile), TomlString(level))
	if c.Databases != 0 {
		fmt.Fprintf(&sb, "databases = %d\n", c.Databases)
	}
	if c.Pass != "" {
		fmt.Fprintf(&sb, "requirepass = %s\n", TomlString(string(c.Pass)))
	}
	fmt.Fprintf(&sb, "appendonly = %v\n", c.Aof)
	if c.AofName != "" {
		fmt.Fprintf(&sb, "appendfilename = %s\n", TomlString(c.AofName))
	}
	if c.Fsync != "" {
		fmt.Fprintf(&sb, "appendfsync = %q\n", c.Fsync)
	}
	fmt.Fprintf(&sb, "auto-aof-rewrite-percentage = %d\n", c.Pct)
	if c.MinSize != "" {
		fmt.Fprintf(&sb, "auto-aof-rewrite-min-size = %q\n", c.MinSize)
	}
	return sb.String()
}

// Server is one running server process.
type Server struct {
	Bin, Dir string
	Cfg      Cfg
	Port     int
	Addr     string
	Wrap     []string // command put in front of the server (strace)
	Env      []string
	NoLimit  bool

	cmd    *exec.Cmd
	done   chan struct{}
	mu     sync.Mutex
	status string
	sig    syscall.Signal
	out    *lockedBuf
	ended  bool
	killed bool

	wrapped bool // the running process has a wrapper
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var portRand = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid())<<20))
var portMu sync.Mutex

// FreePort picks a port below the ephemeral range, from a range of its own per worker.
func FreePort(shard int) int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 500; i++ {
		p := 10000 + (shard%10)*2000 + portRand.Intn(2000)
		l, err := net.Listen("tcp4", "0.0.0.0:"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		_ = l.Close()
		return p
	}
	return 0
}

// NewServer prepares a server whose files are in dir. It is not started.
func NewServer(e *fw.Env, dir string, cfg Cfg) *Server {
	return &Server{Bin: e.Server, Dir: dir, Cfg: cfg, Port: 0, out: &lockedBuf{}, sig: 0, Env: nil, Wrap: nil, status: "", Addr: ""}
}

// AofPath is the path of the append-only file.
func (s *Server) AofPath() string {
	n := s.Cfg.AofName
	if n == "" {
		return ""
	}
	if filepath.IsAbs(n) {
		return n
	}
	return filepath.Join(s.Dir, n)
}

// StartProc starts the process on the given port without waiting for it to serve.
func (s *Server) StartProc(port int) error {
	s.Port = port
	host := s.Cfg.Bind
	if host == "" || host == "0.0.0.0" {
		host = "127.0.0.1"
	}
	s.Addr = host + ":" + strconv.Itoa(port)
	conf := filepath.Join(s.Dir, "c.toml")
	if err := os.WriteFile(conf, []byte(s.Cfg.Toml(port)), 0o644); err != nil {
		return fw.Infra("%v", err)
	}
	return s.startConf(conf)
}

// StartConf starts the process with a configuration file made elsewhere, which says to listen on 127.0.0.1:port.
func (s *Server) StartConf(conf string, port int) error {
	s.Port = port
	s.Addr = "127.0.0.1:" + strconv.Itoa(port)
	return s.startConf(conf)
}

func (s *Server) startConf(conf string) error {
	tmp := filepath.Join(s.Dir, "tmp")
	if err := os.MkdirAll(tmp, 0o755); err != nil {
		return fw.Infra("%v", err)
	}
	args := append([]string{}, s.Wrap...)
	if !s.NoLimit {
		args = append(args, "/bin/sh", "-c", `ulimit -v 8000000; exec "$0" "$@"`)
	}
	args = append(args, s.Bin, "-c", conf)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = s.Dir
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	cmd.Env = append(cmd.Env, s.Env...)
	s.out = &lockedBuf{}
	outFile, err := os.Create(filepath.Join(s.Dir, "out.txt"))
	if err != nil {
		return fw.Infra("%v", err)
	}
	cmd.Stdout = outFile
	cmd.Stderr = outFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	err = startLocked(cmd)
	_ = outFile.Close()
	if err != nil {
		return fw.Infra("cannot start the server: %v", err)
	}
	s.cmd = cmd
	s.wrapped = len(s.Wrap) > 0
	s.done = make(chan struct{})
	s.killed = false
	s.status = ""
	s.sig = 0
	done := s.done
	go func() {
		err := cmd.Wait()
		s.mu.Lock()
		s.status = "exit status 0"
		if err != nil {
			s.status = err.Error()
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			s.sig = ws.Signal()
		}
		s.mu.Unlock()
		close(done)
	}()
	return nil
}

// Pdeathsig is tied to the thread that forks, so a dedicated thread that never ends starts all processes.
var startCh = make(chan startReq)

type startReq struct {
	cmd *exec.Cmd
	res chan error
}

func init() {
	go func() {
		runtime.LockOSThread()
		for r := range startCh {
			r.res <- r.cmd.Start()
		}
	}()
}

func startLocked(cmd *exec.Cmd) error {
	r := startReq{cmd, make(chan error, 1)}
	startCh <- r
	return <-r.res
}

// StartCmd starts any command so that it dies with this process.
func StartCmd(cmd *exec.Cmd) error { return startLocked(cmd) }

// Output is what the server printed.
func (s *Server) Output() string {
	b, _ := os.ReadFile(filepath.Join(s.Dir, "out.txt"))
	if len(b) > 4000 {
		b = append(b[:2500:2500], append([]byte("\n...\n"), b[len(b)-1500:]...)...)
	}
	return string(b)
}

// StartupTimeout bounds the time until the server answers.
var StartupTimeout = 30 * time.Second

// Start starts the server and waits until it answers a request.
func (s *Server) Start(shard int) error {
	for attempt := 0; attempt < 6; attempt++ {
		port := FreePort(shard)
		if port == 0 {
			return fw.Infra("no free port")
		}
		if err := s.StartProc(port); err != nil {
			return err
		}
		err := s.WaitReady(StartupTimeout)
		if err == nil {
			return nil
		}
		if dead, _ := s.Dead(0); dead && strings.Contains(s.Output(), "address already in use") {
			continue
		}
		if s.signal() == syscall.SIGKILL && !s.killed {
			continue
		}
		return err
	}
	return fw.Infra("server could not be started: %s", s.Output())
}

func (s *Server) signal() syscall.Signal {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.sig
}

// ErrNotReady: the process is alive but does not answer.
var ErrNotReady = errors.New("server does not answer")

// WaitReady waits until a request is answered.
func (s *Server) WaitReady(limit time.Duration) error {
	end := time.Now().Add(limit)
	wait := 500 * time.Microsecond
	for {
		if dead, why := s.Dead(0); dead {
			return fw.Viol("the server does not start: %s\n%s", why, s.Output())
		}
		c, err := Dial(s.Addr)
		if err == nil {
			_ = c.C.SetDeadline(end)
			if err := c.Write(Encode([]string{"ping"})); err == nil {
				_ = c.C.SetReadDeadline(end)
				if _, err := ReadReply(c.BR); err == nil {
					c.Close()
					return nil
				}
			}
			c.Close()
		}
		if time.Now().After(end) {
			return fw.Late("the server does not answer within %v after its start\n%s", limit, s.Output())
		}
		time.Sleep(wait)
		if wait < 5*time.Millisecond {
			wait += wait / 2
		}
	}
}

// Dead tells whether the process has ended, waiting up to d for that.
func (s *Server) Dead(d time.Duration) (bool, string) {
	if s.done == nil {
		return true, "never started"
	}
	select {
	case <-s.done:
	default:
		if d == 0 {
			return false, ""
		}
		select {
		case <-s.done:
		case <-time.After(d):
			return false, ""
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.sig == syscall.SIGKILL && !s.killed {
		return true, "killed by the kernel or the sandbox"
	}
	return true, s.status + "\n" + crashLines(s.Output())
}

func crashLines(s string) string {
	if i := strings.Index(s, "panic"); i > 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal"); i > 0 {
		s = s[i:]
	}
	if len(s) > 1200 {
		s = s[:1200]
	}
	return s
}

func (s *Server) Pid() int { return s.cmd.Process.Pid }

// ServerPid is the process id of the server itself when it runs under a wrapper.
func (s *Server) ServerPid() int {
	pid := s.Pid()
	if !s.wrapped {
		return pid
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", pid, pid))
	if err == nil {
		f := strings.Fields(string(b))
		if len(f) > 0 {
			n, _ := strconv.Atoi(f[0])
			return n
		}
	}
	return pid
}

// Kill ends the process with the signal and waits for it.
func (s *Server) Kill(sig syscall.Signal) error {
	if s.done == nil {
		return nil
	}
	select {
	case <-s.done:
		return nil
	default:
	}
	s.mu.Lock()
	s.killed = true
	s.mu.Unlock()
	_ = syscall.Kill(s.ServerPid(), sig)
	select {
	case <-s.done:
		return nil
	case <-time.After(20 * time.Second):
	}
	_ = syscall.Kill(-s.Pid(), syscall.SIGKILL)
	select {
	case <-s.done:
	case <-time.After(20 * time.Second):
		return fw.Infra("server process cannot be killed")
	}
	if sig != syscall.SIGKILL {
		return fw.Late("the server did not end within 20 s after signal %v", sig)
	}
	return nil
}

// Interrupt sends the signal and waits for the end of the process. It returns how it ended, "" if it has not.
func (s *Server) Interrupt(sig syscall.Signal, limit time.Duration) string {
	s.mu.Lock()
	s.killed = true
	s.mu.Unlock()
	_ = syscall.Kill(s.ServerPid(), sig)
	select {
	case <-s.done:
	case <-time.After(limit):
		return ""
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.sig != 0 {
		return "signal " + s.sig.String()
	}
	return s.status
}

// Stop kills the whole process group.
func (s *Server) Stop() {
	if s.done == nil {
		return
	}
	s.mu.Lock()
	s.killed = true
	s.mu.Unlock()
	_ = syscall.Kill(-s.Pid(), syscall.SIGKILL)
	select {
	case <-s.done:
	case <-time.After(20 * time.Second):
	}
}

// Dial opens a connection.
func (s *Server) Dial() (*Conn, error) { return Dial(s.Addr) }

// Fds counts the open descriptors of the server.
func (s *Server) Fds() int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.ServerPid()))
	if err != nil {
		return -1
	}
	return len(d)
}

// AofMark remembers the current append-only file. It keeps the file open, so that its inode is not used again.
type AofMark struct {
	s *Server
	f *os.File
}

// Mark remembers the current append-only file.
func (s *Server) Mark() *AofMark {
	f, err := os.Open(s.AofPath())
	if err != nil {
		return &AofMark{s: s}
	}
	return &AofMark{s, f}
}

func (m *AofMark) Close() {
	if m.f != nil {
		_ = m.f.Close()
	}
}

// Replaced tells whether the append-only file is another one by now.
func (m *AofMark) Replaced() bool {
	now, err := os.Stat(m.s.AofPath())
	if err != nil {
		return false
	}
	if m.f == nil {
		return true
	}
	old, err := m.f.Stat()
	return err == nil && !os.SameFile(old, now)
}

// AofSize is the size of the append-only file, or -1.
func (s *Server) AofSize() int64 {
	fi, err := os.Stat(s.AofPath())
	if err != nil {
		return -1
	}
	return fi.Size()
}

// Wait waits until the append-only file has been replaced.
func (m *AofMark) Wait(limit time.Duration) bool {
	end := time.Now().Add(limit)
	for {
		if m.Replaced() {
			return true
		}
		if dead, _ := m.s.Dead(0); dead || time.Now().After(end) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
	}
}

// Size is the size of the remembered file, also after it has been replaced, or -1.
func (m *AofMark) Size() int64 {
	if m.f == nil {
		return -1
	}
	fi, err := m.f.Stat()
	if err != nil {
		return -1
	}
	return fi.Size()
}
