package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	metis "github.com/IfanTsai/metis/server"
	"github.com/IfanTsai/metis/socket"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C30: addresses

type NetOp struct {
	K    string
	Addr string `json:",omitempty"`
	I    int    `json:",omitempty"` // listener
	Port int    `json:",omitempty"` // 0 or 1: which of the two ports; 2: a port chosen by the system
}

type NetCase struct {
	Server bool // a server process instead of the functions
	Bind   string
	Busy   string // listener that occupies the port before the server starts
	Ops    []NetOp
}

func (c *NetCase) Steps() int { return len(c.Ops) }
func (c *NetCase) Without(i, j int) any {
	n := *c
	n.Ops = without(c.Ops, i, j)
	return &n
}

var badAddrs = []string{"", "localhost", "256.0.0.1", "127.0.0", "127.0.0.1.1", "::1", "::", "fe80::1", "127.0.0.1:80", " 127.0.0.1", "127.0.0.1 ", "0x7f000001", "127.0.0.-1", "a.b.c.d", "2130706433", "127,0,0,1", "*", "127.0.0.1\x00"}

func genAddr(t *rapid.T) string {
	if fw.Chance(t, "any", 1, 3) {
		return fmt.Sprintf("127.%d.%d.%d", fw.Uni(t, "b", 256), fw.Uni(t, "c", 256), fw.Rng(t, "d", 1, 254))
	}
	return fw.Pick(t, "addr", []string{"127.0.0.1", "127.0.0.2", "127.1.0.1", "127.0.1.0", "127.255.255.254", "127.0.0.200"})
}

func genNet(t *rapid.T, tier int) any {
	c := &NetCase{}
	if fw.Chance(t, "server", 1, 8) {
		c.Server = true
		switch fw.Uni(t, "kind", 6) {
		case 0:
			c.Bind = fw.Pick(t, "bad", badAddrs[1:])
		case 1:
			c.Bind = "0.0.0.0"
		case 2:
			c.Bind = genAddr(t)
			c.Busy = fw.Pick(t, "busy", []string{"0.0.0.0", c.Bind, "127.9.9.9"})
		default:
			c.Bind = genAddr(t)
		}
		c.Ops = fw.Seq(t, "dials", 2, 6, func(t *rapid.T) NetOp { return NetOp{K: "dial", Addr: genAddr(t)} })
		return c
	}
	n := 14
	if tier == 1 {
		n = 40
	}
	c.Ops = fw.Seq(t, "ops", 2, n, func(t *rapid.T) NetOp {
		switch k := fw.Uni(t, "op", 12); {
		case k < 4:
			a := genAddr(t)
			if fw.Chance(t, "any", 1, 6) {
				a = "0.0.0.0"
			}
			return NetOp{K: "listen", Addr: a, Port: fw.Pick(t, "port", []int{0, 0, 1, 2})}
		case k == 4:
			return NetOp{K: "again", I: fw.Uni(t, "i", 8)}
		case k == 5:
			return NetOp{K: "close", I: fw.Uni(t, "i", 8)}
		case k == 6:
			return NetOp{K: "bad", Addr: fw.Pick(t, "bad", badAddrs), Port: fw.Uni(t, "port", 2)}
		case k == 7:
			return NetOp{K: "dial", Addr: genAddr(t), Port: fw.Uni(t, "port", 2)}
		case k == 8:
			return NetOp{K: "dialto", I: fw.Uni(t, "i", 8)}
		case k == 9:
			return NetOp{K: "connect", Addr: genAddr(t), Port: fw.Uni(t, "port", 2)}
		case k == 10:
			return NetOp{K: "connectto", I: fw.Uni(t, "i", 8)}
		default:
			return NetOp{K: "badconnect", Addr: fw.Pick(t, "bad", badAddrs)}
		}
	})
	return c
}

// sockets counts the open socket descriptors of this process.
func sockets() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, f := range d {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", f.Name())); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

type listener struct {
	fd   socket.FD
	addr string
	port int
}

type netRun struct {
	ports [2]int
	ls    []*listener
	e     *fw.Env
}

func (r *netRun) match(addr string, port int) *listener {
	var any *listener
	for _, l := range r.ls {
		if l.port == port && l.addr == addr {
			return l
		}
		if l.port == port && l.addr == "0.0.0.0" {
			any = l
		}
	}
	return any
}

func (r *netRun) conflict(addr string, port int) bool {
	for _, l := range r.ls {
		if l.port == port && (l.addr == addr || l.addr == "0.0.0.0" || addr == "0.0.0.0") {
			return true
		}
	}
	return false
}

func (r *netRun) listen(addr string, port int) error {
	before := sockets()
	fd, err := metis.CreateTCPServer(addr, uint16(port))
	after := sockets()
	if port != 0 && r.conflict(addr, port) {
		r.e.Label("port in use")
		if err == nil {
			_ = fd.Close()
			return fw.Viol("listening on %s:%d succeeded although the port is in use", addr, port)
		}
		if before != after {
			return fw.Viol("listening on %s:%d failed (port in use) and left %d descriptors open", addr, port, after-before)
		}
		return nil
	}
	if err != nil {
		if l, err2 := net.Listen("tcp4", addr+":"+strconv.Itoa(port)); err2 == nil {
			_ = l.Close()
			return fw.Viol("listening on %s:%d failed: %v", addr, port, err)
		}
		return fw.ErrInconclusive // somebody else uses the port
	}
	l := &listener{fd, addr, port}
	name, err := fd.GetSockName()
	if err != nil {
		return fw.Viol("GetSockName of a listener failed: %v", err)
	}
	got := net.IP(name.Addr[:]).String()
	if got != addr || (port != 0 && name.Port != port) || name.Port == 0 {
		return fw.Viol("a listener created for %s:%d is bound to %s:%d", addr, port, got, name.Port)
	}
	l.port = name.Port
	r.ls = append(r.ls, l)
	return nil
}

func readable(fd int, d time.Duration) bool {
	for end := time.Now().Add(d); ; {
		p := []unix.PollFd{{Fd: int32(fd), Events: unix.POLLIN}}
		n, err := unix.Poll(p, int(max(0, time.Until(end).Milliseconds())))
		if n > 0 {
			return true
		}
		if err != unix.EINTR || time.Now().After(end) {
			return false
		}
	}
}

// reach connects with dial and checks who accepts the connection.
func (r *netRun) reach(addr string, port int, how string, dial func() (string, func(), error)) error {
	l := r.match(addr, port)
	local, cl, err := dial()
	if l == nil {
		if err == nil {
			cl()
			return fw.Viol("%s to %s:%d succeeded although nothing listens there (listeners: %s)", how, addr, port, r.names())
		}
		r.e.Label("refused")
		return nil
	}
	if err != nil {
		return fw.Viol("%s to %s:%d failed although %s:%d listens: %v", how, addr, port, l.addr, l.port, err)
	}
	defer cl()
	for _, o := range r.ls {
		if o != l && readable(int(o.fd), 0) {
			return fw.Viol("%s to %s:%d reached the listener %s:%d", how, addr, port, o.addr, o.port)
		}
	}
	if !readable(int(l.fd), 10*time.Second) {
		return fw.Late("%s to %s:%d did not reach the listener %s:%d", how, addr, port, l.addr, l.port)
	}
	nfd, err := l.fd.Accept()
	if err != nil {
		return fw.Viol("Accept failed: %v", err)
	}
	defer nfd.Close()
	if peer, err := syscall.Getpeername(int(nfd)); err == nil {
		p, ok := peer.(*syscall.SockaddrInet4)
		if ok && fmt.Sprintf("%s:%d", net.IP(p.Addr[:]), p.Port) != local {
			return fw.Viol("%s to %s:%d: the accepted connection is from %s:%d, not from %s", how, addr, port, net.IP(p.Addr[:]), p.Port, local)
		}
	}
	r.e.Label("connected")
	return nil
}

func (r *netRun) names() string {
	var s []string
	for _, l := range r.ls {
		s = append(s, fmt.Sprintf("%s:%d", l.addr, l.port))
	}
	return strings.Join(s, " ")
}

func (r *netRun) dial(addr string, port int) error {
	return r.reach(addr, port, "a connection", func() (string, func(), error) {
		c, err := net.DialTimeout("tcp4", fmt.Sprintf("%s:%d", addr, port), 10*time.Second)
		if err != nil {
			return "", nil, err
		}
		_ = c.(*net.TCPConn).SetLinger(0)
		return c.LocalAddr().String(), func() { _ = c.Close() }, nil
	})
}

func (r *netRun) connect(addr string, port int) error {
	return r.reach(addr, port, "Connect", func() (string, func(), error) {
		fd, err := socket.Socket(syscall.AF_INET, syscall.SOCK_STREAM)
		if err != nil {
			return "", nil, err
		}
		if err := fd.Connect(addr, uint16(port)); err != nil {
			_ = fd.Close()
			return "", nil, err
		}
		name, err := fd.GetSockName()
		if err != nil {
			_ = fd.Close()
			return "", nil, err
		}
		_ = syscall.SetsockoptLinger(int(fd), syscall.SOL_SOCKET, syscall.SO_LINGER, &syscall.Linger{Onoff: 1})
		return fmt.Sprintf("%s:%d", net.IP(name.Addr[:]), name.Port), func() { _ = fd.Close() }, nil
	})
}

func (r *netRun) one(o NetOp) error {
	port := 0
	if o.Port < 2 {
		port = r.ports[o.Port]
	}
	var l *listener
	if len(r.ls) > 0 {
		l = r.ls[o.I%len(r.ls)]
	}
	switch o.K {
	case "listen":
		return r.listen(o.Addr, port)
	case "again":
		if l != nil {
			return r.listen(l.addr, l.port)
		}
	case "close":
		if l != nil {
			if err := l.fd.Close(); err != nil {
				return fw.Viol("closing a listener failed: %v", err)
			}
			r.ls = append(r.ls[:o.I%len(r.ls):o.I%len(r.ls)], r.ls[o.I%len(r.ls)+1:]...)
		}
	case "bad":
		before := sockets()
		fd, err := metis.CreateTCPServer(o.Addr, uint16(port))
		if err == nil {
			name, _ := fd.GetSockName()
			_ = fd.Close()
			return fw.Viol("listening on the invalid address %q succeeded (bound to %v)", o.Addr, name)
		}
		if after := sockets(); after != before {
			return fw.Viol("listening on the invalid address %q left %d descriptors open", o.Addr, after-before)
		}
	case "badconnect":
		fd, err := socket.Socket(syscall.AF_INET, syscall.SOCK_STREAM)
		if err != nil {
			return fw.Infra("%v", err)
		}
		defer fd.Close()
		if l != nil {
			port = l.port
		}
		if err := fd.Connect(o.Addr, uint16(port)); err == nil {
			return fw.Viol("Connect to the invalid address %q succeeded", o.Addr)
		}
	case "dial":
		return r.dial(o.Addr, port)
	case "connect":
		return r.connect(o.Addr, port)
	case "dialto", "connectto":
		if l != nil {
			a := l.addr
			if a == "0.0.0.0" {
				a = "127.0.0.77"
			}
			if o.K == "dialto" {
				return r.dial(a, l.port)
			}
			return r.connect(a, l.port)
		}
	}
	return nil
}

func runNet(e *fw.Env, c *NetCase) error {
	if c.Server {
		return runNetServer(e, c)
	}
	r := &netRun{e: e}
	for i := range r.ports {
		if r.ports[i] = rs.FreePort(e.Shard); r.ports[i] == 0 {
			return fw.Infra("no free port")
		}
	}
	if r.ports[0] == r.ports[1] {
		return fw.ErrInconclusive
	}
	defer func() {
		for _, l := range r.ls {
			_ = l.fd.Close()
		}
	}()
	for i, o := range c.Ops {
		e.Label("%s", o.K)
		if err := r.one(o); err != nil {
			return wrapViol(err, fmt.Sprintf("step %d: ", i))
		}
	}
	return nil
}

func validIP(s string) bool { ip := net.ParseIP(s); return ip != nil && ip.To4() != nil }

func runNetServer(e *fw.Env, c *NetCase) error {
	e.Label("server process")
	port := rs.FreePort(e.Shard)
	if port == 0 {
		return fw.Infra("no free port")
	}
	var busy net.Listener
	if c.Busy != "" {
		l, err := net.Listen("tcp4", c.Busy+":"+strconv.Itoa(port))
		if err != nil {
			return fw.ErrInconclusive
		}
		busy = l
		defer busy.Close()
		go func() {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				_ = x.Close()
			}
		}()
	}
	s := rs.NewServer(e, e.Scratch, rs.Cfg{Bind: c.Bind})
	if err := s.StartProc(port); err != nil {
		return err
	}
	defer s.Stop()
	mustFail := !validIP(c.Bind) || (c.Busy != "" && (c.Busy == c.Bind || c.Busy == "0.0.0.0"))
	if mustFail {
		if dead, _ := s.Dead(15 * time.Second); !dead {
			return fw.Late("a server with bind %q (port occupied by %q) goes on running", c.Bind, c.Busy)
		}
		e.Label("server refused to start")
		return nil
	}
	if err := s.WaitReady(rs.StartupTimeout); err != nil {
		return err
	}
	for _, o := range append(c.Ops, NetOp{Addr: c.Bind}, NetOp{Addr: "127.0.0.1"}) {
		addr := o.Addr
		if addr == "0.0.0.0" {
			addr = "127.3.2.1"
		}
		want := c.Bind == "0.0.0.0" || c.Bind == addr
		x, err := net.DialTimeout("tcp4", addr+":"+strconv.Itoa(port), 10*time.Second)
		if err == nil {
			_ = x.Close()
		}
		if (err == nil) != want && addr != c.Busy {
			return fw.Viol("a server with bind %s: connecting to %s gives %v", c.Bind, addr, err)
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C30", InProc: true, New: func() any { return &NetCase{} },
		CaseTimeout: 90e9, QuickS: 18, ThoroughS: 300,
		Gen:  genNet,
		Rule: "random programs of up to 14 (thorough: 40) steps on two ports of random loopback addresses: listeners created (specific, all addresses, port chosen by the system, occupied ports), closed, connections made to random addresses by Go's dialer and by Connect, invalid addresses; which listener accepts a connection and from whom is compared with a model; one case in eight starts the server with a random bind address; non-trivial: at least one listener and one connection, or a server process",
		Run: func(e *fw.Env, c any) error {
			h := c.(*NetCase)
			l, d := 0, 0
			for _, o := range h.Ops {
				if o.K == "listen" {
					l++
				} else if strings.HasPrefix(o.K, "dial") || strings.HasPrefix(o.K, "connect") {
					d++
				}
			}
			if h.Server || (l > 0 && d > 0) {
				e.NonTrivial()
			}
			return runNet(e, h)
		},
	})
}
