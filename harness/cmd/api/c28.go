package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C28: file events

// EvAct is one action. F is a descriptor slot (two per pair of connected descriptors), W the writable direction.
type EvAct struct {
	K string
	F int  `json:",omitempty"`
	W bool `json:",omitempty"`
	N int  `json:",omitempty"`
}

// Hook makes the callback of slot F in direction W perform actions when it runs.
type Hook struct {
	F    int
	W    bool
	Acts []EvAct
}

type EvRound struct {
	Acts  []EvAct
	Hooks []Hook `json:",omitempty"`
}

type EvCase struct {
	Pairs []int // 0 socket pair, 1 pipe
	Timer bool  // the loop is woken by a timer, not by a descriptor that is always ready
	Busy  int   `json:",omitempty"` // timers that are always due besides
	Extra int   // ready descriptors registered besides
	Round []EvRound
}

func (c *EvCase) Steps() int { return len(c.Round) }
func (c *EvCase) Without(i, j int) any {
	n := *c
	n.Round = without(c.Round, i, j)
	return &n
}

type reg struct {
	id      int
	slot    int
	fd      int
	w       bool
	live    bool
	since   int // event number when registered
	calls   int // since the beginning of the round
	ready   bool
	removed int
}

type evWorld struct {
	e     *fw.Env
	el    *ae.EventLoop
	c     *EvCase
	fds   []int // per slot; -1 closed
	regs  map[[2]int]*reg
	all   []*reg
	round int
	quiet int // passes without actions in this round
	hooks map[[2]int][]EvAct
	depth int
	err   error
	start time.Time
	extra []int
	nExtr []int
}

func dirOf(w bool) int {
	if w {
		return 1
	}
	return 0
}

func maskOf(w bool) ae.TypeFileEvent {
	if w {
		return ae.TypeFileEventWritable
	}
	return ae.TypeFileEventReadable
}

func dirName(w bool) string {
	if w {
		return "writable"
	}
	return "readable"
}

func (w *evWorld) fail(format string, a ...any) {
	if w.err == nil {
		w.err = fw.Viol("round %d: %s", w.round, fmt.Sprintf(format, a...))
	}
	w.el.Stop()
}

func (w *evWorld) infra(format string, a ...any) {
	if w.err == nil {
		w.err = fw.Infra(format, a...)
	}
	w.el.Stop()
}

func (w *evWorld) add(slot int, wr bool) {
	fd := w.fds[slot]
	k := [2]int{slot, dirOf(wr)}
	r := &reg{id: len(w.all), slot: slot, fd: fd, w: wr, live: true}
	tag := r
	proc := func(el *ae.EventLoop, cfd socket.FD, data any) {
		if w.err != nil {
			return
		}
		what := fmt.Sprintf("callback %d for descriptor %d %s", r.id, r.fd, dirName(wr))
		if !r.live {
			w.fail("%s was called after its removal", what)
			return
		}
		if el != w.el || int(cfd) != r.fd || data != any(tag) {
			w.fail("%s got descriptor %d or other data", what, cfd)
			return
		}
		r.calls++
		if r.calls > 60 {
			return
		}
		if acts, ok := w.hooks[[2]int{slot, dirOf(wr)}]; ok && r.calls == 1 {
			for _, a := range acts {
				w.act(a)
			}
			w.e.Label("callback with actions")
		}
	}
	err := w.el.AddFileEvent(socket.FD(fd), maskOf(wr), proc, tag)
	switch {
	case fd < 0:
		if err == nil {
			w.fail("registering a closed descriptor succeeded")
		}
	case w.regs[k] != nil:
		if err == nil {
			w.fail("registering descriptor %d %s twice succeeded", fd, dirName(wr))
		}
		w.e.Label("double registration")
	case err != nil:
		w.fail("registering descriptor %d %s failed: %v", fd, dirName(wr), err)
	default:
		w.all = append(w.all, r)
		w.regs[k] = r
	}
}

func (w *evWorld) remove(slot int, wr bool) {
	fd := w.fds[slot]
	k := [2]int{slot, dirOf(wr)}
	err := w.el.RemoveFileEvent(socket.FD(fd), maskOf(wr))
	r := w.regs[k]
	if r == nil {
		if err == nil {
			w.fail("removing an absent registration of descriptor %d %s succeeded", fd, dirName(wr))
		}
		w.e.Label("absent registration removed")
		return
	}
	if err != nil {
		w.fail("removing the registration of descriptor %d %s failed: %v", fd, dirName(wr), err)
		return
	}
	r.live = false
	delete(w.regs, k)
}

func (w *evWorld) dropSlot(slot int) {
	for _, wr := range []bool{false, true} {
		if w.regs[[2]int{slot, dirOf(wr)}] != nil {
			w.remove(slot, wr)
		}
	}
	if w.fds[slot] >= 0 {
		_ = syscall.Close(w.fds[slot])
		w.fds[slot] = -1
	}
}

func (w *evWorld) open(pair int) error {
	var p [2]int
	var err error
	if w.c.Pairs[pair] == 0 {
		p, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
		if err == nil {
			for _, fd := range p {
				_ = syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_SNDBUF, 4096)
			}
		}
	} else {
		err = syscall.Pipe2(p[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC)
	}
	if err != nil {
		return err
	}
	w.fds[2*pair], w.fds[2*pair+1] = p[0], p[1]
	return nil
}

func (w *evWorld) act(a EvAct) {
	if w.err != nil || len(w.fds) == 0 {
		return
	}
	s := a.F % len(w.fds)
	switch a.K {
	case "add":
		w.add(s, a.W)
	case "remove":
		w.remove(s, a.W)
	case "readd":
		if w.regs[[2]int{s, dirOf(a.W)}] != nil {
			w.remove(s, a.W)
		}
		w.add(s, a.W)
	case "write":
		if w.fds[s] >= 0 {
			_, _ = syscall.Write(w.fds[s], make([]byte, max(1, a.N)))
		}
	case "fill": // until nothing more fits
		if w.fds[s] >= 0 {
			for i := 0; i < 1000; i++ {
				if n, err := syscall.Write(w.fds[s], make([]byte, 4096)); n <= 0 || err != nil {
					break
				}
			}
		}
	case "read":
		if w.fds[s] >= 0 {
			_, _ = syscall.Read(w.fds[s], make([]byte, max(1, a.N)))
		}
	case "drain":
		if w.fds[s] >= 0 {
			for i := 0; i < 1000; i++ {
				if n, err := syscall.Read(w.fds[s], make([]byte, 65536)); n <= 0 || err != nil {
					break
				}
			}
		}
	case "close":
		w.dropSlot(s)
	case "reopen": // the same numbers come back with other descriptors
		w.dropSlot(s &^ 1)
		w.dropSlot(s | 1)
		if err := w.open(s / 2); err != nil {
			w.infra("%v", err)
		}
	case "badadd": // a regular file cannot be watched
		f, err := os.Open(os.Args[0])
		if err != nil {
			return
		}
		fd := int(f.Fd())
		if err := w.el.AddFileEvent(socket.FD(fd), maskOf(a.W), func(*ae.EventLoop, socket.FD, any) {
			w.fail("the callback of a failed registration was called")
		}, nil); err == nil {
			w.fail("registering a regular file succeeded")
		} else if err := w.el.RemoveFileEvent(socket.FD(fd), maskOf(a.W)); err == nil {
			w.fail("removing the registration that failed succeeded")
		}
		_ = f.Close()
	}
}

// poll asks the kernel which registrations are ready.
func (w *evWorld) poll() {
	for k, r := range w.regs {
		p := []unix.PollFd{{Fd: int32(w.fds[k[0]]), Events: unix.POLLIN}}
		if r.w {
			p[0].Events = unix.POLLOUT
		}
		n, err := unix.Poll(p, 0)
		r.ready = n > 0 && err == nil && p[0].Revents&(p[0].Events|unix.POLLHUP|unix.POLLERR) != 0
	}
}

// before runs in front of every wait. After the actions of a round, the loop runs on until every registration that
// stays ready has been called, and a few times more.
func (w *evWorld) before(el *ae.EventLoop) {
	if w.err != nil {
		return
	}
	if time.Since(w.start) > 30*time.Second {
		w.err = fw.ErrInconclusive
		el.Stop()
		return
	}
	if w.quiet > 0 {
		var missed *reg
		for _, r := range w.regs {
			if r.ready && r.calls == 0 {
				missed = r
			}
		}
		w.poll()
		limit := 4 + (len(w.all)+len(w.extra))/200
		if missed != nil && missed.ready {
			if w.quiet > limit {
				w.fail("descriptor %d has been ready (%s) over %d passes and its callback was not called", missed.fd, dirName(missed.w), w.quiet)
				return
			}
			w.quiet++
			return
		}
		if w.quiet < 2 {
			w.quiet++
			return
		}
		for i, n := range w.nExtr {
			if n == 0 && w.quiet > limit {
				w.fail("one of %d ready descriptors has not been called (number %d)", len(w.extra), i)
				return
			} else if n == 0 {
				w.quiet++
				return
			}
		}
		w.round++
	}
	for i := range w.nExtr {
		w.nExtr[i] = 0
	}
	w.quiet = 0
	if w.round >= len(w.c.Round) {
		el.Stop()
		return
	}
	rd := w.c.Round[w.round]
	for _, a := range rd.Acts {
		w.act(a)
	}
	w.hooks = map[[2]int][]EvAct{}
	for _, h := range rd.Hooks {
		w.hooks[[2]int{h.F % len(w.fds), dirOf(h.W)}] = h.Acts
	}
	for _, r := range w.regs {
		r.calls = 0
	}
	w.poll()
	w.quiet = 1
}

func genEvAct(slots int) func(t *rapid.T) EvAct {
	return func(t *rapid.T) EvAct {
		k := fw.Pick(t, "act", []string{"add", "add", "add", "add", "remove", "remove", "remove", "readd", "write", "write", "fill", "read", "drain", "drain", "close", "reopen", "badadd"})
		return EvAct{K: k, F: fw.Uni(t, "slot", slots), W: fw.Chance(t, "w", 1, 2), N: fw.Pick(t, "n", []int{1, 1, 2, 100, 3000})}
	}
}

func runEv(e *fw.Env, c any) error {
	h := c.(*EvCase)
	el, err := ae.NewEventLoop()
	if err != nil {
		return fw.Infra("%v", err)
	}
	w := &evWorld{e: e, el: el, c: h, regs: map[[2]int]*reg{}, fds: make([]int, 2*len(h.Pairs)), start: time.Now()}
	defer func() {
		for _, fd := range w.fds {
			if fd >= 0 {
				_ = syscall.Close(fd)
			}
		}
		for _, fd := range w.extra {
			_ = syscall.Close(fd)
		}
	}()
	for i := range w.fds {
		w.fds[i] = -1
	}
	for i := range h.Pairs {
		if err := w.open(i); err != nil {
			return fw.Infra("%v", err)
		}
	}
	var pacer [2]int
	if err := syscall.Pipe2(pacer[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC); err != nil {
		return fw.Infra("%v", err)
	}
	w.extra = append(w.extra, pacer[0], pacer[1])
	for i := 0; i < h.Extra; i++ {
		fd, err := syscall.Dup(pacer[0])
		if err != nil {
			return fw.Infra("%v", err)
		}
		w.extra = append(w.extra, fd)
		i := i
		w.nExtr = append(w.nExtr, 0)
		if err := el.AddFileEvent(socket.FD(fd), ae.TypeFileEventReadable, func(*ae.EventLoop, socket.FD, any) { w.nExtr[i]++ }, nil); err != nil {
			return fw.Viol("registering a pipe failed: %v", err)
		}
	}
	if _, err := syscall.Write(pacer[1], []byte("x")); err != nil {
		return fw.Infra("%v", err)
	}
	if h.Timer {
		err = el.AddTimeEvent(ae.TypeTimeEventNormal, 1, func(*ae.EventLoop, int64, any) {}, nil)
	} else {
		err = el.AddFileEvent(socket.FD(pacer[0]), ae.TypeFileEventReadable, func(*ae.EventLoop, socket.FD, any) {}, nil)
	}
	if err != nil {
		return fw.Viol("registering failed: %v", err)
	}
	for i := 0; i < h.Busy; i++ {
		if err := el.AddTimeEvent(ae.TypeTimeEventNormal, 0, func(*ae.EventLoop, int64, any) {}, nil); err != nil {
			return fw.Viol("registering a timer failed: %v", err)
		}
	}
	el.SetBeforeSleepProc(w.before)
	if err := el.Main(); err != nil && w.err == nil {
		return fw.Viol("Main returns %v", err)
	}
	return w.err
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C28", InProc: true, New: func() any { return &EvCase{} }, Run: func(e *fw.Env, c any) error {
			h := c.(*EvCase)
			n, hooks := 0, 0
			for _, r := range h.Round {
				hooks += len(r.Hooks)
				for _, a := range r.Acts {
					e.Label("%s", a.K)
					if strings.HasPrefix(a.K, "add") {
						n++
					}
				}
			}
			if n >= 2 && hooks >= 1 {
				e.NonTrivial()
			}
			if h.Extra > 1000 {
				e.Label("more than 1000 ready descriptors")
			}
			return runEv(e, c)
		},
		CaseTimeout: 45e9, QuickS: 18, ThoroughS: 300,
		Rule: "random programs over 1-6 pipes and socket pairs (plus up to 1100 descriptors that are always ready) run inside one event loop: rounds of registrations, removals, double and absent ones, writes, fills, reads, drains, closes and reopened descriptors with the same number, some of them performed by callbacks while other callbacks of the same round are due; readiness is read from the kernel with poll; non-trivial: at least two registrations and a callback that acts",
		Gen: func(t *rapid.T, tier int) any {
			c := &EvCase{Timer: fw.Chance(t, "timer", 1, 6)}
			c.Pairs = fw.Seq(t, "pairs", 1, 6, func(t *rapid.T) int { return fw.Uni(t, "kind", 2) })
			if fw.Chance(t, "busy", 1, 8) {
				c.Busy = fw.Pick(t, "nbusy", []int{1, 3, 20})
			}
			slots := 2 * len(c.Pairs)
			if fw.Chance(t, "extra", 1, 24) {
				c.Extra = fw.Pick(t, "nextra", []int{100, 1100})
			}
			rounds := 12
			if tier == 1 {
				rounds = 60
			}
			c.Round = fw.Seq(t, "rounds", 1, rounds, func(t *rapid.T) EvRound {
				return EvRound{
					Acts: fw.Seq(t, "acts", 0, 6, genEvAct(slots)),
					Hooks: fw.Seq(t, "hooks", 0, 3, func(t *rapid.T) Hook {
						return Hook{F: fw.Uni(t, "slot", slots), W: fw.Chance(t, "w", 1, 2), Acts: fw.Seq(t, "hookacts", 1, 4, genEvAct(slots))}
					}),
				}
			})
			return c
		},
	})
}
