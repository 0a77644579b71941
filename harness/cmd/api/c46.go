package main

import (
	"fmt"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C46: rounds of the event loop: the before-sleep callback and Stop

// FrameCase runs one loop with pipes, timers and a before-sleep callback.
type FrameCase struct {
	Pipes  int
	Pacer  bool // a descriptor is always ready
	Timers []FrameTimer
	Acts   []FrameAct // performed one after the other, by the callback whose turn it is
	Stop   string     // "before" Main, in a "callback" (or in the before-sleep callback) as the last act, in a "timer", from "outside" after StopMs
	StopMs int
	Twice  bool
}

type FrameTimer struct {
	Ms   int64
	Once bool
}

// FrameAct: "write" makes pipe P readable, "burst" all of them; "sleepwrite" does so in the before-sleep callback; "swap" replaces the before-sleep
// callback, "unset" removes it (it is set again by the next act).
type FrameAct struct {
	K string
	P int
}

func (c *FrameCase) Steps() int { return len(c.Acts) }
func (c *FrameCase) Without(i, j int) any {
	n := *c
	n.Acts = without(c.Acts, i, j)
	return &n
}

type frame struct {
	c       *FrameCase
	el      *ae.EventLoop
	pipes   [][2]int
	written []int // event number of the write that made it readable, -1: none
	inSleep []bool
	log     []byte // s: before-sleep, p: pacer, c: pipe callback, t: timer
	unset   bool   // there is no before-sleep callback
	unsetAt int
	version int
	next    int
	stopped int // length of the log when Stop was called
	stop    atomic.Bool
	err     error
	began   time.Time
}

func (w *frame) fail(format string, a ...any) {
	if w.err == nil {
		w.err = fw.Viol(format, a...)
	}
	w.halt()
}

// halt calls Stop from the loop.
func (w *frame) halt() {
	if w.stopped < 0 {
		w.stopped = len(w.log)
		w.el.Stop()
		if w.c.Twice {
			w.el.Stop()
		}
	}
}

func (w *frame) note(k byte) {
	w.log = append(w.log, k)
	for p, at := range w.written {
		if k == 's' && at >= 0 && w.inSleep[p] {
			w.fail("a descriptor that the before-sleep callback has made ready is not served before it runs again: %s", w.tail())
			return
		}
	}
	if w.stopped >= 0 && k == 's' {
		w.fail("the before-sleep callback runs although the loop was stopped in an earlier round")
	}
	if len(w.log) > 200000 || time.Since(w.began) > 20*time.Second {
		if w.err == nil {
			w.err = fw.ErrInconclusive
		}
		w.halt()
	}
}

// act performs the next act.
func (w *frame) act(sleeping bool) {
	if w.next >= len(w.c.Acts) {
		if w.c.Stop == "callback" {
			w.halt()
		}
		return
	}
	a := w.c.Acts[w.next]
	if a.K == "sleepwrite" && !sleeping && !w.unset || a.K != "sleepwrite" && sleeping && w.next%3 != 0 {
		return // its turn comes in the other kind of callback
	}
	w.next++
	if w.unset {
		w.setProc()
	}
	switch a.K {
	case "write", "sleepwrite", "burst":
		for p := range w.pipes {
			if w.written[p] >= 0 || a.K != "burst" && p != a.P%len(w.pipes) {
				continue
			}
			if _, err := syscall.Write(w.pipes[p][1], []byte("x")); err != nil {
				w.err = fw.Infra("%v", err)
				w.halt()
				return
			}
			w.written[p], w.inSleep[p] = len(w.log), sleeping
		}
	case "swap":
		w.setProc()
	case "unset":
		if !sleeping {
			w.unset, w.unsetAt = true, len(w.log)
			w.el.SetBeforeSleepProc(nil)
		}
	}
}

func (w *frame) setProc() {
	w.version++
	if w.unset {
		w.unset, w.unsetAt = false, len(w.log)
	}
	v := w.version
	w.el.SetBeforeSleepProc(func(el *ae.EventLoop) {
		if el != w.el {
			w.fail("the before-sleep callback gets another loop")
			return
		}
		if v != w.version || w.unset {
			w.fail("a before-sleep callback that has been replaced runs")
			return
		}
		w.note('s')
		w.act(true)
	})
}

// slept tells whether a before-sleep callback has run since event number from.
func (w *frame) slept(from int) bool {
	for _, k := range w.log[from:] {
		if k == 's' {
			return true
		}
	}
	return false
}

func runFrame(e *fw.Env, cc any) error {
	c := cc.(*FrameCase)
	el, err := ae.NewEventLoop()
	if err != nil {
		return fw.Infra("%v", err)
	}
	w := &frame{c: c, el: el, stopped: -1, began: time.Now()}
	defer func() {
		for _, p := range w.pipes {
			_ = syscall.Close(p[0])
			_ = syscall.Close(p[1])
		}
	}()
	pipe := func() ([2]int, error) {
		var p [2]int
		err := syscall.Pipe2(p[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC)
		if err == nil {
			w.pipes = append(w.pipes, p)
		}
		return p, err
	}
	for i := 0; i < max(c.Pipes, 1); i++ {
		p, err := pipe()
		if err != nil {
			return fw.Infra("%v", err)
		}
		w.written, w.inSleep = append(w.written, -1), append(w.inSleep, false)
		if err := el.AddFileEvent(socket.FD(p[0]), ae.TypeFileEventReadable, func(*ae.EventLoop, socket.FD, any) {
			at := w.written[i]
			if at < 0 {
				w.fail("pipe %d is called although it is empty", i)
				return
			}
			if !w.inSleep[i] && !w.unset && w.unsetAt <= at && !w.slept(at) {
				w.fail("a descriptor that has become ready in a callback is served without the before-sleep callback having run before: %s", w.tail())
				return
			}
			w.note('c')
			buf := make([]byte, 8)
			_, _ = syscall.Read(p[0], buf)
			w.written[i] = -1
			w.act(false)
		}, nil); err != nil {
			return fw.Viol("registering a pipe failed: %v", err)
		}
	}
	if c.Pacer {
		p, err := pipe()
		if err != nil {
			return fw.Infra("%v", err)
		}
		w.pipes = w.pipes[:len(w.pipes)-1]
		defer syscall.Close(p[0])
		defer syscall.Close(p[1])
		if _, err := syscall.Write(p[1], []byte("x")); err != nil {
			return fw.Infra("%v", err)
		}
		last := -1
		if err := el.AddFileEvent(socket.FD(p[0]), ae.TypeFileEventReadable, func(*ae.EventLoop, socket.FD, any) {
			n := 0
			for k := last + 1; k < len(w.log); k++ {
				if w.log[k] == 's' {
					n++
				}
			}
			if last >= w.unsetAt && !w.unset && n != 1 && w.stopped < 0 {
				w.fail("the before-sleep callback has run %d times in one round: %s", n, w.tail())
				return
			}
			last = len(w.log)
			w.note('p')
			w.act(false)
		}, nil); err != nil {
			return fw.Viol("registering a pipe failed: %v", err)
		}
	}
	for i, t := range c.Timers {
		mask := ae.TypeTimeEventNormal
		if t.Once {
			mask = ae.TypeTimeEventOnce
		}
		if err := el.AddTimeEvent(mask, t.Ms, func(*ae.EventLoop, int64, any) {
			if len(w.log) == 0 {
				w.fail("timer %d runs before the first before-sleep callback", i)
				return
			}
			w.note('t')
			if c.Stop == "timer" && w.next >= len(c.Acts) {
				w.halt()
			}
			w.act(false)
		}, nil); err != nil {
			return fw.Viol("adding a timer failed: %v", err)
		}
	}
	w.setProc()
	if c.Stop == "before" {
		el.Stop()
		if c.Twice {
			el.Stop()
		}
	}
	// Stop from another goroutine; in the other cases a last resort
	var outside atomic.Int64
	d := 10 * time.Second
	if c.Stop == "outside" {
		d = time.Duration(c.StopMs) * time.Millisecond
	}
	timer := time.AfterFunc(d, func() {
		outside.Store(time.Now().UnixNano())
		el.Stop()
		if c.Twice {
			el.Stop()
		}
	})
	defer timer.Stop()
	done := make(chan error, 1)
	go func() { done <- el.Main() }()
	select {
	case err = <-done:
	case <-time.After(25 * time.Second):
		return fw.Late("Main has not returned 25 s after it was called, Stop: %s", c.Stop)
	}
	if w.err != nil {
		return w.err
	}
	if err != nil {
		return fw.Viol("Main returns %v after Stop", err)
	}
	switch {
	case c.Stop == "outside":
		if late := time.Since(time.Unix(0, outside.Load())); late > 3*time.Second {
			return fw.Late("Main returns %v after Stop was called", late)
		}
	case outside.Load() != 0:
		return fw.Late("the loop has not got to its end within 10 s (%d of %d acts, Stop: %s): %s", w.next, len(c.Acts), c.Stop, w.tail())
	}
	if c.Stop == "before" && len(w.log) > 0 {
		return fw.Viol("callbacks run although Stop was called before Main: %s", w.tail())
	}
	if len(w.log) > 0 && w.log[0] != 's' {
		return fw.Viol("the first callback is not the before-sleep callback: %s", w.tail())
	}
	if w.stopped >= 0 {
		n := map[byte]int{}
		for _, k := range w.log[w.stopped:] {
			n[k]++
		}
		if n['p'] > 1 || n['c'] > len(w.written) {
			return fw.Viol("after Stop more than the current round runs: %s, then %s", w.log[max(0, w.stopped-20):w.stopped], w.log[w.stopped:])
		}
	}
	n := len(w.log)
	time.Sleep(time.Millisecond)
	if len(w.log) != n {
		return fw.Viol("a callback runs after Main has returned")
	}
	e.Label("Stop: %s", c.Stop)
	e.LabelN("callbacks", n)
	if n >= 5 {
		e.NonTrivial()
	}
	return nil
}

func (w *frame) tail() string {
	return fmt.Sprintf("%s (s before-sleep, p always ready, c pipe, t timer)", w.log[max(0, len(w.log)-40):])
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C46", InProc: true, New: func() any { return &FrameCase{} }, Run: runFrame, CaseTimeout: 60e9, QuickS: 18, ThoroughS: 300,
		Rule: "loops with 1-20 pipes, perhaps a descriptor that is always ready, and 0-3 timers, whose callbacks and before-sleep callback write to the pipes and replace, remove or set the before-sleep callback, until Stop is called before Main, from one of the callbacks, a timer or another goroutine, once or twice; the order of all calls is recorded; non-trivial: at least 5 calls",
		Gen: func(t *rapid.T, tier int) any {
			c := &FrameCase{Pipes: fw.Pick(t, "pipes", []int{1, 2, 4, 20}), Pacer: fw.Chance(t, "pacer", 1, 2), Twice: fw.Chance(t, "twice", 1, 4)}
			c.Stop = fw.Pick(t, "stop", []string{"callback", "callback", "callback", "timer", "outside", "before"})
			c.StopMs = fw.Uni(t, "stopMs", 30)
			for n := fw.Uni(t, "timers", 4); n > 0; n-- {
				c.Timers = append(c.Timers, FrameTimer{Ms: int64(fw.Uni(t, "ms", 6)), Once: fw.Chance(t, "once", 1, 3)})
			}
			if c.Stop == "timer" || !c.Pacer || fw.Chance(t, "more", 1, 2) { // there is always something to wait for
				c.Timers = append(c.Timers, FrameTimer{Ms: int64(fw.Rng(t, "lastMs", 1, 4))})
			}
			c.Acts = fw.Seq(t, "acts", 0, 40, func(t *rapid.T) FrameAct {
				return FrameAct{K: fw.Pick(t, "act", []string{"write", "write", "burst", "sleepwrite", "sleepwrite", "swap", "unset"}), P: fw.Uni(t, "p", 20)}
			})
			return c
		},
	})
}
