package main

import (
	"fmt"
	"sync"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C29: timers

// TmDef is a timer. Acts are performed by its callback on call number On (0: every call).
type TmDef struct {
	Ms   int64
	Once bool
	On   int
	Acts []TmAct
	Busy int // ms spent in the callback
}

// TmAct: "remove" removes a timer by an id seen so far (W picks it), "guess" one by a neighbouring id, "self" the one
// that runs, "unknown" an id that cannot exist, "add" adds timer definition D.
type TmAct struct {
	K string
	W int `json:",omitempty"`
	D int `json:",omitempty"`
}

// TmCase runs several independent loops at the same time.
type TmCase struct{ Loops []TmLoop }

type TmLoop struct {
	Defs  []TmDef
	First []int // definitions added before the loop starts
	Ms    int   // how long it runs
	Pacer int   // 0 none, 1 a descriptor that is always ready
}

func (c *TmCase) Steps() int { return len(c.Loops) }
func (c *TmCase) Without(i, j int) any {
	return &TmCase{without(c.Loops, i, j)}
}

type tm struct {
	n        int
	def      *TmDef
	added    int64 // ms
	addedNow time.Time
	id       int64
	known    bool
	calls    int
	last     int64 // start of the last call
	lastEnd  time.Time
	removed  bool // by an id known to be its own
}

type tmRun struct {
	l       TmLoop
	el      *ae.EventLoop
	ts      []*tm
	byID    map[int64]*tm
	gone    map[int64]bool // removed successfully
	blind   int            // removals of ids that had never fired
	err     error
	busy    time.Duration // spent in callbacks
	deepest int
	labels  map[string]int
}

func (r *tmRun) fail(e error) {
	if r.err == nil {
		r.err = e
	}
	r.el.Stop()
}

func (r *tmRun) add(d int) {
	if len(r.ts) >= 60 {
		return
	}
	def := &r.l.Defs[d%len(r.l.Defs)]
	t := &tm{n: len(r.ts), def: def}
	mask := ae.TypeTimeEventNormal
	if def.Once {
		mask = ae.TypeTimeEventOnce
	}
	r.ts = append(r.ts, t)
	t.addedNow = time.Now()
	t.added = t.addedNow.UnixMilli()
	if err := r.el.AddTimeEvent(mask, def.Ms, func(el *ae.EventLoop, id int64, data any) { r.fire(t, el, id, data) }, t); err != nil {
		r.fail(fw.Viol("adding a timer failed: %v", err))
	}
}

const lateLimit = 450 // ms

func (r *tmRun) fire(t *tm, el *ae.EventLoop, id int64, data any) {
	if r.err != nil {
		return
	}
	now := time.Now()
	ms := now.UnixMilli()
	what := fmt.Sprintf("timer %d (%d ms, once %v)", t.n, t.def.Ms, t.def.Once)
	if el != r.el || data != any(t) {
		r.fail(fw.Viol("%s got other data", what))
		return
	}
	if r.gone[id] {
		r.fail(fw.Viol("%s with id %d was called after its removal", what, id))
		return
	}
	if !t.known {
		if o := r.byID[id]; o != nil {
			r.fail(fw.Viol("timers %d and %d both have the id %d", o.n, t.n, id))
			return
		}
		t.known, t.id = true, id
		r.byID[id] = t
	} else if t.id != id {
		r.fail(fw.Viol("%s was called with ids %d and %d", what, t.id, id))
		return
	}
	if t.def.Once && t.calls > 0 {
		r.fail(fw.Viol("%s was called twice", what))
		return
	}
	base := t.added
	if t.calls > 0 {
		base = t.last
	}
	if ms-base < t.def.Ms {
		r.fail(fw.Viol("%s was called %d ms after it was added or last called", what, ms-base))
		return
	}
	since := t.addedNow
	if t.calls > 0 {
		since = t.lastEnd
	}
	if late := now.Sub(since) - time.Duration(t.def.Ms)*time.Millisecond - r.busy; late > lateLimit*time.Millisecond {
		r.fail(fw.Late("%s was called %v too late after %d calls", what, late, t.calls))
		return
	}
	t.calls++
	t.last = ms
	if t.def.Busy > 0 {
		time.Sleep(time.Duration(t.def.Busy) * time.Millisecond)
	}
	if t.def.On == 0 || t.def.On == t.calls {
		for _, a := range t.def.Acts {
			r.act(t, a)
		}
	}
	t.lastEnd = time.Now()
	r.busy += t.lastEnd.Sub(now)
}

func (r *tmRun) removeID(id int64) {
	err := r.el.RemoveTimeEvent(id)
	t := r.byID[id]
	live := t != nil && !r.gone[id] && (!t.def.Once || t.calls == 0)
	switch {
	case r.gone[id]:
		if err == nil {
			r.fail(fw.Viol("removing timer id %d twice succeeded", id))
		}
	case t == nil:
		if err == nil { // a timer that has not fired yet
			r.gone[id] = true
			r.blind++
			r.labels["removed before its first call"]++
		}
	case live && err != nil:
		r.fail(fw.Viol("removing the timer with id %d failed: %v", id, err))
	case !live && t.def.Once && err == nil:
		r.fail(fw.Viol("removing one-shot timer id %d succeeded although it has been called", id))
	case err == nil:
		r.gone[id] = true
		t.removed = true
		r.labels["removed"]++
	}
}

func (r *tmRun) act(self *tm, a TmAct) {
	switch a.K {
	case "add":
		r.add(a.D)
	case "self":
		// a one-shot timer may or may not be removable while it runs; it must not be called again either way
		if self.def.Once {
			if r.el.RemoveTimeEvent(self.id) == nil {
				r.gone[self.id] = true
			}
			self.removed = true
		} else {
			r.removeID(self.id)
		}
	case "remove":
		var seen []*tm
		for _, t := range r.ts {
			if t.known && t != self {
				seen = append(seen, t)
			}
		}
		if len(seen) > 0 {
			r.removeID(seen[a.W%len(seen)].id)
		}
	case "guess":
		if id := self.id + int64(a.W%9) - 4; id != self.id {
			r.removeID(id)
		}
	case "unknown":
		if r.el.RemoveTimeEvent(1<<50+int64(a.W)) == nil {
			r.fail(fw.Viol("removing an unknown timer succeeded"))
		}
	}
}

func (r *tmRun) run() error {
	el, err := ae.NewEventLoop()
	if err != nil {
		return fw.Infra("%v", err)
	}
	r.el = el
	if r.l.Pacer == 1 {
		var p [2]int
		if err := syscall.Pipe2(p[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC); err != nil {
			return fw.Infra("%v", err)
		}
		defer syscall.Close(p[0])
		defer syscall.Close(p[1])
		_, _ = syscall.Write(p[1], []byte("x"))
		if err := el.AddFileEvent(socket.FD(p[0]), ae.TypeFileEventReadable, func(*ae.EventLoop, socket.FD, any) {
			time.Sleep(500 * time.Microsecond) // do not spin
		}, nil); err != nil {
			return fw.Infra("%v", err)
		}
	}
	for _, d := range r.l.First {
		r.add(d)
	}
	start := time.Now()
	end := start.Add(time.Duration(r.l.Ms) * time.Millisecond)
	// the loop must not sleep far beyond a timer; Stop is called from the function that runs before each wait
	el.SetBeforeSleepProc(func(el *ae.EventLoop) {
		if r.err != nil || time.Now().After(end) {
			el.Stop()
		}
	})
	if err := el.Main(); err != nil && r.err == nil {
		return fw.Viol("Main returns %v", err)
	}
	if r.err != nil {
		return r.err
	}
	now := time.Now()
	unfired := 0
	for _, t := range r.ts {
		if t.removed || (t.def.Once && t.calls > 0) {
			continue
		}
		since := t.addedNow
		if t.calls > 0 {
			since = t.lastEnd
		}
		late := now.Sub(since) - time.Duration(t.def.Ms)*time.Millisecond - r.busy
		if t.calls == 0 && t.def.Ms < 1<<20 && late > lateLimit*time.Millisecond {
			unfired++
		}
		if t.calls > 0 && late > lateLimit*time.Millisecond {
			return fw.Late("periodic timer %d (%d ms) has not been called for %v after %d calls", t.n, t.def.Ms, now.Sub(since), t.calls)
		}
	}
	if unfired > r.blind {
		return fw.Late("%d timers are more than %d ms late although only %d were removed before their first call", unfired, lateLimit, r.blind)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C29", InProc: true, New: func() any { return &TmCase{} },
		CaseTimeout: 30e9, QuickS: 18, ThoroughS: 300, Workers: 8,
		Rule: "random programs of 1-8 timers per loop (0-60 ms, some 0.7-1 s or hours away; one-shot and periodic) whose callbacks add timers, remove others (also due in the same round), themselves, by ids not seen yet and unknown ids, and take time; 16 loops run side by side for 0.7-1 s each; earliness is checked to the millisecond, lateness beyond 450 ms must be reproduced; non-trivial: loops with at least one removal and one addition by callbacks",
		Gen: func(t *rapid.T, tier int) any {
			c := &TmCase{}
			c.Loops = fw.Seq(t, "loops", 16, 16, func(t *rapid.T) TmLoop {
				l := TmLoop{Ms: fw.Pick(t, "ms", []int{30, 100, 250, 700, 900}), Pacer: fw.Uni(t, "pacer", 2)}
				if fw.Chance(t, "long", 1, 3) {
					l.Ms = 1300
				}
				interval := fw.Pick(t, "intervals", [][]int64{{1, 2, 3}, {5, 5, 5}, {0, 1, 20}, {20, 20, 40}, {7, 30, 60, 1 << 33}, {2, 10, 700, 950}, {3, 800, 1 << 33}})
				l.Defs = fw.Seq(t, "defs", 1, 8, func(t *rapid.T) TmDef {
					d := TmDef{Ms: fw.Pick(t, "interval", interval), Once: fw.Chance(t, "once", 1, 2), On: fw.Pick(t, "on", []int{0, 1, 1, 2, 5})}
					if fw.Chance(t, "busy", 1, 6) {
						d.Busy = fw.Pick(t, "busyms", []int{1, 5, 15})
					}
					d.Acts = fw.Seq(t, "acts", 0, 3, func(t *rapid.T) TmAct {
						return TmAct{K: fw.Pick(t, "act", []string{"add", "add", "remove", "remove", "guess", "guess", "self", "unknown"}), W: fw.Uni(t, "which", 60), D: fw.Uni(t, "def", 8)}
					})
					return d
				})
				l.First = fw.Seq(t, "first", 1, 10, func(t *rapid.T) int { return fw.Uni(t, "def", 8) })
				return l
			})
			return c
		},
		Run: func(e *fw.Env, c any) error {
			h := c.(*TmCase)
			runs := make([]*tmRun, len(h.Loops))
			errs := make([]error, len(h.Loops))
			panics := make([]any, len(h.Loops))
			var wg sync.WaitGroup
			for i, l := range h.Loops {
				runs[i] = &tmRun{l: l, byID: map[int64]*tm{}, gone: map[int64]bool{}, labels: map[string]int{}}
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() { panics[i] = recover() }()
					errs[i] = runs[i].run()
				}()
			}
			wg.Wait()
			added, removed := 0, 0
			for i, r := range runs {
				if panics[i] != nil {
					return fw.Viol("panic: %v", panics[i])
				}
				if errs[i] != nil {
					return errs[i]
				}
				for k, n := range r.labels {
					e.LabelN(k, n)
				}
				removed += len(r.gone)
				added += len(r.ts) - len(r.l.First)
				for _, t := range r.ts {
					e.LabelN("calls", t.calls)
					if t.def.Once {
						e.Label("one-shot timers")
					} else {
						e.Label("periodic timers")
					}
				}
			}
			if added > 0 && removed > 0 {
				e.NonTrivial()
			}
			return nil
		},
	})
}
