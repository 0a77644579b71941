package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// ---- C45: busy clients do not starve the others

// FloodCase: some connections keep the server as busy as they can, others send a request now and then.
type FloodCase struct {
	Cfg    rs.Cfg
	Floods []Flood
	Probes int // connections that send a request every ProbeMs
	PauseM int
	Ms     int
}

// Flood: "ping", "get", "set" and "error" send requests without a pause, Chunk at a time, and read the replies; "value" sends
// large values; "drip" sends requests byte by byte; "conns" opens and closes connections; "line" sends a line without end.
type Flood struct {
	Kind  string
	Chunk int
}

func (c *FloodCase) Steps() int { return len(c.Floods) }
func (c *FloodCase) Without(i, j int) any {
	n := *c
	n.Floods = append(append([]Flood{}, c.Floods[:i]...), c.Floods[j:]...)
	return &n
}

const floodLimit = 2 * time.Second

func genFlood(t *rapid.T, tier int) any {
	c := &FloodCase{Cfg: rs.Cfg{Databases: 2}, Ms: 3500, Probes: fw.Rng(t, "probes", 1, 3), PauseM: fw.Pick(t, "pauseM", []int{1, 10, 50})}
	if tier == 1 {
		c.Ms = fw.Pick(t, "ms", []int{3500, 8000})
	}
	if fw.Chance(t, "aof", 1, 2) {
		c.Cfg.Aof, c.Cfg.AofName, c.Cfg.Fsync = true, "a.aof", fw.Pick(t, "fsync", []string{"no", "everysec"})
		if fw.Chance(t, "auto", 1, 2) {
			c.Cfg.Pct, c.Cfg.MinSize = 100, "1b"
		}
	}
	c.Floods = fw.Seq(t, "floods", 1, 4, func(t *rapid.T) Flood {
		return Flood{Kind: fw.Pick(t, "kind", []string{"ping", "ping", "get", "set", "error", "value", "drip", "conns", "line"}), Chunk: fw.Pick(t, "chunk", []int{1, 20, 1000, 5000})}
	})
	return c
}

// counter counts the line ends of replies.
type counter struct {
	n    int
	errs int
	err  error
	done chan struct{}
}

func (k *counter) read(c net.Conn, enough func(n int) bool) {
	defer close(k.done)
	buf := make([]byte, 1<<18)
	for {
		n, err := c.Read(buf)
		k.n += bytes.Count(buf[:n], []byte{'\n'})
		k.errs += bytes.Count(buf[:n], []byte{'-'})
		if enough(k.n) {
			return
		}
		if err != nil {
			k.err = err
			return
		}
	}
}

// run floods until end. It returns the number of requests.
func (f Flood) run(s *rs.Server, i int, end time.Time) (int, error) {
	name := "f" + itoa(i)
	var req string
	lines := 1
	switch f.Kind {
	case "ping":
		req = rs.Encode([]string{"ping"})
	case "get":
		req, lines = rs.Encode([]string{"get", "shared"}), 2
	case "set":
		req = rs.Encode([]string{"set", name, "value"})
	case "error":
		req = rs.Encode([]string{"nosuch", name})
	case "value":
		f.Chunk = 1
		req = rs.Encode([]string{"set", name, strings.Repeat("v", 1<<20)})
	case "drip":
		req = rs.Encode([]string{"set", name, "value"})
	case "line", "conns":
		sent := 0
		for time.Now().Before(end) {
			x, err := s.Dial()
			if err != nil {
				return sent, rs.Classify(s, "connecting", err)
			}
			if f.Kind == "conns" {
				r, err := x.Do("ping")
				if err != nil || r.Str != "PONG" {
					x.Close()
					return sent, rs.Classify(s, "ping on a new connection", err)
				}
				sent++
				x.Reset()
				continue
			}
			_ = x.C.SetDeadline(end)
			part := strings.Repeat("x", 1+f.Chunk)
			for k := 0; k < 3000; k++ {
				if _, err := x.C.Write([]byte(part)); err != nil {
					break // it is too long
				}
				sent++
			}
			x.Reset()
		}
		return sent, nil
	default:
		return 0, fw.Infra("flood %q", f.Kind)
	}
	x, err := s.Dial()
	if err != nil {
		return 0, rs.Classify(s, "connecting", err)
	}
	defer x.Close()
	var mu sync.Mutex
	sent, over := 0, false
	k := &counter{done: make(chan struct{})}
	go k.read(x.C, func(n int) bool {
		mu.Lock()
		defer mu.Unlock()
		return over && n >= sent*lines
	})
	chunk := strings.Repeat(req, f.Chunk)
	_ = x.C.SetDeadline(end.Add(20 * time.Second))
	for time.Now().Before(end) {
		mu.Lock()
		sent += f.Chunk
		mu.Unlock()
		if f.Kind == "drip" {
			for a := range chunk[:len(req)] {
				if _, err = x.C.Write([]byte(chunk[a : a+1])); err != nil {
					break
				}
			}
			mu.Lock()
			sent -= f.Chunk - 1
			mu.Unlock()
		} else {
			_, err = x.C.Write([]byte(chunk))
		}
		if err != nil {
			return sent, rs.Classify(s, "sending "+f.Kind, err)
		}
	}
	mu.Lock()
	over = true
	mu.Unlock()
	// one more request, whose reply ends the count
	mu.Lock()
	sent++
	mu.Unlock()
	if _, err := x.C.Write([]byte(req)); err != nil {
		return sent, rs.Classify(s, "sending "+f.Kind, err)
	}
	<-k.done
	if k.err != nil {
		if errors.Is(k.err, os.ErrDeadlineExceeded) {
			return sent, fw.Late("a client that floods with %s has got %d of %d lines of replies 20 s after its last request", f.Kind, k.n, sent*lines)
		}
		return sent, rs.Classify(s, fmt.Sprintf("replies to the %s flood after %d of %d lines", f.Kind, k.n, sent*lines), k.err)
	}
	if k.n != sent*lines {
		return sent, fw.Viol("%d requests of the %s flood got %d lines of replies, not %d", sent, f.Kind, k.n, sent*lines)
	}
	if want := map[bool]int{true: sent}[f.Kind == "error"]; k.errs != want {
		return sent, fw.Viol("%d requests of the %s flood got %d errors", sent, f.Kind, k.errs)
	}
	return sent, nil
}

func runFlood(e *fw.Env, cc any) error {
	c := cc.(*FloodCase)
	w, err := rs.World0(e, c.Cfg, c.Probes)
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec([]rs.Op{cmd("set", "shared", "value of some size")}, 1); err != nil {
		return err
	}
	end := time.Now().Add(time.Duration(c.Ms) * time.Millisecond)
	errs := make([]error, len(c.Floods)+c.Probes+1)
	sent := make([]int, len(c.Floods))
	asked := make([]int, c.Probes+1)
	var worst time.Duration
	var mu sync.Mutex
	took := func(what string, t time.Time) error {
		d := time.Since(t)
		mu.Lock()
		defer mu.Unlock()
		worst = max(worst, d)
		if d > floodLimit {
			return fw.Late("%s took %v while other clients kept the server busy with %v", what, d.Round(time.Millisecond), c.Floods)
		}
		return nil
	}
	var wg sync.WaitGroup
	for i, f := range c.Floods {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sent[i], errs[i] = f.run(w.Srv, i, end)
		}()
	}
	for i := 0; i < c.Probes; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := func() error {
				conn := w.Conns[i]
				key := "p" + itoa(i)
				for n := 0; time.Now().Before(end); n++ {
					t := time.Now()
					r, err := conn.Do("set", key, itoa(n))
					if err != nil || !r.IsOK() {
						return rs.Classify(w.Srv, "SET: "+r.String(), err)
					}
					if r, err = conn.Do("get", key); err != nil || r.Str != itoa(n) {
						if err == nil {
							return fw.Viol("GET replied %s after SET %d", r, n)
						}
						return rs.Classify(w.Srv, "GET", err)
					}
					if err := took("a SET and a GET", t); err != nil {
						return err
					}
					asked[i]++
					time.Sleep(time.Duration(c.PauseM) * time.Millisecond)
				}
				return nil
			}()
			errs[len(c.Floods)+i] = err
		}()
	}
	wg.Add(1)
	go func() { // new connections, and a deadline
		defer wg.Done()
		errs[len(errs)-1] = func() error {
			var t0, t1 time.Time
			for time.Now().Before(end) {
				t := time.Now()
				x, err := w.Srv.Dial()
				if err != nil {
					return rs.Classify(w.Srv, "connecting", err)
				}
				if t0.IsZero() {
					t0 = time.Now()
					if r, err := x.Do("setex", "lapse", "1", "v"); err != nil || !r.IsOK() {
						return rs.Classify(w.Srv, "SETEX: "+r.String(), err)
					}
					t1 = time.Now()
				} else {
					g0 := time.Now()
					r, err := x.Do("get", "lapse")
					if err != nil {
						return rs.Classify(w.Srv, "GET", err)
					}
					if late := g0.Sub(t1) > 1050*time.Millisecond; late && !r.Null || !late && time.Since(t0) < 950*time.Millisecond && r.Str != "v" {
						return fw.Viol("%v after SETEX lapse 1 v, GET replied %s while other clients kept the server busy", g0.Sub(t1).Round(time.Millisecond), r)
					}
				}
				r, err := x.Do("ping")
				x.Close()
				if err != nil || r.Str != "PONG" {
					return rs.Classify(w.Srv, "ping", err)
				}
				if err := took("a new connection", t); err != nil {
					return err
				}
				asked[c.Probes]++
				time.Sleep(60 * time.Millisecond)
			}
			return nil
		}()
	}()
	sets := false
	for _, f := range c.Floods {
		sets = sets || f.Kind == "set" || f.Kind == "value"
	}
	if sets && c.Cfg.Pct > 0 {
		// the timers run as well
		t := time.Now()
		m := w.Srv.Mark()
		ok := m.Wait(time.Until(end))
		m.Close()
		if !ok {
			errs = append(errs, fw.Late("no automatic rewrite ends within %v while clients write all the time", time.Since(t).Round(time.Millisecond)))
		}
		e.Label("automatic rewrite while busy")
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	n := 0
	for i, k := range sent {
		n += k
		e.Label("%s", c.Floods[i].Kind)
	}
	e.LabelN("requests of the floods", n)
	for _, k := range asked {
		e.LabelN("probes", k)
	}
	if worst > 200*time.Millisecond {
		e.Label("slowest probe over 0.2 s")
	}
	if n >= 100 && asked[0] > 0 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C45", New: func() any { return &FloodCase{} }, Gen: genFlood, Run: runFlood, Workers: 4, QuickS: 35,
		Rule: "1-4 clients that keep the server busy for 3.5 s (thorough: up to 8 s) with pipelined commands or errors, values of 1 MB, requests sent byte by byte, endless lines or new connections, while 1-3 others send SET and GET every 1-50 ms and further ones connect and PING every 60 ms, with or without appendonly and automatic rewrites; every one of them is answered within 2 s, an automatic rewrite ends meanwhile, and every request of the floods gets its reply; non-trivial: at least 100 requests of floods and a probe",
	})
}
