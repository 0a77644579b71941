package main

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verifharness/fw"
	"verifharness/rs"
)

// HistCase is a command history on one server.
type HistCase struct {
	Cfg   rs.Cfg
	Conns int
	Depth int // pipelining depth
	Ops   []rs.Op
}

func (h *HistCase) Steps() int { return len(h.Ops) }
func (h *HistCase) Without(i, j int) any {
	n := *h
	n.Ops = append(append([]rs.Op{}, h.Ops[:i]...), h.Ops[j:]...)
	return &n
}

func newHist() any { return &HistCase{} }

func runHist(e *fw.Env, c any, after func(w *rs.World) error) error {
	h := c.(*HistCase)
	w, err := rs.World0(e, h.Cfg, max(h.Conns, 1))
	if err != nil {
		return err
	}
	defer w.Srv.Stop()
	defer w.Close()
	if err := w.Exec(h.Ops, h.Depth); err != nil {
		return err
	}
	if err := w.CheckDump("after the history"); err != nil {
		return err
	}
	countOps(e, h.Ops)
	if after != nil {
		return after(w)
	}
	return nil
}

func countOps(e *fw.Env, ops []rs.Op) {
	for _, o := range ops {
		e.Label("%s", strings.ToLower(o.Args[0].Str()))
	}
}

// distinct counts the different command names in ops, and how many of them write.
func distinct(ops []rs.Op) (names, writes int) {
	m := map[string]bool{}
	for _, o := range ops {
		n := strings.ToLower(o.Args[0].Str())
		if !m[n] && rs.IsWrite(n) {
			writes++
		}
		m[n] = true
	}
	return len(m), writes
}

var depths = []int{1, 1, 2, 8, 40}

func genHist(kind byte, max, fillMax, thoroughMax int, op func(p *rs.Pools, t *rapid.T) rs.Op) func(t *rapid.T, tier int) any {
	return func(t *rapid.T, tier int) any {
		n := max
		if tier == 1 {
			n = thoroughMax
		}
		h := &HistCase{Conns: fw.Rng(t, "conns", 1, 3), Depth: fw.Pick(t, "depth", depths)}
		p := rs.NewPools(t, fw.Rng(t, "nkeys", 1, 4), fw.Pick(t, "fillMax", []int{10, 130, fillMax, fillMax}))
		h.Ops = fw.Seq(t, "ops", 1, n, func(t *rapid.T) rs.Op {
			var o rs.Op
			switch k := fw.Uni(t, "deadline", 40); {
			case k == 0:
				o = cmd("expire", fw.Pick(t, "key", p.Keys), itoa(fw.Rng(t, "sec", 1000, 100000)))
			case k <= 2:
				o = cmd("ttl", fw.Pick(t, "key", p.Keys))
			default:
				o = op(p, t)
			}
			o.Conn = fw.Uni(t, "conn", h.Conns)
			return o
		})
		// deadlines far ahead belong to a key only as long as it exists
		if fw.Chance(t, "rebirth", 1, 3) {
			b := rs.Rebirth(t, fw.Pick(t, "rbKey", p.Keys), kind, fw.Pick(t, "rbSec", []string{"1000", "50000"}))
			conn, at := fw.Uni(t, "rbConn", h.Conns), fw.Uni(t, "rbAt", len(h.Ops)+1)
			for i := range b {
				b[i].Conn = conn
			}
			h.Ops = append(append(append([]rs.Op{}, h.Ops[:at]...), b...), h.Ops[at:]...)
		}
		return h
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

func cmd(args ...string) rs.Op { return rs.Cmd(args...) }
