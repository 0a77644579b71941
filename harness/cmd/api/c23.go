package main

import (
	"errors"
	"fmt"
	"math"
	"slices"

	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C23: the paged list against a slice

// LOp: a position is made of Mode and A and the length at that time.
type LOp struct {
	K     string
	Mode  int `json:",omitempty"`
	A     int `json:",omitempty"`
	Mode2 int `json:",omitempty"`
	B     int `json:",omitempty"`
	N     int `json:",omitempty"`
}

type ListCase struct{ Ops []LOp }

func (c *ListCase) Steps() int           { return len(c.Ops) }
func (c *ListCase) Without(i, j int) any { return &ListCase{without(c.Ops, i, j)} }

// pos returns a position in [0,n] (modes 0-3) or outside (mode 4).
func pos(mode, a, n int) int {
	switch mode {
	case 0:
		return a % (n + 1)
	case 1:
		return max(0, n-a%4)
	case 2: // around multiples of half a page
		return min(n, max(0, 512*(a/8%(n/512+1))+a%8-4))
	case 3:
		return min(n, a%4)
	default:
		if a%2 == 0 {
			return -1 - a/2
		}
		return n + a/2
	}
}

func genPos(t *rapid.T, outside bool) (int, int) {
	modes := []int{0, 0, 1, 2, 2, 3}
	if outside {
		modes = append(modes, 4)
	}
	return fw.Pick(t, "mode", modes), fw.Uni(t, "a", 1<<13)
}

func genListOp(maxFill int) func(t *rapid.T) LOp {
	return func(t *rapid.T) LOp {
		switch k := fw.Uni(t, "op", 24); k {
		case 22, 23: // to the edges of pages
			return LOp{K: "edge", Mode: fw.Uni(t, "edge", 3), A: fw.Pick(t, "more", []int{0, 0, 1, 2, 1022, 1023, 1024})}
		case 0:
			return LOp{K: "pushfront", N: 1}
		case 1:
			return LOp{K: "pushback", N: 1}
		case 2:
			return LOp{K: "popfront", N: fw.Pick(t, "n", []int{1, 1, 2, 500, 1100})}
		case 3:
			return LOp{K: "popback", N: fw.Pick(t, "n", []int{1, 1, 2, 500, 1100})}
		case 4, 5:
			m, a := genPos(t, true)
			return LOp{K: "insert", Mode: m, A: a, N: 1}
		case 6, 7:
			m, a := genPos(t, false)
			return LOp{K: "insert", Mode: m, A: a, N: fw.Rng(t, "n", 1, maxFill)}
		case 8, 9:
			m, a := genPos(t, true)
			return LOp{K: "remove", Mode: m, A: a, N: 1}
		case 10:
			m, a := genPos(t, false)
			return LOp{K: "remove", Mode: m, A: a, N: fw.Rng(t, "n", 1, maxFill)}
		case 11:
			m, a := genPos(t, true)
			return LOp{K: "get", Mode: m, A: a}
		case 12:
			return LOp{K: "find", A: fw.Uni(t, "a", 1<<13), Mode: fw.Uni(t, "dup", 3)}
		case 13, 14, 15:
			m, a := genPos(t, false)
			m2, b := genPos(t, false)
			return LOp{K: "range", Mode: m, A: a, Mode2: m2, B: b, N: fw.Uni(t, "neg", 16)}
		case 16:
			return LOp{K: "pushback", N: fw.Rng(t, "n", 1, maxFill)}
		case 17:
			return LOp{K: "pushfront", N: fw.Rng(t, "n", 1, maxFill)}
		case 18:
			return LOp{K: "walk", A: fw.Uni(t, "a", 1<<13), B: fw.Uni(t, "b", 1<<13)}
		case 19:
			return LOp{K: "backward"}
		case 20:
			return LOp{K: "dup", N: fw.Rng(t, "n", 1, 4)}
		default:
			return LOp{K: "forward"}
		}
	}
}

type listRun struct {
	q    *datastruct.Quicklist
	m    []int
	next int
}

func (r *listRun) val() int { r.next++; return r.next }

func anys(vs []any) string {
	if len(vs) > 12 {
		return fmt.Sprintf("%v... (%d)", vs[:12], len(vs))
	}
	return fmt.Sprint(vs)
}

func (r *listRun) one(o LOp) error {
	n := len(r.m)
	switch o.K {
	case "pushfront":
		for i := 0; i < o.N; i++ {
			v := r.val()
			r.q.PushFront(v)
			r.m = slices.Insert(r.m, 0, v)
		}
	case "pushback":
		for i := 0; i < o.N; i++ {
			v := r.val()
			r.q.PushBack(v)
			r.m = append(r.m, v)
		}
	case "dup": // equal elements
		for i := 0; i < o.N; i++ {
			r.q.PushBack(7)
			r.m = append(r.m, 7)
		}
	case "popfront":
		for i := 0; i < o.N; i++ {
			got := r.q.PopFront()
			if len(r.m) == 0 {
				if got != nil {
					return fw.Viol("PopFront of an empty list returns %v", got)
				}
				break
			}
			if got != r.m[0] {
				return fw.Viol("PopFront returns %v, want %d", got, r.m[0])
			}
			r.m = r.m[1:]
		}
	case "popback":
		for i := 0; i < o.N; i++ {
			got := r.q.PopBack()
			if len(r.m) == 0 {
				if got != nil {
					return fw.Viol("PopBack of an empty list returns %v", got)
				}
				break
			}
			if got != r.m[len(r.m)-1] {
				return fw.Viol("PopBack returns %v, want %d", got, r.m[len(r.m)-1])
			}
			r.m = r.m[:len(r.m)-1]
		}
	case "edge": // add or remove until the number of pages changes, and then some
		k := []string{"popfront", "popback", "pushback"}[o.Mode]
		for i, left := 0, -1; i < 3000 && left != 0 && len(r.m) > 0; i++ {
			pages := r.q.Size()
			if err := r.one(LOp{K: k, N: 1}); err != nil {
				return err
			}
			if left > 0 {
				left--
			} else if r.q.Size() != pages {
				left = o.A
			}
		}
	case "insert":
		for i := 0; i < o.N; i++ {
			p, v := pos(o.Mode, o.A+i/8, len(r.m)), r.val()
			ok := r.q.Insert(p, v)
			in := p >= 0 && p <= len(r.m)
			if ok != in {
				return fw.Viol("Insert at %d of %d reports %v", p, len(r.m), ok)
			}
			if in {
				r.m = slices.Insert(r.m, p, v)
			}
		}
	case "remove":
		for i := 0; i < o.N; i++ {
			p := pos(o.Mode, o.A+i/8, len(r.m))
			got := r.q.Remove(p)
			if p < 0 || p >= len(r.m) {
				if got != nil {
					return fw.Viol("Remove at %d of %d returns %v", p, len(r.m), got)
				}
				continue
			}
			if got != r.m[p] {
				return fw.Viol("Remove at %d of %d returns %v, want %d", p, len(r.m), got, r.m[p])
			}
			r.m = slices.Delete(r.m, p, p+1)
		}
	case "get":
		p := pos(o.Mode, o.A, n)
		got := r.q.Get(p)
		if p < 0 || p >= n {
			if got != nil {
				return fw.Viol("Get at %d of %d returns %v", p, n, got)
			}
		} else if got != r.m[p] {
			return fw.Viol("Get at %d of %d returns %v, want %d", p, n, got, r.m[p])
		}
	case "find":
		v := 7
		if o.Mode == 1 && n > 0 {
			v = r.m[o.A%n]
		} else if o.Mode == 2 {
			v = -1 - o.A
		}
		if got, want := r.q.Find(v), slices.Index(r.m, v); got != want {
			return fw.Viol("Find returns %d, want %d, in a list of %d", got, want, n)
		}
	case "range":
		a, b := pos(o.Mode, o.A, n), pos(o.Mode2, o.B, n)
		if o.N < 12 && a > b {
			a, b = b, a
		}
		if o.N%3 == 1 && b < n {
			b -= n
		}
		if o.N%4 == 2 && a < n {
			a -= n
		}
		if o.N == 9 && b >= 0 {
			b += 1 + o.B
		}
		if o.N == 8 {
			b = math.MaxInt - o.B%3
		}
		lo, hi := a, b
		if lo < 0 {
			lo += n
		}
		if hi < 0 {
			hi += n
		}
		hi = min(hi, n-1)
		var want []any
		for i := lo; i <= hi; i++ {
			want = append(want, r.m[i])
		}
		if got := r.q.Range(a, b); !slices.Equal(got, want) {
			return fw.Viol("Range(%d,%d) of %d returns %s, want %s", a, b, n, anys(got), anys(want))
		}
	case "forward", "backward":
		it := datastruct.NewQuicklistIterator(r.q)
		for i := 0; i < n; i++ {
			if got := it.Next(); got != r.m[i] {
				return fw.Viol("forward iteration of %d elements: element %d is %v, want %d", n, i, got, r.m[i])
			}
		}
		if o.K == "forward" || n == 0 {
			if got := it.Next(); got != nil {
				return fw.Viol("forward iteration returns %v after all %d elements", got, n)
			}
			return nil
		}
		for i := n - 2; i >= 0; i-- {
			if got := it.Prev(); got != r.m[i] {
				return fw.Viol("backward iteration of %d elements: element %d is %v, want %d", n, i, got, r.m[i])
			}
		}
		if got := it.Prev(); got != nil {
			return fw.Viol("backward iteration returns %v after all %d elements", got, n)
		}
	case "walk":
		if n == 0 {
			return nil
		}
		it := datastruct.NewQuicklistIterator(r.q)
		at := -1
		x := uint32(o.A*8192 + o.B + 1)
		for i := 0; i < 6; i++ {
			x = x*1664525 + 1013904223
			to := int(x>>8) % n
			if i%2 == 1 {
				to = min(n-1, max(0, at+int(x>>8)%9-4))
			}
			for at < to {
				at++
				if got := it.Next(); got != r.m[at] {
					return fw.Viol("Next to element %d of %d gives %v, want %d", at, n, got, r.m[at])
				}
			}
			for at > to {
				at--
				if got := it.Prev(); got != r.m[at] {
					return fw.Viol("Prev to element %d of %d gives %v, want %d", at, n, got, r.m[at])
				}
			}
		}
	}
	return nil
}

func (r *listRun) run(ops []LOp) error {
	for i, o := range ops {
		if err := r.one(o); err != nil {
			var v *fw.Violation
			if errors.As(err, &v) {
				v.Msg = fmt.Sprintf("step %d (%+v): %s", i, o, v.Msg)
			}
			return err
		}
		if r.q.Len() != len(r.m) {
			return fw.Viol("after step %d (%s): Len is %d with %d elements", i, o.K, r.q.Len(), len(r.m))
		}
	}
	for _, k := range []string{"forward", "backward"} {
		if err := r.one(LOp{K: k}); err != nil {
			return err
		}
	}
	for i := range r.m {
		if got := r.q.Get(i); got != r.m[i] {
			return fw.Viol("at the end: Get(%d) of %d returns %v, want %d", i, len(r.m), got, r.m[i])
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C23", InProc: true, New: func() any { return &ListCase{} },
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Gen: func(t *rapid.T, tier int) any {
			n, fill := 40, fw.Pick(t, "fill", []int{4, 700, 1100, 3000})
			if tier == 1 {
				n = 160
			}
			c := &ListCase{}
			if fw.Chance(t, "prefill", 2, 3) {
				c.Ops = append(c.Ops, LOp{K: fw.Pick(t, "pre", []string{"pushback", "pushfront"}), N: fw.Pick(t, "preN", []int{1, 511, 512, 1023, 1024, 1025, 1500, 2048, 3072, 4000})})
			}
			c.Ops = append(c.Ops, fw.Seq(t, "ops", 1, n, genListOp(fill))...)
			return c
		},
		Rule: "random sequences of up to 40 (thorough: 160) operations (push, pop, insert, remove, get, find, range with negative bounds, iteration forward, backward and to and fro) at positions chosen at random, near both ends, around multiples of half a page and outside, with bulk fills and drains of up to 3000 elements; every result compared with a slice; non-trivial: at least 4 kinds of operation including one that adds elements and one that reads positions",
		Run: func(e *fw.Env, c any) error {
			h := c.(*ListCase)
			kinds := map[string]int{}
			for _, o := range h.Ops {
				kinds[o.K]++
			}
			if len(kinds) >= 4 && kinds["insert"]+kinds["pushback"]+kinds["pushfront"] > 0 && kinds["get"]+kinds["range"]+kinds["remove"]+kinds["walk"] > 0 {
				e.NonTrivial()
			}
			for k, n := range kinds {
				e.LabelN(k, n)
			}
			r := &listRun{q: datastruct.NewQuicklist()}
			err := r.run(h.Ops)
			if r.q.Size() > 2 {
				e.Label("more than two pages")
			}
			return err
		},
	})
}
