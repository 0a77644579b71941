package main

import (
	"errors"
	"fmt"
	"maps"

	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C24: the set type against mathematical sets

type SOp struct {
	K       string
	S, T, D int `json:",omitempty"` // sets: operands and destination
	A, N    int `json:",omitempty"`
	Step    int `json:",omitempty"`
}

type SetCase struct {
	Hash int
	Seed int64
	Ops  []SOp
}

func (c *SetCase) Steps() int { return len(c.Ops) }
func (c *SetCase) Without(i, j int) any {
	return &SetCase{c.Hash, c.Seed, without(c.Ops, i, j)}
}

const nSets = 3

type setRun struct {
	s [nSets]*datastruct.Set
	m [nSets]map[int]bool
	e *fw.Env
}

// add and remove are also used by C27.
func setAdd(s *datastruct.Set, m map[int]bool, k int) error {
	if isNew := s.Add(keyName(k)); isNew == m[k] {
		return fw.Viol("Add(%s) reports new=%v, present before: %v", keyName(k), isNew, m[k])
	}
	m[k] = true
	return nil
}

func setDel(s *datastruct.Set, m map[int]bool, k int) error {
	err := s.Delete(keyName(k))
	if (err == nil) != m[k] {
		return fw.Viol("Delete(%s) reports %v, present before: %v", keyName(k), err, m[k])
	}
	delete(m, k)
	return nil
}

func setEqual(s *datastruct.Set, m map[int]bool) error {
	if s.Size() != int64(len(m)) {
		return fw.Viol("Size is %d, want %d", s.Size(), len(m))
	}
	seen := map[int]bool{}
	for _, x := range s.Range() {
		k := int(keyNum(x))
		if x != keyName(k) || !m[k] {
			return fw.Viol("Range returns %v, which is not a member", x)
		}
		if seen[k] {
			return fw.Viol("Range returns %v twice", x)
		}
		seen[k] = true
	}
	if len(seen) != len(m) {
		return fw.Viol("Range returns %d of %d members", len(seen), len(m))
	}
	return nil
}

func setContains(s *datastruct.Set, m map[int]bool) error {
	for k := range m {
		if !s.Contains(keyName(k)) {
			return fw.Viol("Contains(%s) is false for a member of %d", keyName(k), len(m))
		}
		if !m[k+1] && s.Contains(keyName(k+1)) {
			return fw.Viol("Contains(%s) is true for a non-member", keyName(k+1))
		}
	}
	return nil
}

func (r *setRun) one(o SOp) error {
	s, m := r.s[o.S], r.m[o.S]
	switch o.K {
	case "add":
		for i := 0; i < max(1, o.N); i++ {
			if err := setAdd(s, m, o.A+i*max(1, o.Step)); err != nil {
				return err
			}
		}
	case "del":
		for i := 0; i < max(1, o.N); i++ {
			if err := setDel(s, m, o.A+i*max(1, o.Step)); err != nil {
				return err
			}
		}
	case "has":
		if got := s.Contains(keyName(o.A)); got != m[o.A] {
			return fw.Viol("Contains(%s) is %v", keyName(o.A), got)
		}
	case "random":
		seen := map[int]bool{}
		for i := 0; i < max(1, o.N) && len(m) > 0; i++ {
			x := s.GetRandom()
			k := int(keyNum(x))
			if x != keyName(k) || !m[k] {
				return fw.Viol("GetRandom returns %v, which is not a member", x)
			}
			seen[k] = true
			if len(seen) == len(m) {
				break
			}
		}
		if o.N >= 4000 && len(m) <= 8 && len(seen) < len(m) {
			return fw.Viol("GetRandom returned only %d of %d members in %d calls", len(seen), len(m), o.N)
		}
	case "clear":
		for k := range m {
			if err := setDel(s, m, k); err != nil {
				return err
			}
		}
	case "union", "intersect", "difference":
		t, n := r.s[o.T], r.m[o.T]
		want := map[int]bool{}
		var got *datastruct.Set
		switch o.K {
		case "union":
			got = s.Union(t)
			maps.Copy(want, m)
			maps.Copy(want, n)
		case "intersect":
			got = s.Intersect(t)
			for k := range m {
				if n[k] {
					want[k] = true
				}
			}
		case "difference":
			got = s.Difference(t)
			for k := range m {
				if !n[k] {
					want[k] = true
				}
			}
		}
		if got == s || got == t {
			return fw.Viol("%s returns one of its operands", o.K)
		}
		if err := setEqual(got, want); err != nil {
			return wrapViol(err, fmt.Sprintf("%s of sets of %d and %d members: ", o.K, len(m), len(n)))
		}
		if err := setEqual(s, m); err != nil {
			return wrapViol(err, "first operand after "+o.K+": ")
		}
		if err := setEqual(t, n); err != nil {
			return wrapViol(err, "second operand after "+o.K+": ")
		}
		if o.S == o.T {
			r.e.Label("%s with itself", o.K)
		}
		if len(m) == 0 || len(n) == 0 {
			r.e.Label("%s with an empty set", o.K)
		}
		r.s[o.D], r.m[o.D] = got, want
	}
	return nil
}

func wrapViol(err error, prefix string) error {
	var v *fw.Violation
	if errors.As(err, &v) {
		v.Msg = prefix + v.Msg
	}
	return err
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C24", InProc: true, New: func() any { return &SetCase{} },
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Rule: "random histories of up to 50 (thorough: 200) operations on three sets: add, delete, bulk add and delete (also with strides), random member, and union, intersection and difference (also with itself and empty sets) whose result replaces one of the sets; after each algebraic operation result and operands are compared with mathematical sets, and all sets after the history; nine hash functions; non-trivial: at least two algebraic operations and an add",
		Gen: func(t *rapid.T, tier int) any {
			c := &SetCase{Hash: genHashKind(t), Seed: int64(fw.Uni(t, "seed", 1<<16))}
			fill := fw.Pick(t, "fill", []int{2, 8, 60, 700})
			if tier == 1 {
				fill *= 4
			}
			if slowHash(c.Hash) {
				fill = min(fill, 60)
			}
			span := fw.Pick(t, "span", []int{5, fill, 2 * fill})
			n := 50
			if tier == 1 {
				n = 200
			}
			c.Ops = fw.Seq(t, "ops", 1, n, func(t *rapid.T) SOp {
				s := fw.Uni(t, "s", nSets)
				a := fw.Uni(t, "a", span)
				switch k := fw.Uni(t, "op", 14); k {
				case 0, 1:
					return SOp{K: "add", S: s, A: a}
				case 2, 3:
					return SOp{K: "add", S: s, A: a, N: fw.Rng(t, "n", 1, fill), Step: fw.Pick(t, "step", []int{1, 1, 2, 3})}
				case 4:
					return SOp{K: "del", S: s, A: a}
				case 5:
					return SOp{K: "del", S: s, A: a, N: fw.Rng(t, "n", 1, fill), Step: fw.Pick(t, "step", []int{1, 1, 2, 3})}
				case 6:
					return SOp{K: "has", S: s, A: a}
				case 7:
					return SOp{K: "random", S: s, N: fw.Pick(t, "times", []int{1, 20, 4000})}
				case 8:
					if fw.Chance(t, "clear", 1, 2) {
						return SOp{K: "clear", S: s}
					}
					return SOp{K: "has", S: s, A: a}
				case 9, 10:
					return SOp{K: "union", S: s, T: fw.Uni(t, "t", nSets), D: fw.Uni(t, "d", nSets)}
				case 11:
					return SOp{K: "intersect", S: s, T: fw.Uni(t, "t", nSets), D: fw.Uni(t, "d", nSets)}
				default:
					return SOp{K: "difference", S: s, T: fw.Uni(t, "t", nSets), D: fw.Uni(t, "d", nSets)}
				}
			})
			return c
		},
		Run: func(e *fw.Env, c any) error {
			h := c.(*SetCase)
			kinds := map[string]int{}
			for _, o := range h.Ops {
				kinds[o.K]++
			}
			if kinds["union"]+kinds["intersect"]+kinds["difference"] >= 2 && kinds["add"] > 0 {
				e.NonTrivial()
			}
			for k, n := range kinds {
				e.LabelN(k, n)
			}
			seedRand(h.Seed)
			r := &setRun{e: e}
			for i := range r.s {
				r.s[i], r.m[i] = datastruct.NewSet(dictTypeOf(h.Hash)), map[int]bool{}
			}
			for i, o := range h.Ops {
				if err := r.one(o); err != nil {
					return wrapViol(err, fmt.Sprintf("step %d (%+v): ", i, o))
				}
				if n := r.s[o.S].Size(); n != int64(len(r.m[o.S])) {
					return fw.Viol("after step %d (%+v): Size is %d, want %d", i, o, n, len(r.m[o.S]))
				}
			}
			for i := range r.s {
				if err := setEqual(r.s[i], r.m[i]); err != nil {
					return wrapViol(err, fmt.Sprintf("set %d at the end: ", i))
				}
				if err := setContains(r.s[i], r.m[i]); err != nil {
					return wrapViol(err, fmt.Sprintf("set %d at the end: ", i))
				}
			}
			return nil
		},
	})
}
