package main

import (
	"fmt"
	"math"
	"slices"
	"strconv"

	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C25: the skiplist against a sorted slice; C26: the sorted set against a map and a sorted slice

// Score is a float64 that survives JSON.
type Score float64

func (s Score) MarshalJSON() ([]byte, error) {
	return []byte(strconv.Quote(strconv.FormatFloat(float64(s), 'g', -1, 64))), nil
}

func (s *Score) UnmarshalJSON(b []byte) error {
	q, err := strconv.Unquote(string(b))
	if err != nil {
		return err
	}
	f, err := strconv.ParseFloat(q, 64)
	*s = Score(f)
	return err
}

type pair struct {
	s float64
	m string
}

func cmpPair(a, b pair) int {
	switch {
	case a.s < b.s:
		return -1
	case a.s > b.s:
		return 1
	case a.m < b.m:
		return -1
	case a.m > b.m:
		return 1
	}
	return 0
}

type seqModel []pair

func (q seqModel) find(p pair) (int, bool) { return slices.BinarySearchFunc(q, p, cmpPair) }

func (q seqModel) member(m string) int {
	return slices.IndexFunc(q, func(p pair) bool { return p.m == m })
}

// span returns the positions [i,j) of the scores in [lo,hi].
func (q seqModel) span(lo, hi float64) (int, int) {
	i := 0
	for i < len(q) && q[i].s < lo {
		i++
	}
	j := i
	for j < len(q) && q[j].s <= hi {
		j++
	}
	return i, j
}

// ranks returns the positions [i,j) of the 0-based ranks a..b.
func (q seqModel) ranks(a, b int64) (int, int) {
	n := int64(len(q))
	if a > b || a >= n {
		return 0, 0
	}
	return int(a), int(min(b, n-1)) + 1
}

func pairsString(q []pair) string {
	if len(q) > 8 {
		return fmt.Sprintf("%v... (%d)", q[:8], len(q))
	}
	return fmt.Sprint(q)
}

// ZOp: M is a member number, S and S2 scores, A and B ranks (used modulo the length), L a limit.
type ZOp struct {
	K     string
	M     int   `json:",omitempty"`
	S, S2 Score `json:",omitempty"`
	A, B  int   `json:",omitempty"`
	L     int   `json:",omitempty"`
	N     int   `json:",omitempty"`
	Rev   bool  `json:",omitempty"`
}

type ZCase struct {
	Hash int
	Seed int64
	Ops  []ZOp
}

func (c *ZCase) Steps() int { return len(c.Ops) }
func (c *ZCase) Without(i, j int) any {
	return &ZCase{c.Hash, c.Seed, without(c.Ops, i, j)}
}

// memberName gives short and long members, some prefixes of others, and the empty one.
func memberName(n int) string {
	switch n % 16 {
	case 0:
		if n == 0 {
			return ""
		}
	case 5:
		return "k" + strconv.Itoa(n) + "\x00"
	case 7:
		return "\xff" + strconv.Itoa(n)
	}
	return "k" + strconv.Itoa(n)
}

var plainScores = []Score{0, 1, 2, 3, -1, -2, 0.5, Score(math.Copysign(0, -1)), 1e300, -1e300, Score(math.Inf(1)), Score(math.Inf(-1)), math.MaxFloat64, math.SmallestNonzeroFloat64}

func genScore(t *rapid.T, wide bool) Score {
	if wide && fw.Chance(t, "int", 2, 3) {
		return Score(fw.Rng(t, "score", -200, 200))
	}
	return fw.Pick(t, "score", plainScores)
}

func genZOps(t *rapid.T, tier int, zset bool) []ZOp {
	span := fw.Pick(t, "members", []int{4, 12, 60, 600})
	fill := fw.Pick(t, "fill", []int{2, 6, 40, 400})
	if tier == 1 {
		fill = fw.Pick(t, "fill2", []int{fill, fill, fill, 3000})
	}
	wide := fw.Chance(t, "wide", 1, 2)
	n := 60
	if tier == 1 {
		n = 250
	}
	return fw.Seq(t, "ops", 1, n, func(t *rapid.T) ZOp {
		o := ZOp{M: fw.Uni(t, "m", span), S: genScore(t, wide), S2: genScore(t, wide), Rev: fw.Chance(t, "rev", 1, 2)}
		// ranks: anywhere, at either end, beyond the end
		o.A, o.B = fw.Uni(t, "a", 1<<12), fw.Uni(t, "b", 1<<12)
		o.L = fw.Pick(t, "limit", []int{-1, -1, 0, 1, 2, 5, 100000})
		o.K = fw.Pick(t, "op", []string{"add", "add", "add", "add", "fill", "fill", "del", "del", "delabsent", "delscore", "delrank", "rank", "rank", "rankabsent", "at", "rangerank", "rangerank", "rangescore", "rangescore", "count", "ends", "update", "update", "walk"})
		switch o.K {
		case "fill":
			o.N = fw.Rng(t, "n", 1, fill)
			o.L = fw.Uni(t, "pattern", 4)
		case "delscore", "delrank":
			if o.K == "delrank" && fw.Chance(t, "small", 3, 4) {
				o.N = fw.Rng(t, "width", 1, 5)
			}
			if o.K == "delscore" && fw.Chance(t, "one", 2, 3) {
				o.S2 = o.S
			}
		case "rangescore", "count":
			if fw.Chance(t, "order", 3, 4) && o.S > o.S2 {
				o.S, o.S2 = o.S2, o.S
			}
		}
		return o
	})
}

// rankOf turns a drawn number into a 0-based rank: mostly present ones, sometimes at or beyond the end.
func rankOf(a int, n int) int64 {
	switch a % 8 {
	case 0:
		return int64(a / 8 % 3)
	case 1:
		return int64(max(0, n-1-a/8%3))
	case 2:
		return int64(n + a/8%3)
	}
	return int64(a / 8 % (n + 1))
}

func fillScore(pattern, i int, base float64) float64 {
	if math.IsInf(base, 0) || math.Abs(base) > 1e15 {
		return base
	}
	switch pattern {
	case 0:
		return base // all equal
	case 1:
		return base + float64(i)
	case 2:
		return base - float64(i)
	default:
		return base + float64(i*7919%13)
	}
}

func ptr[T any](v T) *T { return &v }

type skipRun struct {
	s *datastruct.Skiplist
	q seqModel
}

func node(n *datastruct.SkiplistNode) *pair {
	if n == nil {
		return nil
	}
	return &pair{n.Score, n.Member}
}

func same(a, b *pair) bool {
	if a == nil || b == nil {
		return a == b
	}
	return cmpPair(*a, *b) == 0
}

func show(p *pair) string {
	if p == nil {
		return "nothing"
	}
	return fmt.Sprintf("(%v,%q)", p.s, p.m)
}

func nodes(ns []*datastruct.SkiplistNode) []pair {
	out := make([]pair, len(ns))
	for i, n := range ns {
		out[i] = pair{n.Score, n.Member}
	}
	return out
}

func samePairs(a, b []pair) bool {
	return slices.EqualFunc(a, b, func(x, y pair) bool { return cmpPair(x, y) == 0 })
}

func (r *skipRun) insert(s float64, m string) error {
	if r.q.member(m) >= 0 {
		return nil // the caller must not insert a member twice
	}
	p := pair{s, m}
	n := r.s.Insert(s, m)
	if !same(node(n), &p) {
		return fw.Viol("Insert(%v,%q) returns %s", s, m, show(node(n)))
	}
	i, _ := r.q.find(p)
	r.q = slices.Insert(r.q, i, p)
	return nil
}

func (r *skipRun) deleteAt(i int) error {
	p := r.q[i]
	n := r.s.Delete(p.s, p.m)
	if !same(node(n), &p) {
		return fw.Viol("Delete(%v,%q) of a present element returns %s", p.s, p.m, show(node(n)))
	}
	r.q = slices.Delete(r.q, i, i+1)
	return nil
}

func (r *skipRun) one(o ZOp) error {
	n := len(r.q)
	s1, s2 := float64(o.S), float64(o.S2)
	switch o.K {
	case "add":
		return r.insert(s1, memberName(o.M))
	case "fill":
		for i := 0; i < o.N; i++ {
			if err := r.insert(fillScore(o.L, i, s1), memberName(o.M+i)); err != nil {
				return err
			}
		}
	case "update":
		if n > 0 {
			i := o.A % n
			m := r.q[i].m
			if err := r.deleteAt(i); err != nil {
				return err
			}
			return r.insert(s1, m)
		}
	case "del":
		if n > 0 {
			return r.deleteAt(o.A % n)
		}
	case "delabsent":
		p := pair{s1, memberName(o.M)}
		if _, ok := r.q.find(p); !ok {
			if got := r.s.Delete(p.s, p.m); got != nil {
				return fw.Viol("Delete(%v,%q) of an absent element returns %s", p.s, p.m, show(node(got)))
			}
		}
	case "delscore":
		i, j := r.q.span(s1, s2)
		want := slices.Clone(r.q[i:j])
		if got := nodes(r.s.DeleteRangeByScore(s1, s2)); !samePairs(got, want) {
			return fw.Viol("DeleteRangeByScore(%v,%v) of %d returns %s, want %s", s1, s2, n, pairsString(got), pairsString(want))
		}
		r.q = slices.Delete(r.q, i, j)
	case "delrank":
		a, b := rankOf(o.A, n), rankOf(o.B, n)
		if o.N > 0 {
			b = a + int64(o.N) - 1
		}
		i, j := r.q.ranks(a, b)
		want := slices.Clone(r.q[i:j])
		if got := nodes(r.s.DeleteRangeByRank(a+1, b+1)); !samePairs(got, want) {
			return fw.Viol("DeleteRangeByRank(%d,%d) of %d returns %s, want %s", a+1, b+1, n, pairsString(got), pairsString(want))
		}
		r.q = slices.Delete(r.q, i, j)
	case "rank":
		if n > 0 {
			i := o.A % n
			if got := r.s.GetRank(r.q[i].s, r.q[i].m); got != int64(i+1) {
				return fw.Viol("GetRank%v is %d, want %d of %d", r.q[i], got, i+1, n)
			}
		}
	case "rankabsent":
		if m := memberName(o.M); r.q.member(m) < 0 {
			if got := r.s.GetRank(s1, m); got != 0 {
				return fw.Viol("GetRank(%v,%q) of an absent member is %d", s1, m, got)
			}
		}
	case "at":
		k := rankOf(o.A, n)
		var want *pair
		if k < int64(n) {
			want = ptr(r.q[k])
		}
		if got := node(r.s.GetElementByRank(k + 1)); !same(got, want) {
			return fw.Viol("GetElementByRank(%d) of %d is %s, want %s", k+1, n, show(got), show(want))
		}
	case "rangerank":
		a, b := rankOf(o.A, n), rankOf(o.B, n)
		q := slices.Clone(r.q)
		if o.Rev {
			slices.Reverse(q)
		}
		i, j := q.ranks(a, b)
		if got := nodes(r.s.RangeByRank(a+1, b+1, o.Rev)); !samePairs(got, q[i:j]) {
			return fw.Viol("RangeByRank(%d,%d,%v) of %d returns %s, want %s", a+1, b+1, o.Rev, n, pairsString(got), pairsString(q[i:j]))
		}
	case "rangescore":
		i, j := r.q.span(s1, s2)
		want := slices.Clone(r.q[i:j])
		if o.Rev {
			slices.Reverse(want)
		}
		if o.L >= 0 {
			want = want[:min(o.L, len(want))]
		}
		if got := nodes(r.s.RangeByScore(s1, s2, int64(o.L), o.Rev)); !samePairs(got, want) {
			return fw.Viol("RangeByScore(%v,%v,%d,%v) of %d returns %s, want %s", s1, s2, o.L, o.Rev, n, pairsString(got), pairsString(want))
		}
	case "count":
		i, j := r.q.span(s1, s2)
		if got := r.s.Count(s1, s2); got != int64(j-i) {
			return fw.Viol("Count(%v,%v) of %d is %d, want %d", s1, s2, n, got, j-i)
		}
	case "ends":
		i, j := r.q.span(s1, s2)
		var first, last *pair
		if i < j {
			first, last = ptr(r.q[i]), ptr(r.q[j-1])
		}
		if got := node(r.s.GetFirstInScoreRange(s1, s2)); !same(got, first) {
			return fw.Viol("GetFirstInScoreRange(%v,%v) of %d is %s, want %s", s1, s2, n, show(got), show(first))
		}
		if got := node(r.s.GetLastInScoreRange(s1, s2)); !same(got, last) {
			return fw.Viol("GetLastInScoreRange(%v,%v) of %d is %s, want %s", s1, s2, n, show(got), show(last))
		}
	case "walk":
		return r.all()
	}
	return nil
}

func (r *skipRun) all() error {
	i := 0
	for x := r.s.Head.Levels[0].Forward; x != nil; x = x.Levels[0].Forward {
		if i >= len(r.q) || !same(node(x), &r.q[i]) {
			return fw.Viol("forward traversal: element %d of %d is %s", i, len(r.q), show(node(x)))
		}
		i++
	}
	if i != len(r.q) {
		return fw.Viol("forward traversal ends after %d of %d elements", i, len(r.q))
	}
	for x := r.s.Tail; x != nil; x = x.Backward {
		i--
		if i < 0 || !same(node(x), &r.q[i]) {
			return fw.Viol("backward traversal: element %d of %d is %s", i, len(r.q), show(node(x)))
		}
	}
	if i != 0 {
		return fw.Viol("backward traversal misses the first %d of %d elements", i, len(r.q))
	}
	for i, p := range r.q {
		if got := r.s.GetRank(p.s, p.m); got != int64(i+1) {
			return fw.Viol("GetRank%v is %d, want %d of %d", p, got, i+1, len(r.q))
		}
		if got := node(r.s.GetElementByRank(int64(i + 1))); !same(got, &r.q[i]) {
			return fw.Viol("GetElementByRank(%d) of %d is %s, want %v", i+1, len(r.q), show(got), r.q[i])
		}
	}
	return nil
}

type zsetRun struct {
	z *datastruct.Zset
	q seqModel
}

func elem(x *datastruct.ZsetElement) *pair {
	if x == nil {
		return nil
	}
	return &pair{x.Score, x.Member}
}

func elems(xs []*datastruct.ZsetElement) ([]pair, error) {
	out := make([]pair, len(xs))
	for i, x := range xs {
		if x == nil {
			return nil, fw.Viol("element %d of %d is nil", i, len(xs))
		}
		out[i] = pair{x.Score, x.Member}
	}
	return out, nil
}

func (r *zsetRun) add(s float64, m string) error {
	i := r.q.member(m)
	if isNew := r.z.Add(s, m); isNew != (i < 0) {
		return fw.Viol("Add(%v,%q) reports new=%v, present before: %v", s, m, isNew, i >= 0)
	}
	if i >= 0 {
		if r.q[i].s == s {
			return nil
		}
		r.q = slices.Delete(r.q, i, i+1)
	}
	p := pair{s, m}
	j, _ := r.q.find(p)
	r.q = slices.Insert(r.q, j, p)
	return nil
}

func (r *zsetRun) del(m string) error {
	i := r.q.member(m)
	if ok := r.z.Delete(m); ok != (i >= 0) {
		return fw.Viol("Delete(%q) reports %v, present before: %v", m, ok, i >= 0)
	}
	if i >= 0 {
		r.q = slices.Delete(r.q, i, i+1)
	}
	return nil
}

// check1 compares the views of the member at position i.
func (r *zsetRun) check1(i int) error {
	p, n := r.q[i], len(r.q)
	if got := elem(r.z.Get(p.m)); !same(got, &p) {
		return fw.Viol("Get(%q) is %s, want score %v", p.m, show(got), p.s)
	}
	if got := r.z.GetRank(p.m, false); got != int64(i) {
		return fw.Viol("GetRank(%q) is %d, want %d of %d", p.m, got, i, n)
	}
	if got := r.z.GetRank(p.m, true); got != int64(n-1-i) {
		return fw.Viol("reverse GetRank(%q) is %d, want %d of %d", p.m, got, n-1-i, n)
	}
	return nil
}

func (r *zsetRun) cmp(what string, xs []*datastruct.ZsetElement, want []pair) error {
	got, err := elems(xs)
	if err != nil {
		return wrapViol(err, what+": ")
	}
	if !samePairs(got, want) {
		return fw.Viol("%s of %d returns %s, want %s", what, len(r.q), pairsString(got), pairsString(want))
	}
	return nil
}

func (r *zsetRun) all() error {
	for i := range r.q {
		if err := r.check1(i); err != nil {
			return err
		}
	}
	if err := r.cmp("RangeByRank(0,max)", r.z.RangeByRank(0, math.MaxInt64, false), r.q); err != nil {
		return err
	}
	if err := r.cmp("RangeByScore(-inf,inf)", r.z.RangeByScore(math.Inf(-1), math.Inf(1), -1, false), r.q); err != nil {
		return err
	}
	q := slices.Clone(r.q)
	slices.Reverse(q)
	if err := r.cmp("reverse RangeByRank(0,max)", r.z.RangeByRank(0, math.MaxInt64, true), q); err != nil {
		return err
	}
	if got := r.z.Count(math.Inf(-1), math.Inf(1)); got != int64(len(q)) {
		return fw.Viol("Count(-inf,inf) is %d, want %d", got, len(q))
	}
	if r.z.Size() != int64(len(q)) {
		return fw.Viol("Size is %d, want %d", r.z.Size(), len(q))
	}
	return nil
}

func (r *zsetRun) one(o ZOp) error {
	n := len(r.q)
	s1, s2 := float64(o.S), float64(o.S2)
	m := memberName(o.M)
	switch o.K {
	case "add":
		return r.add(s1, m)
	case "update":
		if n > 0 {
			m = r.q[o.A%n].m
		}
		return r.add(s1, m)
	case "fill":
		for i := 0; i < o.N; i++ {
			if err := r.add(fillScore(o.L, i, s1), memberName(o.M+i)); err != nil {
				return err
			}
		}
	case "del":
		if n > 0 {
			m = r.q[o.A%n].m
		}
		return r.del(m)
	case "delabsent":
		return r.del(m)
	case "delscore":
		i, j := r.q.span(s1, s2)
		want := slices.Clone(r.q[i:j])
		if err := r.cmp(fmt.Sprintf("DeleteRangeByScore(%v,%v)", s1, s2), r.z.DeleteRangeByScore(s1, s2), want); err != nil {
			return err
		}
		r.q = slices.Delete(r.q, i, j)
	case "delrank":
		a, b := rankOf(o.A, n), rankOf(o.B, n)
		if o.N > 0 {
			b = a + int64(o.N) - 1
		} else if o.B%7 == 0 {
			b = math.MaxInt64
		}
		i, j := r.q.ranks(a, b)
		want := slices.Clone(r.q[i:j])
		if err := r.cmp(fmt.Sprintf("DeleteRangeByRank(%d,%d)", a, b), r.z.DeleteRangeByRank(a, b), want); err != nil {
			return err
		}
		r.q = slices.Delete(r.q, i, j)
	case "rank":
		if n > 0 {
			return r.check1(o.A % n)
		}
	case "rankabsent":
		if r.q.member(m) < 0 {
			if got := r.z.GetRank(m, o.Rev); got != -1 {
				return fw.Viol("GetRank(%q,%v) of an absent member is %d", m, o.Rev, got)
			}
			if got := r.z.Get(m); got != nil {
				return fw.Viol("Get(%q) of an absent member is %s", m, show(elem(got)))
			}
		}
	case "at", "rangerank":
		a, b := rankOf(o.A, n), rankOf(o.B, n)
		if o.K == "at" {
			b = a
		} else if o.B%7 == 0 {
			b = math.MaxInt64
		}
		q := slices.Clone(r.q)
		if o.Rev {
			slices.Reverse(q)
		}
		i, j := q.ranks(a, b)
		return r.cmp(fmt.Sprintf("RangeByRank(%d,%d,%v)", a, b, o.Rev), r.z.RangeByRank(a, b, o.Rev), q[i:j])
	case "rangescore", "ends":
		i, j := r.q.span(s1, s2)
		want := slices.Clone(r.q[i:j])
		if o.Rev {
			slices.Reverse(want)
		}
		if o.L >= 0 {
			want = want[:min(o.L, len(want))]
		}
		return r.cmp(fmt.Sprintf("RangeByScore(%v,%v,%d,%v)", s1, s2, o.L, o.Rev), r.z.RangeByScore(s1, s2, int64(o.L), o.Rev), want)
	case "count":
		i, j := r.q.span(s1, s2)
		if got := r.z.Count(s1, s2); got != int64(j-i) {
			return fw.Viol("Count(%v,%v) of %d is %d, want %d", s1, s2, n, got, j-i)
		}
	case "walk":
		return r.all()
	}
	return nil
}

func init() {
	note := func(e *fw.Env, h *ZCase) {
		kinds := map[string]int{}
		for _, o := range h.Ops {
			kinds[o.K]++
			if math.IsInf(float64(o.S), 0) && (o.K == "add" || o.K == "update") {
				e.Label("infinite score")
			}
		}
		if len(kinds) >= 5 && kinds["add"]+kinds["fill"] > 0 && kinds["del"]+kinds["delscore"]+kinds["delrank"]+kinds["update"] > 0 {
			e.NonTrivial()
		}
		for k, n := range kinds {
			e.LabelN(k, n)
		}
		seedRand(h.Seed)
	}
	rule := "random sequences of up to 60 (thorough: 250) operations (add, update, bulk add with equal, ascending, descending and mixed scores, delete, delete by rank and score range, rank, element, ranges in both directions with limits, counts, complete traversals) with scores from a list of special values (infinities, both zeros, extremes) or integers and members that include the empty one; every result compared with a sorted slice; non-trivial: at least 5 kinds of operation, of which one adds and one removes or moves elements"
	fw.Register(&fw.Prop{
		ID: "C25", InProc: true, New: func() any { return &ZCase{} }, Rule: rule,
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Gen: func(t *rapid.T, tier int) any {
			return &ZCase{Seed: int64(fw.Uni(t, "seed", 1<<16)), Ops: genZOps(t, tier, false)}
		},
		Run: func(e *fw.Env, c any) error {
			h := c.(*ZCase)
			note(e, h)
			r := &skipRun{s: datastruct.NewSkiplist()}
			for i, o := range h.Ops {
				if err := r.one(o); err != nil {
					return wrapViol(err, fmt.Sprintf("step %d (%s): ", i, o.K))
				}
				if r.s.Length != int64(len(r.q)) {
					return fw.Viol("after step %d (%s): Length is %d, want %d", i, o.K, r.s.Length, len(r.q))
				}
			}
			return wrapViol(r.all(), "at the end: ")
		},
	})
	fw.Register(&fw.Prop{
		ID: "C26", InProc: true, New: func() any { return &ZCase{} }, Rule: rule,
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Gen: func(t *rapid.T, tier int) any {
			c := &ZCase{Hash: genHashKind(t), Seed: int64(fw.Uni(t, "seed", 1<<16)), Ops: genZOps(t, tier, true)}
			if slowHash(c.Hash) {
				for i := range c.Ops {
					c.Ops[i].N = min(c.Ops[i].N, 60)
				}
			}
			return c
		},
		Run: func(e *fw.Env, c any) error {
			h := c.(*ZCase)
			note(e, h)
			r := &zsetRun{z: datastruct.NewZset(dictTypeOf(h.Hash))}
			for i, o := range h.Ops {
				if err := r.one(o); err != nil {
					return wrapViol(err, fmt.Sprintf("step %d (%s): ", i, o.K))
				}
				if r.z.Size() != int64(len(r.q)) {
					return fw.Viol("after step %d (%s): Size is %d, want %d", i, o.K, r.z.Size(), len(r.q))
				}
			}
			return wrapViol(r.all(), "at the end: ")
		},
	})
}
