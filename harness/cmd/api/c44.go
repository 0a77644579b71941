package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strings"
	"time"

	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C44: an operation costs what the container holds now, whatever it held before

type CostCase struct {
	Kind    string // dict, set, skiplist, zset, list
	Seed    int64
	Pattern int // of the names
	Ops     []HOp
}

func (c *CostCase) Steps() int { return len(c.Ops) }
func (c *CostCase) Without(i, j int) any {
	return &CostCase{c.Kind, c.Seed, c.Pattern, without(c.Ops, i, j)}
}

func genCost(t *rapid.T, tier int) any {
	c := &CostCase{
		Kind:    fw.Pick(t, "kind", []string{"dict", "dict", "dict", "set", "skiplist", "zset", "list"}),
		Seed:    int64(fw.Rng(t, "seed", 1, 1<<30)),
		Pattern: fw.Uni(t, "pattern", 10),
	}
	sizes := []int{1, 3, 20, 100, 600, 3000, 12000, 40000}
	max := 10
	if tier == 1 {
		max = 25
		sizes = append(sizes, 100000)
	}
	kinds := map[string][]string{
		"dict":     {"add", "add", "add", "del", "iter", "iter", "iterfind", "nested", "drain", "drain", "random", "find", "replace", "copy", "check"},
		"set":      {"add", "add", "add", "del", "range", "drain", "drain", "random", "algebra", "copy", "check"},
		"zset":     {"add", "add", "add", "del", "byrank", "byscore", "drain", "drain", "rescore", "copy", "check"},
		"skiplist": {"add", "add", "add", "del", "byrank", "byscore", "drain", "drain", "check"},
		"list":     {"back", "back", "front", "popfront", "popback", "drain", "queue", "copy", "check"},
	}[c.Kind]
	c.Ops = fw.Seq(t, "ops", 1, max, func(t *rapid.T) HOp {
		return HOp{K: fw.Pick(t, "op", kinds), A: fw.Pick(t, "a", []int{0, 0, 1, 2, 7, 50, 600, 20000}), B: fw.Uni(t, "b", 50), N: fw.Pick(t, "n", sizes)}
	})
	return c
}

// countType counts the comparisons.
type countType struct {
	database.DictType
	n *int
}

func (c *countType) Equal(a, b any) bool {
	*c.n++
	return c.DictType.Equal(a, b)
}

func costName(pattern, i int) string {
	switch pattern {
	case 1:
		return fmt.Sprintf("k%08d", i)
	case 2:
		return strings.Repeat("user:profile:", 15) + fmt.Sprint(i)
	case 3:
		return fmt.Sprint(i) + strings.Repeat(":session:data", 15)
	case 4:
		return fmt.Sprintf("%s%d%s", strings.Repeat("a", 70), i, strings.Repeat("z", 70))
	case 5:
		return string(binary.LittleEndian.AppendUint32(nil, uint32(i)))
	case 6:
		return fmt.Sprintf("ключ-%d-キー", i)
	case 7:
		return fmt.Sprintf("%016x", uint64(i)*0x9e3779b97f4a7c15)
	case 8:
		return "\x00\x00" + fmt.Sprint(i) + "\r\n\x00"
	case 9:
		return strings.Repeat("x", i%97) + fmt.Sprint(i)
	}
	return fmt.Sprint(i)
}

const costSpace = 60000

// mean returns the least mean time of an operation over seven rounds.
func mean(rounds, n int, f func(i int)) time.Duration {
	best := time.Duration(math.MaxInt64)
	for r := 0; r < rounds; r++ {
		t := time.Now()
		for i := 0; i < n; i++ {
			f(r*n + i)
		}
		if d := time.Since(t) / time.Duration(n); d < best {
			best = d
		}
	}
	return best
}

type costRun struct {
	c     *CostCase
	e     *fw.Env
	n     int // comparisons
	dict  *datastruct.Dict
	set   *datastruct.Set
	zset  *datastruct.Zset
	skip  *datastruct.Skiplist
	list  *datastruct.Quicklist
	have  map[int]float64
	peak  int
	len   int // list
	check int
}

func (h *costRun) name(i int) string      { return costName(h.c.Pattern, i%costSpace) }
func (h *costRun) score(i, b int) float64 { return float64((i*31 + b) % 1000) }

func (h *costRun) add(i, b int) {
	i %= costSpace
	old, had := h.have[i]
	x := h.score(i, b)
	h.have[i] = x
	switch {
	case h.dict != nil:
		h.dict.Set(h.name(i), i)
	case h.set != nil:
		h.set.Add(h.name(i))
	case h.zset != nil:
		h.zset.Add(x, h.name(i))
	default:
		if had {
			h.skip.Delete(old, h.name(i))
		}
		h.skip.Insert(x, h.name(i))
	}
}

func (h *costRun) del(i int) {
	i %= costSpace
	old, had := h.have[i]
	delete(h.have, i)
	switch {
	case h.dict != nil:
		_ = h.dict.Delete(h.name(i))
	case h.set != nil:
		_ = h.set.Delete(h.name(i))
	case h.zset != nil:
		h.zset.Delete(h.name(i))
	default:
		if had {
			h.skip.Delete(old, h.name(i))
		}
	}
}

func (h *costRun) names() []int {
	out := make([]int, 0, len(h.have))
	for i := range h.have {
		out = append(out, i)
	}
	slices.Sort(out)
	return out
}

func (h *costRun) apply(o HOp) error {
	switch o.K {
	case "add":
		for i := 0; i < o.N; i++ {
			h.add(o.A+i, o.B)
		}
	case "del":
		for i := 0; i < o.N; i++ {
			h.del(o.A + i)
		}
	case "drain":
		names := h.names()
		if h.list != nil {
			for ; h.len > 1+o.B%4; h.len-- {
				if o.A%2 == 0 {
					h.list.PopFront()
				} else {
					h.list.PopBack()
				}
			}
			return nil
		}
		if o.A%2 == 1 {
			slices.Reverse(names)
		}
		for i := 0; i < len(names)-1-o.B%4; i++ {
			h.del(names[i])
		}
	case "iter", "iterfind", "nested": // abandoned after some elements
		it := datastruct.NewDictIterator(h.dict)
		for i := 0; i < o.A && it.Next() != nil; i++ {
			if o.K == "iterfind" && i < 500 {
				h.dict.Find(h.name(i))
			}
			if o.K == "nested" && i < 20 {
				in := datastruct.NewDictIterator(h.dict)
				for j := 0; j < o.B && in.Next() != nil; j++ {
				}
				in.Release()
			}
		}
		it.Release()
	case "range":
		_ = h.set.Range()
	case "algebra":
		_ = h.set.Union(h.set).Size() + h.set.Intersect(h.set).Size() + h.set.Difference(h.set).Size()
	case "random":
		for i := 0; i < min(o.N, 1000) && len(h.have) > 0; i++ {
			if h.dict != nil {
				h.dict.GetRandomKey()
			} else {
				h.set.GetRandom()
			}
		}
	case "find", "replace":
		for i := 0; i < o.N; i++ {
			if _, had := h.have[(o.A+i)%costSpace]; o.K == "find" || had {
				h.dict.Find(h.name(o.A + i))
				if o.K == "replace" {
					h.dict.Set(h.name(o.A+i), -i)
				}
			}
		}
	case "rescore":
		for i := 0; i < o.N; i++ {
			if _, had := h.have[(o.A+i)%costSpace]; had {
				h.add(o.A+i, o.B+1)
			}
		}
	case "byrank", "byscore":
		size := len(h.have)
		a := o.A % (size + 1)
		b := a + min(o.N, 3000)
		lo := float64(o.B)
		switch {
		case o.K == "byrank" && h.zset != nil:
			for _, x := range h.zset.RangeByRank(int64(a), int64(b), false) {
				delete(h.have, h.number(x.Member))
			}
			h.zset.DeleteRangeByRank(int64(a), int64(b))
		case o.K == "byrank":
			for _, x := range h.skip.RangeByRank(int64(a)+1, int64(b)+1, false) {
				delete(h.have, h.number(x.Member))
			}
			h.skip.DeleteRangeByRank(int64(a)+1, int64(b)+1)
		case h.zset != nil:
			h.zset.DeleteRangeByScore(lo, lo+float64(o.N%500))
		default:
			h.skip.DeleteRangeByScore(lo, lo+float64(o.N%500))
		}
		if o.K == "byscore" {
			for i, x := range h.have {
				if x >= lo && x <= lo+float64(o.N%500) {
					delete(h.have, i)
				}
			}
		}
	case "copy":
		switch {
		case h.dict != nil:
			h.dict = h.dict.DeepCopy()
		case h.set != nil:
			h.set = h.set.DeepCopy()
		case h.zset != nil:
			h.zset = h.zset.DeepCopy()
		default:
			h.list = h.list.DeepCopy()
		}
	case "back":
		for i := 0; i < o.N; i++ {
			h.list.PushBack(i)
		}
		h.len += o.N
	case "front":
		for i := 0; i < o.N; i++ {
			h.list.PushFront(i)
		}
		h.len += o.N
	case "popfront", "popback":
		for i := 0; i < o.N && h.len > 0; i++ {
			if o.K == "popfront" {
				h.list.PopFront()
			} else {
				h.list.PopBack()
			}
			h.len--
		}
	case "queue":
		for i := 0; i < o.N && h.len > 0; i++ {
			h.list.PushBack(i)
			h.list.PopFront()
		}
	case "check":
		return h.measure()
	}
	h.peak = max(h.peak, len(h.have), h.len)
	return nil
}

// number finds the name's number again: the names of the histories are few enough to be looked up.
func (h *costRun) number(name string) int {
	if numbers[h.c.Pattern] == nil {
		m := map[string]int{}
		for i := 0; i < costSpace; i++ {
			m[costName(h.c.Pattern, i)] = i
		}
		numbers[h.c.Pattern] = m
	}
	return numbers[h.c.Pattern][name]
}

var numbers [10]map[string]int

// steps is the time that an operation may always take. A good implementation takes less than a hundredth of it
// and, where the elements count, the logarithm of their number; a bad one takes time for each element there was.
const steps = 50 * time.Microsecond

func (h *costRun) measure() error {
	size := len(h.have) + h.len
	h.e.Label(h.c.Kind + " measured")
	h.check++
	limit := func(what string, rounds, n int, f func(i int)) error {
		d := mean(1, n, f)
		if d <= steps {
			return nil
		}
		if d = mean(rounds, n, f); d <= steps {
			return nil
		}
		return fw.Late("%s: %s takes %v with %d elements, after at most %d", h.c.Kind, what, d, size, h.peak)
	}
	switch {
	case h.list != nil:
		if size == 0 {
			return nil
		}
		return limit("a pair of operations at an end", 9, 200, func(i int) {
			if i%2 == 0 {
				h.list.PushBack(i)
				h.list.PopFront()
			} else {
				h.list.PushFront(i)
				h.list.PopBack()
			}
		})
	case h.skip != nil:
		return limit("inserting, ranking and deleting", 9, 200, func(i int) {
			x := float64(i * 37 % 1000)
			h.skip.Insert(x, "\xff")
			h.skip.GetRank(x, "\xff")
			h.skip.GetElementByRank(int64(i*7919%(size+1)) + 1)
			h.skip.GetFirstInScoreRange(x, x)
			h.skip.GetLastInScoreRange(x, x)
			h.skip.Delete(x, "\xff")
		})
	case h.zset != nil:
		return limit("adding, moving, ranking and deleting", 9, 200, func(i int) {
			x := float64(i * 37 % 1000)
			h.zset.Add(x, "\xff")
			h.zset.Add(1000-x, "\xff")
			h.zset.GetRank("\xff", i%2 == 0)
			at := int64(i * 7919 % (size + 1))
			h.zset.RangeByRank(at, at, i%2 == 1)
			h.zset.Delete("\xff")
		})
	}
	// present and absent names
	names := h.names()
	h.n = 0
	for i := 0; i < 300; i++ {
		if h.dict != nil {
			if len(names) > 0 {
				h.dict.Find(h.name(names[i*7919%len(names)]))
			}
			h.dict.Find("absent" + fmt.Sprint(i))
		} else {
			if len(names) > 0 {
				h.set.Contains(h.name(names[i*7919%len(names)]))
			}
			h.set.Contains("absent" + fmt.Sprint(i))
		}
	}
	if h.n > 600*8 {
		return fw.Viol("%s: 300 lookups of present names and 300 of absent ones take %d comparisons with %d elements, after at most %d", h.c.Kind, h.n, size, h.peak)
	}
	if size == 0 {
		return nil
	}
	random := func(int) {
		if h.dict != nil {
			h.dict.GetRandomKey()
		} else {
			h.set.GetRandom()
		}
	}
	for i := 0; i < 2000; i++ { // what is still to be moved between the tables is moved now
		random(i)
	}
	if err := limit("drawing a random element", 9, 200, random); err != nil {
		return err
	}
	if size > 8 || h.dict == nil {
		return nil
	}
	return limit("iterating over all elements", 9, 50, func(i int) {
		it := datastruct.NewDictIterator(h.dict)
		for it.Next() != nil {
		}
		it.Release()
	})
}

func runCost(e *fw.Env, cc any) error {
	c := cc.(*CostCase)
	seedRand(c.Seed)
	h := &costRun{c: c, e: e, have: map[int]float64{}}
	dt := &countType{n: &h.n}
	switch c.Kind {
	case "dict":
		h.dict = datastruct.NewDict(dt)
	case "set":
		h.set = datastruct.NewSet(dt)
	case "zset":
		h.zset = datastruct.NewZset(dt)
	case "skiplist":
		h.skip = datastruct.NewSkiplist()
	default:
		h.list = datastruct.NewQuicklist()
	}
	for i, o := range c.Ops {
		if err := h.apply(o); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	if err := h.measure(); err != nil {
		return err
	}
	e.Label(c.Kind)
	if h.peak >= 64 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C44", New: func() any { return &CostCase{} }, Gen: genCost, Run: runCost, InProc: true, QuickS: 20,
		Rule: "histories of 1-10 (thorough 25) bulk operations of up to 40000 (thorough 100000) elements, abandoned and nested iterations and copies on a hash table, set, skiplist, sorted set or list, over names of ten shapes; at the end and where the history says so, lookups of present and absent names may take eight comparisons on average, and drawing a random element, iterating over a few elements, and the logarithmic and constant-time operations of the ordered containers 50 us (the least of several means; a longer time must be reproduced); non-trivial: at least 64 elements at some point",
	})
}
